use crate::utility_types::NodeOrToken;
use std::{borrow::{Borrow, Cow}, fmt, ops, sync::Arc};
use text_size::{TextRange, TextSize};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SyntaxKind(pub u16);

// ---- tokens
#[derive(PartialEq, Eq, Hash)]
pub struct GreenTokenData { kind: SyntaxKind, text: Box<str> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct GreenToken { ptr: Arc<GreenTokenData> }
impl GreenTokenData {
    pub fn kind(&self) -> SyntaxKind { self.kind }
    pub fn text(&self) -> &str { &self.text }
    pub fn text_len(&self) -> TextSize { TextSize::of(&*self.text) }
}
impl GreenToken {
    pub fn new(kind: SyntaxKind, text: &str) -> GreenToken { GreenToken { ptr: Arc::new(GreenTokenData { kind, text: text.into() }) } }
    pub(crate) fn addr(&self) -> usize { Arc::as_ptr(&self.ptr) as usize }
}
impl ops::Deref for GreenToken { type Target = GreenTokenData; fn deref(&self) -> &GreenTokenData { &self.ptr } }
impl Borrow<GreenTokenData> for GreenToken { fn borrow(&self) -> &GreenTokenData { &self.ptr } }
impl ToOwned for GreenTokenData {
    type Owned = GreenToken;
    fn to_owned(&self) -> GreenToken {
        // every GreenTokenData lives inside an Arc
        unsafe { Arc::increment_strong_count(self as *const GreenTokenData); GreenToken { ptr: Arc::from_raw(self) } }
    }
}
impl fmt::Debug for GreenTokenData {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("GreenToken").field("kind", &self.kind()).field("text", &self.text()).finish() }
}
impl fmt::Debug for GreenToken { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&**self, f) } }
impl fmt::Display for GreenTokenData { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.text) } }
impl fmt::Display for GreenToken { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.text) } }

// ---- nodes
#[derive(Clone, PartialEq, Eq, Hash)]
pub(crate) struct GreenChild { pub(crate) rel: TextSize, pub(crate) el: NodeOrToken<GreenNode, GreenToken> }
impl GreenChild {
    pub(crate) fn rel_range(&self) -> TextRange { TextRange::at(self.rel, el_len(&self.el)) }
}
pub(crate) fn el_len(el: &NodeOrToken<GreenNode, GreenToken>) -> TextSize {
    match el { NodeOrToken::Node(n) => n.text_len(), NodeOrToken::Token(t) => t.text_len() }
}
pub struct GreenNodeData { kind: SyntaxKind, len: TextSize, children: Box<[GreenChild]> }
impl PartialEq for GreenNodeData {
    fn eq(&self, o: &Self) -> bool {
        std::ptr::eq(self, o) || (self.kind == o.kind && self.len == o.len && self.children == o.children)
    }
}
impl Eq for GreenNodeData {}
impl std::hash::Hash for GreenNodeData {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.kind.hash(h); self.len.hash(h); self.children.hash(h) }
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct GreenNode { ptr: Arc<GreenNodeData> }
impl GreenNodeData {
    pub fn kind(&self) -> SyntaxKind { self.kind }
    pub fn text_len(&self) -> TextSize { self.len }
    pub fn children(&self) -> Children<'_> { Children { raw: self.children.iter() } }
    pub(crate) fn slice(&self) -> &[GreenChild] { &self.children }
    pub(crate) fn child_at_range(&self, rel_range: TextRange) -> Option<(usize, &GreenChild)> {
        let idx = self.children
            .binary_search_by(|it| it.rel_range().ordering(rel_range))
            .unwrap_or_else(|it| it.saturating_sub(1));
        let child = self.children.get(idx).filter(|it| it.rel_range().contains_range(rel_range))?;
        Some((idx, child))
    }
    #[must_use]
    pub fn replace_child(&self, index: usize, new_child: NodeOrToken<GreenNode, GreenToken>) -> GreenNode {
        let mut r = Some(new_child);
        let children: Vec<_> = self.children.iter().enumerate().map(|(i, c)| if i == index { r.take().unwrap() } else { c.el.clone() }).collect();
        GreenNode::new(self.kind, children)
    }
    #[must_use]
    pub fn insert_child(&self, index: usize, new_child: NodeOrToken<GreenNode, GreenToken>) -> GreenNode {
        self.splice_children(index..index, std::iter::once(new_child))
    }
    #[must_use]
    pub fn remove_child(&self, index: usize) -> GreenNode { self.splice_children(index..=index, std::iter::empty()) }
    #[must_use]
    pub fn splice_children<R, I>(&self, range: R, replace_with: I) -> GreenNode
    where R: ops::RangeBounds<usize>, I: IntoIterator<Item = NodeOrToken<GreenNode, GreenToken>> {
        let mut children: Vec<_> = self.children.iter().map(|c| c.el.clone()).collect();
        children.splice(range, replace_with);
        GreenNode::new(self.kind, children)
    }
}
impl GreenNode {
    pub fn new<I>(kind: SyntaxKind, children: I) -> GreenNode
    where I: IntoIterator<Item = NodeOrToken<GreenNode, GreenToken>> {
        let mut len = TextSize::from(0);
        let children: Box<[GreenChild]> = children.into_iter().map(|el| { let rel = len; len += el_len(&el); GreenChild { rel, el } }).collect();
        GreenNode { ptr: Arc::new(GreenNodeData { kind, len, children }) }
    }
    pub(crate) fn addr(&self) -> usize { Arc::as_ptr(&self.ptr) as usize }
}
impl ops::Deref for GreenNode { type Target = GreenNodeData; fn deref(&self) -> &GreenNodeData { &self.ptr } }
impl Borrow<GreenNodeData> for GreenNode { fn borrow(&self) -> &GreenNodeData { &self.ptr } }
impl ToOwned for GreenNodeData {
    type Owned = GreenNode;
    fn to_owned(&self) -> GreenNode {
        // every GreenNodeData lives inside an Arc
        unsafe { Arc::increment_strong_count(self as *const GreenNodeData); GreenNode { ptr: Arc::from_raw(self) } }
    }
}
impl From<Cow<'_, GreenNodeData>> for GreenNode { fn from(c: Cow<'_, GreenNodeData>) -> Self { c.into_owned() } }
impl From<GreenNode> for NodeOrToken<GreenNode, GreenToken> { fn from(n: GreenNode) -> Self { NodeOrToken::Node(n) } }
impl From<GreenToken> for NodeOrToken<GreenNode, GreenToken> { fn from(n: GreenToken) -> Self { NodeOrToken::Token(n) } }
impl NodeOrToken<GreenNode, GreenToken> {
    pub fn kind(&self) -> SyntaxKind { match self { NodeOrToken::Node(n) => n.kind(), NodeOrToken::Token(t) => t.kind() } }
    pub fn text_len(&self) -> TextSize { el_len(self) }
}
impl<'a> NodeOrToken<&'a GreenNodeData, &'a GreenTokenData> {
    pub fn kind(&self) -> SyntaxKind { match self { NodeOrToken::Node(n) => n.kind(), NodeOrToken::Token(t) => t.kind() } }
    pub fn text_len(&self) -> TextSize { match self { NodeOrToken::Node(n) => n.text_len(), NodeOrToken::Token(t) => t.text_len() } }
    pub fn to_owned(self) -> NodeOrToken<GreenNode, GreenToken> {
        match self { NodeOrToken::Node(n) => NodeOrToken::Node(n.to_owned()), NodeOrToken::Token(t) => NodeOrToken::Token(t.to_owned()) }
    }
}
impl fmt::Debug for GreenNodeData {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("GreenNode").field("kind", &self.kind).field("text_len", &self.len).field("n_children", &self.children.len()).finish() }
}
impl fmt::Debug for GreenNode { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&**self, f) } }
impl fmt::Display for GreenNodeData {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for c in self.children() { match c { NodeOrToken::Node(n) => write!(f, "{}", n)?, NodeOrToken::Token(t) => write!(f, "{}", t)? } }
        Ok(())
    }
}
impl fmt::Display for GreenNode { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&**self, f) } }

#[derive(Clone)]
pub struct Children<'a> { raw: std::slice::Iter<'a, GreenChild> }
fn child_ref(c: &GreenChild) -> NodeOrToken<&GreenNodeData, &GreenTokenData> {
    match &c.el { NodeOrToken::Node(n) => NodeOrToken::Node(&**n), NodeOrToken::Token(t) => NodeOrToken::Token(&**t) }
}
impl<'a> Iterator for Children<'a> {
    type Item = NodeOrToken<&'a GreenNodeData, &'a GreenTokenData>;
    fn next(&mut self) -> Option<Self::Item> { self.raw.next().map(child_ref) }
    fn size_hint(&self) -> (usize, Option<usize>) { self.raw.size_hint() }
}
impl<'a> ExactSizeIterator for Children<'a> {}
impl<'a> DoubleEndedIterator for Children<'a> { fn next_back(&mut self) -> Option<Self::Item> { self.raw.next_back().map(child_ref) } }

#[derive(Default, Debug)]
pub struct NodeCache(());
#[derive(Clone, Copy, Debug)]
pub struct Checkpoint(usize);
#[derive(Debug)]
pub struct GreenNodeBuilder<'cache> {
    parents: Vec<(SyntaxKind, usize)>,
    children: Vec<NodeOrToken<GreenNode, GreenToken>>,
    _c: std::marker::PhantomData<&'cache ()>,
}
impl Default for GreenNodeBuilder<'_> { fn default() -> Self { GreenNodeBuilder { parents: vec![], children: vec![], _c: Default::default() } } }
impl GreenNodeBuilder<'_> {
    pub fn new() -> GreenNodeBuilder<'static> { GreenNodeBuilder::default() }
    pub fn with_cache(_: &mut NodeCache) -> GreenNodeBuilder<'_> { GreenNodeBuilder::default() }
    pub fn token(&mut self, kind: SyntaxKind, text: &str) { self.children.push(NodeOrToken::Token(GreenToken::new(kind, text))) }
    pub fn start_node(&mut self, kind: SyntaxKind) { let n = self.children.len(); self.parents.push((kind, n)) }
    pub fn finish_node(&mut self) {
        let (kind, first) = self.parents.pop().unwrap();
        let children: Vec<_> = self.children.drain(first..).collect();
        self.children.push(NodeOrToken::Node(GreenNode::new(kind, children)));
    }
    pub fn checkpoint(&self) -> Checkpoint { Checkpoint(self.children.len()) }
    pub fn start_node_at(&mut self, checkpoint: Checkpoint, kind: SyntaxKind) {
        let Checkpoint(cp) = checkpoint;
        assert!(cp <= self.children.len(), "checkpoint no longer valid, was finish_node called early?");
        if let Some(&(_, first)) = self.parents.last() { assert!(cp >= first, "checkpoint no longer valid, was an unmatched start_node_at called?"); }
        self.parents.push((kind, cp));
    }
    pub fn finish(mut self) -> GreenNode {
        assert_eq!(self.children.len(), 1);
        match self.children.pop().unwrap() { NodeOrToken::Node(n) => n, NodeOrToken::Token(_) => panic!() }
    }
}

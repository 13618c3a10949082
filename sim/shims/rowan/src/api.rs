use crate::cursor;
use crate::green::{GreenNode, GreenNodeData, GreenToken, GreenTokenData, SyntaxKind};
use crate::utility_types::{Direction, NodeOrToken, TokenAtOffset, WalkEvent};
use crate::SyntaxText;
use std::{borrow::Cow, fmt, iter, marker::PhantomData, ops::Range};
use text_size::{TextRange, TextSize};

pub trait Language: Sized + Copy + fmt::Debug + Eq + Ord + std::hash::Hash {
    type Kind: Sized + Copy + fmt::Debug + Eq + Ord + std::hash::Hash;
    fn kind_from_raw(raw: SyntaxKind) -> Self::Kind;
    fn kind_to_raw(kind: Self::Kind) -> SyntaxKind;
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxNode<L: Language> { raw: cursor::SyntaxNode, _p: PhantomData<L> }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxToken<L: Language> { raw: cursor::SyntaxToken, _p: PhantomData<L> }
pub type SyntaxElement<L> = NodeOrToken<SyntaxNode<L>, SyntaxToken<L>>;

impl<L: Language> From<cursor::SyntaxNode> for SyntaxNode<L> { fn from(raw: cursor::SyntaxNode) -> Self { SyntaxNode { raw, _p: PhantomData } } }
impl<L: Language> From<SyntaxNode<L>> for cursor::SyntaxNode { fn from(n: SyntaxNode<L>) -> Self { n.raw } }
impl<L: Language> From<cursor::SyntaxToken> for SyntaxToken<L> { fn from(raw: cursor::SyntaxToken) -> Self { SyntaxToken { raw, _p: PhantomData } } }
impl<L: Language> From<SyntaxToken<L>> for cursor::SyntaxToken { fn from(n: SyntaxToken<L>) -> Self { n.raw } }
impl<L: Language> From<cursor::SyntaxElement> for SyntaxElement<L> {
    fn from(raw: cursor::SyntaxElement) -> Self { match raw { NodeOrToken::Node(n) => NodeOrToken::Node(n.into()), NodeOrToken::Token(t) => NodeOrToken::Token(t.into()) } }
}
impl<L: Language> From<SyntaxElement<L>> for cursor::SyntaxElement {
    fn from(e: SyntaxElement<L>) -> Self { match e { NodeOrToken::Node(n) => NodeOrToken::Node(n.raw), NodeOrToken::Token(t) => NodeOrToken::Token(t.raw) } }
}
impl<L: Language> From<SyntaxNode<L>> for SyntaxElement<L> { fn from(n: SyntaxNode<L>) -> Self { NodeOrToken::Node(n) } }
impl<L: Language> From<SyntaxToken<L>> for SyntaxElement<L> { fn from(t: SyntaxToken<L>) -> Self { NodeOrToken::Token(t) } }

impl<L: Language> fmt::Debug for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if f.alternate() {
            let mut level = 0;
            for event in self.preorder_with_tokens() {
                match event {
                    WalkEvent::Enter(el) => {
                        for _ in 0..level { write!(f, "  ")?; }
                        match el { NodeOrToken::Node(n) => writeln!(f, "{:?}", n)?, NodeOrToken::Token(t) => writeln!(f, "{:?}", t)? }
                        level += 1;
                    }
                    WalkEvent::Leave(_) => level -= 1,
                }
            }
            assert_eq!(level, 0);
            Ok(())
        } else { write!(f, "{:?}@{:?}", self.kind(), self.text_range()) }
    }
}
impl<L: Language> fmt::Display for SyntaxNode<L> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.raw, f) } }
impl<L: Language> fmt::Debug for SyntaxToken<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}@{:?}", self.kind(), self.text_range())?;
        if self.text().len() < 25 { return write!(f, " {:?}", self.text()); }
        let text = self.text();
        for idx in 21..25 { if text.is_char_boundary(idx) { let text = format!("{} ...", &text[..idx]); return write!(f, " {:?}", text); } }
        unreachable!()
    }
}
impl<L: Language> fmt::Display for SyntaxToken<L> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.raw, f) } }

impl<L: Language> SyntaxNode<L> {
    pub fn new_root(green: GreenNode) -> Self { cursor::SyntaxNode::new_root(green).into() }
    pub fn new_root_mut(green: GreenNode) -> Self { cursor::SyntaxNode::new_root_mut(green).into() }
    pub fn replace_with(&self, r: GreenNode) -> GreenNode { self.raw.replace_with(r) }
    pub fn kind(&self) -> L::Kind { L::kind_from_raw(self.raw.kind()) }
    pub fn text_range(&self) -> TextRange { self.raw.text_range() }
    pub fn index(&self) -> usize { self.raw.index() }
    pub fn text(&self) -> SyntaxText { self.raw.text() }
    pub fn green(&self) -> Cow<'_, GreenNodeData> { self.raw.green() }
    pub fn parent(&self) -> Option<SyntaxNode<L>> { self.raw.parent().map(Self::from) }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> { self.raw.ancestors().map(Self::from) }
    pub fn children(&self) -> SyntaxNodeChildren<L> { SyntaxNodeChildren { raw: self.raw.children(), _p: PhantomData } }
    pub fn children_with_tokens(&self) -> SyntaxElementChildren<L> { SyntaxElementChildren { raw: self.raw.children_with_tokens(), _p: PhantomData } }
    pub fn first_child(&self) -> Option<SyntaxNode<L>> { self.raw.first_child().map(Self::from) }
    pub fn first_child_by_kind(&self, m: &impl Fn(L::Kind) -> bool) -> Option<SyntaxNode<L>> { self.raw.first_child_by_kind(&|k| m(L::kind_from_raw(k))).map(Self::from) }
    pub fn last_child(&self) -> Option<SyntaxNode<L>> { self.raw.last_child().map(Self::from) }
    pub fn first_child_or_token(&self) -> Option<SyntaxElement<L>> { self.raw.first_child_or_token().map(NodeOrToken::from) }
    pub fn first_child_or_token_by_kind(&self, m: &impl Fn(L::Kind) -> bool) -> Option<SyntaxElement<L>> { self.raw.first_child_or_token_by_kind(&|k| m(L::kind_from_raw(k))).map(NodeOrToken::from) }
    pub fn last_child_or_token(&self) -> Option<SyntaxElement<L>> { self.raw.last_child_or_token().map(NodeOrToken::from) }
    pub fn next_sibling(&self) -> Option<SyntaxNode<L>> { self.raw.next_sibling().map(Self::from) }
    pub fn next_sibling_by_kind(&self, m: &impl Fn(L::Kind) -> bool) -> Option<SyntaxNode<L>> { self.raw.next_sibling_by_kind(&|k| m(L::kind_from_raw(k))).map(Self::from) }
    pub fn prev_sibling(&self) -> Option<SyntaxNode<L>> { self.raw.prev_sibling().map(Self::from) }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> { self.raw.next_sibling_or_token().map(NodeOrToken::from) }
    pub fn next_sibling_or_token_by_kind(&self, m: &impl Fn(L::Kind) -> bool) -> Option<SyntaxElement<L>> { self.raw.next_sibling_or_token_by_kind(&|k| m(L::kind_from_raw(k))).map(NodeOrToken::from) }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> { self.raw.prev_sibling_or_token().map(NodeOrToken::from) }
    pub fn first_token(&self) -> Option<SyntaxToken<L>> { self.raw.first_token().map(SyntaxToken::from) }
    pub fn last_token(&self) -> Option<SyntaxToken<L>> { self.raw.last_token().map(SyntaxToken::from) }
    pub fn siblings(&self, d: Direction) -> impl Iterator<Item = SyntaxNode<L>> + use<L> { self.raw.siblings(d).map(SyntaxNode::from) }
    pub fn siblings_with_tokens(&self, d: Direction) -> impl Iterator<Item = SyntaxElement<L>> + use<L> { self.raw.siblings_with_tokens(d).map(SyntaxElement::from) }
    pub fn descendants(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> { self.raw.descendants().map(SyntaxNode::from) }
    pub fn descendants_with_tokens(&self) -> impl Iterator<Item = SyntaxElement<L>> + use<L> { self.raw.descendants_with_tokens().map(NodeOrToken::from) }
    pub fn preorder(&self) -> Preorder<L> { Preorder { raw: self.raw.preorder(), _p: PhantomData } }
    pub fn preorder_with_tokens(&self) -> PreorderWithTokens<L> { PreorderWithTokens { raw: self.raw.preorder_with_tokens(), _p: PhantomData } }
    pub fn token_at_offset(&self, o: TextSize) -> TokenAtOffset<SyntaxToken<L>> { self.raw.token_at_offset(o).map(SyntaxToken::from) }
    pub fn covering_element(&self, r: TextRange) -> SyntaxElement<L> { NodeOrToken::from(self.raw.covering_element(r)) }
    pub fn child_or_token_at_range(&self, r: TextRange) -> Option<SyntaxElement<L>> { self.raw.child_or_token_at_range(r).map(SyntaxElement::from) }
    pub fn clone_subtree(&self) -> SyntaxNode<L> { self.raw.clone_subtree().into() }
    pub fn clone_for_update(&self) -> SyntaxNode<L> { self.raw.clone_for_update().into() }
    pub fn is_mutable(&self) -> bool { self.raw.is_mutable() }
    pub fn detach(&self) { self.raw.detach() }
    pub fn splice_children<I: IntoIterator<Item = SyntaxElement<L>>>(&self, to_delete: Range<usize>, to_insert: I) {
        let v = to_insert.into_iter().map(cursor::SyntaxElement::from).collect();
        self.raw.splice_children(to_delete, v)
    }
}
impl<L: Language> SyntaxToken<L> {
    pub fn replace_with(&self, t: GreenToken) -> GreenNode { self.raw.replace_with(t) }
    pub fn kind(&self) -> L::Kind { L::kind_from_raw(self.raw.kind()) }
    pub fn text_range(&self) -> TextRange { self.raw.text_range() }
    pub fn index(&self) -> usize { self.raw.index() }
    pub fn text(&self) -> &str { self.raw.text() }
    pub fn green(&self) -> &GreenTokenData { self.raw.green() }
    pub fn parent(&self) -> Option<SyntaxNode<L>> { self.raw.parent().map(SyntaxNode::from) }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> { self.raw.ancestors().map(SyntaxNode::from) }
    pub fn parent_ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> { self.raw.ancestors().map(SyntaxNode::from) }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> { self.raw.next_sibling_or_token().map(NodeOrToken::from) }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> { self.raw.prev_sibling_or_token().map(NodeOrToken::from) }
    pub fn siblings_with_tokens(&self, d: Direction) -> impl Iterator<Item = SyntaxElement<L>> + use<L> { self.raw.siblings_with_tokens(d).map(SyntaxElement::from) }
    pub fn next_token(&self) -> Option<SyntaxToken<L>> { self.raw.next_token().map(SyntaxToken::from) }
    pub fn prev_token(&self) -> Option<SyntaxToken<L>> { self.raw.prev_token().map(SyntaxToken::from) }
    pub fn detach(&self) { self.raw.detach() }
}
impl<L: Language> SyntaxElement<L> {
    pub fn text_range(&self) -> TextRange { match self { NodeOrToken::Node(it) => it.text_range(), NodeOrToken::Token(it) => it.text_range() } }
    pub fn index(&self) -> usize { match self { NodeOrToken::Node(it) => it.index(), NodeOrToken::Token(it) => it.index() } }
    pub fn kind(&self) -> L::Kind { match self { NodeOrToken::Node(it) => it.kind(), NodeOrToken::Token(it) => it.kind() } }
    pub fn parent(&self) -> Option<SyntaxNode<L>> { match self { NodeOrToken::Node(it) => it.parent(), NodeOrToken::Token(it) => it.parent() } }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        let first = match self { NodeOrToken::Node(it) => Some(it.clone()), NodeOrToken::Token(it) => it.parent() };
        iter::successors(first, SyntaxNode::parent)
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> { match self { NodeOrToken::Node(it) => it.next_sibling_or_token(), NodeOrToken::Token(it) => it.next_sibling_or_token() } }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> { match self { NodeOrToken::Node(it) => it.prev_sibling_or_token(), NodeOrToken::Token(it) => it.prev_sibling_or_token() } }
    pub fn detach(&self) { match self { NodeOrToken::Node(it) => it.detach(), NodeOrToken::Token(it) => it.detach() } }
}
#[derive(Debug, Clone)]
pub struct SyntaxNodeChildren<L: Language> { raw: cursor::SyntaxNodeChildren, _p: PhantomData<L> }
impl<L: Language> Iterator for SyntaxNodeChildren<L> { type Item = SyntaxNode<L>; fn next(&mut self) -> Option<SyntaxNode<L>> { self.raw.next().map(SyntaxNode::from) } }
impl<L: Language> SyntaxNodeChildren<L> {
    pub fn by_kind(self, m: impl Fn(L::Kind) -> bool) -> impl Iterator<Item = SyntaxNode<L>> { self.filter(move |n| m(n.kind())) }
}
#[derive(Debug, Clone)]
pub struct SyntaxElementChildren<L: Language> { raw: cursor::SyntaxElementChildren, _p: PhantomData<L> }
impl<L: Language> Iterator for SyntaxElementChildren<L> { type Item = SyntaxElement<L>; fn next(&mut self) -> Option<SyntaxElement<L>> { self.raw.next().map(NodeOrToken::from) } }
impl<L: Language> SyntaxElementChildren<L> {
    pub fn by_kind(self, m: impl Fn(L::Kind) -> bool) -> impl Iterator<Item = SyntaxElement<L>> { self.filter(move |n| m(n.kind())) }
}
#[derive(Debug, Clone)]
pub struct Preorder<L: Language> { raw: cursor::Preorder, _p: PhantomData<L> }
impl<L: Language> Preorder<L> { pub fn skip_subtree(&mut self) { self.raw.skip_subtree() } }
impl<L: Language> Iterator for Preorder<L> { type Item = WalkEvent<SyntaxNode<L>>; fn next(&mut self) -> Option<Self::Item> { self.raw.next().map(|it| it.map(SyntaxNode::from)) } }
#[derive(Debug, Clone)]
pub struct PreorderWithTokens<L: Language> { raw: cursor::PreorderWithTokens, _p: PhantomData<L> }
impl<L: Language> PreorderWithTokens<L> { pub fn skip_subtree(&mut self) { self.raw.skip_subtree() } }
impl<L: Language> Iterator for PreorderWithTokens<L> { type Item = WalkEvent<SyntaxElement<L>>; fn next(&mut self) -> Option<Self::Item> { self.raw.next().map(|it| it.map(SyntaxElement::from)) } }

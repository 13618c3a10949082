use crate::green::{GreenNode, GreenNodeData, GreenToken, GreenTokenData, SyntaxKind};
use crate::utility_types::{Direction, NodeOrToken, TokenAtOffset, WalkEvent};
use std::borrow::Cow;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::hash::{Hash, Hasher};
use std::ops::Range;
use std::rc::{Rc, Weak};
use std::{fmt, iter, ops};
use text_size::{TextRange, TextSize};

type GreenEl = NodeOrToken<GreenNode, GreenToken>;
pub(crate) struct NodeData {
    green: UnsafeCell<GreenEl>,
    parent: RefCell<Option<Rc<NodeData>>>,
    index: Cell<usize>,
    offset: Cell<TextSize>,
    mutable: bool,
    live: RefCell<Vec<Weak<NodeData>>>,
}
impl NodeData {
    fn new(parent: Option<Rc<NodeData>>, index: usize, offset: TextSize, green: GreenEl, mutable: bool) -> Rc<NodeData> {
        if mutable {
            if let Some(p) = &parent {
                let mut live = p.live.borrow_mut();
                live.retain(|w| w.strong_count() > 0);
                for w in live.iter() {
                    if let Some(n) = w.upgrade() { if n.index.get() == index { drop(live); return n; } }
                }
            }
        }
        let rc = Rc::new(NodeData {
            green: UnsafeCell::new(green), parent: RefCell::new(parent.clone()), index: Cell::new(index),
            offset: Cell::new(offset), mutable, live: RefCell::new(Vec::new()),
        });
        if mutable { if let Some(p) = parent { p.live.borrow_mut().push(Rc::downgrade(&rc)); } }
        rc
    }
    fn green(&self) -> &GreenEl { unsafe { &*self.green.get() } }
    fn addr(&self) -> usize { match self.green() { NodeOrToken::Node(n) => n.addr(), NodeOrToken::Token(t) => t.addr() } }
    fn kind(&self) -> SyntaxKind { self.green().kind() }
    fn parent_rc(&self) -> Option<Rc<NodeData>> { self.parent.borrow().clone() }
    fn offset(&self) -> TextSize {
        if !self.mutable { return self.offset.get(); }
        let mut res = TextSize::from(0);
        let mut idx = self.index.get();
        let mut parent = self.parent_rc();
        while let Some(p) = parent {
            if let NodeOrToken::Node(g) = p.green() { res += g.slice()[idx].rel; }
            idx = p.index.get();
            parent = p.parent_rc();
        }
        res
    }
    fn text_range(&self) -> TextRange { TextRange::at(self.offset(), self.green().text_len()) }
    /// replaces own green and propagates to the root (mutable trees only)
    fn set_green(&self, new: GreenEl) {
        assert!(self.mutable);
        unsafe { *self.green.get() = new.clone() };
        let mut cur = new;
        let mut idx = self.index.get();
        let mut parent = self.parent_rc();
        while let Some(p) = parent {
            let g = match p.green() { NodeOrToken::Node(g) => g.replace_child(idx, cur), _ => unreachable!() };
            unsafe { *p.green.get() = NodeOrToken::Node(g.clone()) };
            cur = NodeOrToken::Node(g);
            idx = p.index.get();
            parent = p.parent_rc();
        }
    }
    fn shift_live(&self, from: usize, delta: isize) {
        let mut live = self.live.borrow_mut();
        live.retain(|w| w.strong_count() > 0);
        for w in live.iter() {
            if let Some(n) = w.upgrade() { let i = n.index.get(); if i >= from { n.index.set((i as isize + delta) as usize); } }
        }
    }
    fn detach(self: &Rc<Self>) {
        assert!(self.mutable, "immutable tree");
        let parent = match self.parent.borrow_mut().take() { Some(p) => p, None => return };
        let idx = self.index.get();
        parent.live.borrow_mut().retain(|w| w.upgrade().map_or(false, |n| !Rc::ptr_eq(&n, self)));
        let g = match parent.green() { NodeOrToken::Node(g) => g.remove_child(idx), _ => unreachable!() };
        parent.shift_live(idx + 1, -1);
        parent.set_green(NodeOrToken::Node(g));
        self.index.set(0);
        self.offset.set(0.into());
    }
    fn attach_child(self: &Rc<Self>, index: usize, child: &Rc<NodeData>) {
        assert!(self.mutable && child.mutable && child.parent.borrow().is_none());
        let g = match self.green() { NodeOrToken::Node(g) => g.insert_child(index, child.green().clone()), _ => unreachable!() };
        self.shift_live(index, 1);
        child.index.set(index);
        *child.parent.borrow_mut() = Some(self.clone());
        self.live.borrow_mut().push(Rc::downgrade(child));
        self.set_green(NodeOrToken::Node(g));
    }
    fn clone_for_update(&self) -> Rc<NodeData> {
        assert!(!self.mutable, "immutable tree");
        let parent = self.parent_rc().map(|p| p.clone_for_update());
        NodeData::new(parent, self.index.get(), self.offset.get(), self.green().clone(), true)
    }
}

#[derive(Clone)]
pub struct SyntaxNode { d: Rc<NodeData> }
#[derive(Clone)]
pub struct SyntaxToken { d: Rc<NodeData> }
pub type SyntaxElement = NodeOrToken<SyntaxNode, SyntaxToken>;
impl From<SyntaxNode> for SyntaxElement { fn from(n: SyntaxNode) -> Self { NodeOrToken::Node(n) } }
impl From<SyntaxToken> for SyntaxElement { fn from(n: SyntaxToken) -> Self { NodeOrToken::Token(n) } }

macro_rules! key_impls { ($T:ident) => {
    impl PartialEq for $T {
        fn eq(&self, o: &$T) -> bool { Rc::ptr_eq(&self.d, &o.d) || (self.d.addr() == o.d.addr() && self.d.offset() == o.d.offset()) }
    }
    impl Eq for $T {}
    impl Hash for $T {
        // kind + range instead of the address: deterministic and coarser than Eq
        fn hash<H: Hasher>(&self, h: &mut H) { self.d.kind().0.hash(h); self.d.text_range().hash(h); }
    }
} }
key_impls!(SyntaxNode);
key_impls!(SyntaxToken);

fn to_el(d: Rc<NodeData>) -> SyntaxElement {
    let is_node = matches!(d.green(), NodeOrToken::Node(_));
    if is_node { NodeOrToken::Node(SyntaxNode { d }) } else { NodeOrToken::Token(SyntaxToken { d }) }
}
fn nth_child(p: &Rc<NodeData>, i: usize) -> Option<SyntaxElement> {
    let g = match p.green() { NodeOrToken::Node(g) => g, _ => return None };
    let c = g.slice().get(i)?;
    let off = if p.mutable { 0.into() } else { p.offset.get() + c.rel };
    Some(to_el(NodeData::new(Some(p.clone()), i, off, c.el.clone(), p.mutable)))
}
fn nth_child_if_node(p: &Rc<NodeData>, i: usize) -> Option<SyntaxNode> {
    let g = match p.green() { NodeOrToken::Node(g) => g, _ => return None };
    if matches!(g.slice().get(i)?.el, NodeOrToken::Node(_)) { nth_child(p, i).and_then(|e| e.into_node()) } else { None }
}
fn nchildren(p: &Rc<NodeData>) -> usize { match p.green() { NodeOrToken::Node(g) => g.slice().len(), _ => 0 } }

impl SyntaxNode {
    pub fn new_root(green: GreenNode) -> SyntaxNode { SyntaxNode { d: NodeData::new(None, 0, 0.into(), NodeOrToken::Node(green), false) } }
    pub fn new_root_mut(green: GreenNode) -> SyntaxNode { SyntaxNode { d: NodeData::new(None, 0, 0.into(), NodeOrToken::Node(green), true) } }
    pub fn clone_for_update(&self) -> SyntaxNode { SyntaxNode { d: self.d.clone_for_update() } }
    pub fn clone_subtree(&self) -> SyntaxNode { SyntaxNode::new_root(self.green_node().clone()) }
    pub fn is_mutable(&self) -> bool { self.d.mutable }
    fn green_node(&self) -> &GreenNode { match self.d.green() { NodeOrToken::Node(g) => g, _ => unreachable!() } }
    pub fn green(&self) -> Cow<'_, GreenNodeData> {
        if self.d.mutable { Cow::Owned(self.green_node().clone()) } else { Cow::Borrowed(&**self.green_node()) }
    }
    pub fn kind(&self) -> SyntaxKind { self.d.kind() }
    pub fn text_range(&self) -> TextRange { self.d.text_range() }
    pub fn index(&self) -> usize { self.d.index.get() }
    pub fn text(&self) -> SyntaxText { SyntaxText::new(self.clone()) }
    pub fn parent(&self) -> Option<SyntaxNode> { self.d.parent_rc().map(|d| SyntaxNode { d }) }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode> + use<> { iter::successors(Some(self.clone()), SyntaxNode::parent) }
    pub fn children(&self) -> SyntaxNodeChildren { SyntaxNodeChildren { next: self.first_child() } }
    pub fn children_with_tokens(&self) -> SyntaxElementChildren { SyntaxElementChildren { next: self.first_child_or_token() } }
    pub fn first_child(&self) -> Option<SyntaxNode> { (0..nchildren(&self.d)).find_map(|i| nth_child_if_node(&self.d, i)) }
    pub fn last_child(&self) -> Option<SyntaxNode> { (0..nchildren(&self.d)).rev().find_map(|i| nth_child_if_node(&self.d, i)) }
    pub fn first_child_or_token(&self) -> Option<SyntaxElement> { nth_child(&self.d, 0) }
    pub fn last_child_or_token(&self) -> Option<SyntaxElement> { nchildren(&self.d).checked_sub(1).and_then(|i| nth_child(&self.d, i)) }
    pub fn first_child_by_kind(&self, m: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> { self.children().find(|c| m(c.kind())) }
    pub fn first_child_or_token_by_kind(&self, m: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxElement> { self.children_with_tokens().find(|c| m(c.kind())) }
    pub fn next_sibling(&self) -> Option<SyntaxNode> { let p = self.d.parent_rc()?; (self.index() + 1..nchildren(&p)).find_map(|i| nth_child_if_node(&p, i)) }
    pub fn prev_sibling(&self) -> Option<SyntaxNode> { let p = self.d.parent_rc()?; (0..self.index()).rev().find_map(|i| nth_child_if_node(&p, i)) }
    pub fn next_sibling_by_kind(&self, m: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> { iter::successors(self.next_sibling(), |n| n.next_sibling()).find(|c| m(c.kind())) }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement> { nth_child(&self.d.parent_rc()?, self.index() + 1) }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement> { nth_child(&self.d.parent_rc()?, self.index().checked_sub(1)?) }
    pub fn next_sibling_or_token_by_kind(&self, m: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxElement> { iter::successors(self.next_sibling_or_token(), |n| n.next_sibling_or_token()).find(|c| m(c.kind())) }
    pub fn first_token(&self) -> Option<SyntaxToken> { self.first_child_or_token()?.first_token() }
    pub fn last_token(&self) -> Option<SyntaxToken> { self.last_child_or_token()?.last_token() }
    pub fn siblings(&self, d: Direction) -> impl Iterator<Item = SyntaxNode> + use<> {
        iter::successors(Some(self.clone()), move |n| match d { Direction::Next => n.next_sibling(), Direction::Prev => n.prev_sibling() })
    }
    pub fn siblings_with_tokens(&self, d: Direction) -> impl Iterator<Item = SyntaxElement> + use<> {
        let me: SyntaxElement = self.clone().into();
        iter::successors(Some(me), move |n| match d { Direction::Next => n.next_sibling_or_token(), Direction::Prev => n.prev_sibling_or_token() })
    }
    pub fn descendants(&self) -> impl Iterator<Item = SyntaxNode> + use<> { self.preorder().filter_map(|e| match e { WalkEvent::Enter(n) => Some(n), _ => None }) }
    pub fn descendants_with_tokens(&self) -> impl Iterator<Item = SyntaxElement> + use<> { self.preorder_with_tokens().filter_map(|e| match e { WalkEvent::Enter(n) => Some(n), _ => None }) }
    pub fn preorder(&self) -> Preorder { Preorder { start: self.clone(), next: Some(WalkEvent::Enter(self.clone())), skip_subtree: false } }
    pub fn preorder_with_tokens(&self) -> PreorderWithTokens { PreorderWithTokens { start: self.clone().into(), next: Some(WalkEvent::Enter(self.clone().into())), skip_subtree: false } }
    pub fn token_at_offset(&self, offset: TextSize) -> TokenAtOffset<SyntaxToken> {
        let range = self.text_range();
        assert!(range.start() <= offset && offset <= range.end(), "Bad offset: range {:?} offset {:?}", range, offset);
        if range.is_empty() { return TokenAtOffset::None; }
        let mut children = self.children_with_tokens().filter(|c| { let r = c.text_range(); !r.is_empty() && r.start() <= offset && offset <= r.end() });
        let left = children.next().unwrap();
        let right = children.next();
        assert!(children.next().is_none());
        if let Some(right) = right {
            match (left.token_at_offset(offset), right.token_at_offset(offset)) {
                (TokenAtOffset::Single(l), TokenAtOffset::Single(r)) => TokenAtOffset::Between(l, r),
                _ => unreachable!(),
            }
        } else { left.token_at_offset(offset) }
    }
    pub fn covering_element(&self, range: TextRange) -> SyntaxElement {
        let mut res: SyntaxElement = self.clone().into();
        loop {
            assert!(res.text_range().contains_range(range), "Bad range: node range {:?}, range {:?}", res.text_range(), range);
            res = match &res {
                NodeOrToken::Token(_) => return res,
                NodeOrToken::Node(n) => match n.child_or_token_at_range(range) { Some(it) => it, None => return res },
            };
        }
    }
    pub fn child_or_token_at_range(&self, range: TextRange) -> Option<SyntaxElement> {
        let rel = range.checked_sub(self.d.offset())?;
        let (i, _) = self.green_node().child_at_range(rel)?;
        nth_child(&self.d, i)
    }
    pub fn replace_with(&self, replacement: GreenNode) -> GreenNode {
        assert_eq!(self.kind(), replacement.kind());
        match self.parent() {
            None => replacement,
            Some(p) => { let g = p.green_node().replace_child(self.index(), replacement.into()); p.replace_with(g) }
        }
    }
    pub fn splice_children(&self, to_delete: Range<usize>, to_insert: Vec<SyntaxElement>) {
        assert!(self.d.mutable, "immutable tree: {}", self);
        let dels: Vec<SyntaxElement> = to_delete.clone().map(|i| nth_child(&self.d, i)).map(|e| e.expect("splice_children: bad range")).collect();
        for e in dels { e.detach(); }
        let mut index = to_delete.start;
        for e in to_insert { e.detach(); let d = match &e { NodeOrToken::Node(n) => &n.d, NodeOrToken::Token(t) => &t.d }; self.d.attach_child(index, d); index += 1; }
    }
    pub fn detach(&self) { self.d.detach() }
}
impl SyntaxToken {
    pub fn clone_for_update(&self) -> SyntaxToken { SyntaxToken { d: self.d.clone_for_update() } }
    pub fn green(&self) -> &GreenTokenData { match self.d.green() { NodeOrToken::Token(t) => &**t, _ => unreachable!() } }
    pub fn kind(&self) -> SyntaxKind { self.d.kind() }
    pub fn text_range(&self) -> TextRange { self.d.text_range() }
    pub fn index(&self) -> usize { self.d.index.get() }
    pub fn text(&self) -> &str { match self.d.green() { NodeOrToken::Token(t) => t.text(), _ => unreachable!() } }
    pub fn parent(&self) -> Option<SyntaxNode> { self.d.parent_rc().map(|d| SyntaxNode { d }) }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode> + use<> { iter::successors(self.parent(), SyntaxNode::parent) }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement> { nth_child(&self.d.parent_rc()?, self.index() + 1) }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement> { nth_child(&self.d.parent_rc()?, self.index().checked_sub(1)?) }
    pub fn siblings_with_tokens(&self, d: Direction) -> impl Iterator<Item = SyntaxElement> + use<> {
        let me: SyntaxElement = self.clone().into();
        iter::successors(Some(me), move |n| match d { Direction::Next => n.next_sibling_or_token(), Direction::Prev => n.prev_sibling_or_token() })
    }
    pub fn next_token(&self) -> Option<SyntaxToken> {
        match self.next_sibling_or_token() {
            Some(e) => e.first_token(),
            None => self.ancestors().find_map(|it| it.next_sibling_or_token()).and_then(|e| e.first_token()),
        }
    }
    pub fn prev_token(&self) -> Option<SyntaxToken> {
        match self.prev_sibling_or_token() {
            Some(e) => e.last_token(),
            None => self.ancestors().find_map(|it| it.prev_sibling_or_token()).and_then(|e| e.last_token()),
        }
    }
    pub fn replace_with(&self, replacement: GreenToken) -> GreenNode {
        assert_eq!(self.kind(), replacement.kind());
        let p = self.parent().unwrap();
        let g = p.green_node().replace_child(self.index(), replacement.into());
        p.replace_with(g)
    }
    pub fn detach(&self) { self.d.detach() }
}
impl SyntaxElement {
    pub fn text_range(&self) -> TextRange { match self { NodeOrToken::Node(it) => it.text_range(), NodeOrToken::Token(it) => it.text_range() } }
    pub fn index(&self) -> usize { match self { NodeOrToken::Node(it) => it.index(), NodeOrToken::Token(it) => it.index() } }
    pub fn kind(&self) -> SyntaxKind { match self { NodeOrToken::Node(it) => it.kind(), NodeOrToken::Token(it) => it.kind() } }
    pub fn parent(&self) -> Option<SyntaxNode> { match self { NodeOrToken::Node(it) => it.parent(), NodeOrToken::Token(it) => it.parent() } }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode> + use<> {
        let first = match self { NodeOrToken::Node(it) => Some(it.clone()), NodeOrToken::Token(it) => it.parent() };
        iter::successors(first, SyntaxNode::parent)
    }
    pub fn first_token(&self) -> Option<SyntaxToken> { match self { NodeOrToken::Node(it) => it.first_token(), NodeOrToken::Token(it) => Some(it.clone()) } }
    pub fn last_token(&self) -> Option<SyntaxToken> { match self { NodeOrToken::Node(it) => it.last_token(), NodeOrToken::Token(it) => Some(it.clone()) } }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement> { match self { NodeOrToken::Node(it) => it.next_sibling_or_token(), NodeOrToken::Token(it) => it.next_sibling_or_token() } }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement> { match self { NodeOrToken::Node(it) => it.prev_sibling_or_token(), NodeOrToken::Token(it) => it.prev_sibling_or_token() } }
    fn token_at_offset(&self, offset: TextSize) -> TokenAtOffset<SyntaxToken> {
        match self { NodeOrToken::Token(t) => TokenAtOffset::Single(t.clone()), NodeOrToken::Node(n) => n.token_at_offset(offset) }
    }
    pub fn detach(&self) { match self { NodeOrToken::Node(it) => it.detach(), NodeOrToken::Token(it) => it.detach() } }
}
impl fmt::Debug for SyntaxNode { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("SyntaxNode").field("kind", &self.kind()).field("text_range", &self.text_range()).finish() } }
impl fmt::Debug for SyntaxToken { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("SyntaxToken").field("kind", &self.kind()).field("text_range", &self.text_range()).finish() } }
impl fmt::Display for SyntaxNode { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&**self.green_node(), f) } }
impl fmt::Display for SyntaxToken { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.text()) } }

#[derive(Clone, Debug)]
pub struct SyntaxNodeChildren { next: Option<SyntaxNode> }
impl Iterator for SyntaxNodeChildren {
    type Item = SyntaxNode;
    fn next(&mut self) -> Option<SyntaxNode> { self.next.take().map(|n| { self.next = n.next_sibling(); n }) }
}
#[derive(Clone, Debug)]
pub struct SyntaxElementChildren { next: Option<SyntaxElement> }
impl Iterator for SyntaxElementChildren {
    type Item = SyntaxElement;
    fn next(&mut self) -> Option<SyntaxElement> { self.next.take().map(|n| { self.next = n.next_sibling_or_token(); n }) }
}
#[derive(Debug, Clone)]
pub struct Preorder { start: SyntaxNode, next: Option<WalkEvent<SyntaxNode>>, skip_subtree: bool }
impl Preorder {
    pub fn skip_subtree(&mut self) { self.skip_subtree = true; }
    fn do_skip(&mut self) { self.next = self.next.take().map(|n| match n { WalkEvent::Enter(f) => WalkEvent::Leave(f.parent().unwrap()), WalkEvent::Leave(p) => WalkEvent::Leave(p) }) }
}
impl Iterator for Preorder {
    type Item = WalkEvent<SyntaxNode>;
    fn next(&mut self) -> Option<WalkEvent<SyntaxNode>> {
        if self.skip_subtree { self.do_skip(); self.skip_subtree = false; }
        let next = self.next.take();
        self.next = next.as_ref().and_then(|n| Some(match n {
            WalkEvent::Enter(node) => match node.first_child() { Some(c) => WalkEvent::Enter(c), None => WalkEvent::Leave(node.clone()) },
            WalkEvent::Leave(node) => {
                if Rc::ptr_eq(&node.d, &self.start.d) || node == &self.start { return None; }
                match node.next_sibling() { Some(s) => WalkEvent::Enter(s), None => WalkEvent::Leave(node.parent()?) }
            }
        }));
        next
    }
}
#[derive(Debug, Clone)]
pub struct PreorderWithTokens { start: SyntaxElement, next: Option<WalkEvent<SyntaxElement>>, skip_subtree: bool }
impl PreorderWithTokens {
    pub fn skip_subtree(&mut self) { self.skip_subtree = true; }
    fn do_skip(&mut self) { self.next = self.next.take().map(|n| match n { WalkEvent::Enter(f) => WalkEvent::Leave(f.parent().unwrap().into()), WalkEvent::Leave(p) => WalkEvent::Leave(p) }) }
}
impl Iterator for PreorderWithTokens {
    type Item = WalkEvent<SyntaxElement>;
    fn next(&mut self) -> Option<WalkEvent<SyntaxElement>> {
        if self.skip_subtree { self.do_skip(); self.skip_subtree = false; }
        let next = self.next.take();
        self.next = next.as_ref().and_then(|n| Some(match n {
            WalkEvent::Enter(el) => match el {
                NodeOrToken::Node(node) => match node.first_child_or_token() { Some(c) => WalkEvent::Enter(c), None => WalkEvent::Leave(node.clone().into()) },
                NodeOrToken::Token(t) => WalkEvent::Leave(t.clone().into()),
            },
            WalkEvent::Leave(el) if el == &self.start => return None,
            WalkEvent::Leave(el) => match el.next_sibling_or_token() { Some(s) => WalkEvent::Enter(s), None => WalkEvent::Leave(el.parent()?.into()) },
        }));
        next
    }
}

// ---- SyntaxText
#[derive(Clone)]
pub struct SyntaxText { node: SyntaxNode, range: TextRange }
impl SyntaxText {
    pub(crate) fn new(node: SyntaxNode) -> SyntaxText { let range = node.text_range(); SyntaxText { node, range } }
    pub fn len(&self) -> TextSize { self.range.len() }
    pub fn is_empty(&self) -> bool { self.range.is_empty() }
    pub fn contains_char(&self, c: char) -> bool { self.try_for_each_chunk(|chunk| if chunk.contains(c) { Err(()) } else { Ok(()) }).is_err() }
    pub fn find_char(&self, c: char) -> Option<TextSize> {
        let mut acc: TextSize = 0.into();
        let res = self.try_for_each_chunk(|chunk| {
            if let Some(pos) = chunk.find(c) { let pos: TextSize = (pos as u32).into(); return Err(acc + pos); }
            acc += TextSize::of(chunk);
            Ok(())
        });
        match res { Ok(()) => None, Err(e) => Some(e) }
    }
    pub fn char_at(&self, offset: TextSize) -> Option<char> {
        let mut start: TextSize = 0.into();
        let res = self.try_for_each_chunk(|chunk| {
            let end = start + TextSize::of(chunk);
            if start <= offset && offset < end { let off: usize = u32::from(offset - start) as usize; return Err(chunk[off..].chars().next().unwrap()); }
            start = end;
            Ok(())
        });
        match res { Ok(()) => None, Err(c) => Some(c) }
    }
    pub fn slice<R: private::SyntaxTextRange>(&self, range: R) -> SyntaxText {
        let start = range.start().unwrap_or_default();
        let end = range.end().unwrap_or(self.len());
        assert!(start <= end);
        let len = end - start;
        let start = self.range.start() + start;
        let end = start + len;
        assert!(start <= end, "invalid slice, range: {:?}, slice: {:?}", self.range, (range.start(), range.end()));
        let range = TextRange::new(start, end);
        assert!(self.range.contains_range(range), "invalid slice, range: {:?}, slice: {:?}", self.range, range);
        SyntaxText { node: self.node.clone(), range }
    }
    pub fn try_fold_chunks<T, F, E>(&self, init: T, mut f: F) -> Result<T, E> where F: FnMut(T, &str) -> Result<T, E> {
        let mut acc = init;
        for el in self.node.descendants_with_tokens() {
            if let NodeOrToken::Token(token) = el {
                let tr = token.text_range();
                if let Some(range) = self.range.intersect(tr) {
                    if range.is_empty() && !tr.is_empty() { continue; }
                    acc = f(acc, &token.text()[range - tr.start()])?;
                }
            }
        }
        Ok(acc)
    }
    pub fn try_for_each_chunk<F: FnMut(&str) -> Result<(), E>, E>(&self, mut f: F) -> Result<(), E> { self.try_fold_chunks((), move |(), chunk| f(chunk)) }
    pub fn for_each_chunk<F: FnMut(&str)>(&self, mut f: F) { let _ = self.try_for_each_chunk(|c| { f(c); Ok::<(), std::convert::Infallible>(()) }); }
}
impl fmt::Debug for SyntaxText { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.to_string(), f) } }
impl fmt::Display for SyntaxText { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.try_for_each_chunk(|c| fmt::Display::fmt(c, f)) } }
impl From<SyntaxText> for String { fn from(t: SyntaxText) -> String { t.to_string() } }
impl PartialEq<str> for SyntaxText {
    fn eq(&self, mut rhs: &str) -> bool {
        self.try_for_each_chunk(|chunk| { if !rhs.starts_with(chunk) { return Err(()); } rhs = &rhs[chunk.len()..]; Ok(()) }).is_ok() && rhs.is_empty()
    }
}
impl PartialEq<SyntaxText> for str { fn eq(&self, r: &SyntaxText) -> bool { r == self } }
impl PartialEq<&'_ str> for SyntaxText { fn eq(&self, r: &&str) -> bool { self == *r } }
impl PartialEq<SyntaxText> for &'_ str { fn eq(&self, r: &SyntaxText) -> bool { r == self } }
impl PartialEq<String> for SyntaxText { fn eq(&self, r: &String) -> bool { self == r.as_str() } }
impl PartialEq for SyntaxText { fn eq(&self, o: &SyntaxText) -> bool { self.range.len() == o.range.len() && self.to_string() == o.to_string() } }
impl Eq for SyntaxText {}
mod private {
    use std::ops;
    use text_size::{TextRange, TextSize};
    pub trait SyntaxTextRange { fn start(&self) -> Option<TextSize>; fn end(&self) -> Option<TextSize>; }
    impl SyntaxTextRange for TextRange { fn start(&self) -> Option<TextSize> { Some(TextRange::start(*self)) } fn end(&self) -> Option<TextSize> { Some(TextRange::end(*self)) } }
    impl SyntaxTextRange for ops::Range<TextSize> { fn start(&self) -> Option<TextSize> { Some(self.start) } fn end(&self) -> Option<TextSize> { Some(self.end) } }
    impl SyntaxTextRange for ops::RangeFrom<TextSize> { fn start(&self) -> Option<TextSize> { Some(self.start) } fn end(&self) -> Option<TextSize> { None } }
    impl SyntaxTextRange for ops::RangeTo<TextSize> { fn start(&self) -> Option<TextSize> { None } fn end(&self) -> Option<TextSize> { Some(self.end) } }
    impl SyntaxTextRange for ops::RangeFull { fn start(&self) -> Option<TextSize> { None } fn end(&self) -> Option<TextSize> { None } }
}
#[allow(unused)]
fn _u(_: &dyn ops::Deref<Target = ()>) {}

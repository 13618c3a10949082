use std::fmt;
use text_size::{TextRange, TextSize};
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum NodeOrToken<N, T> { Node(N), Token(T) }
impl<N, T> NodeOrToken<N, T> {
    pub fn into_node(self) -> Option<N> { match self { NodeOrToken::Node(n) => Some(n), NodeOrToken::Token(_) => None } }
    pub fn into_token(self) -> Option<T> { match self { NodeOrToken::Node(_) => None, NodeOrToken::Token(t) => Some(t) } }
    pub fn as_node(&self) -> Option<&N> { match self { NodeOrToken::Node(n) => Some(n), NodeOrToken::Token(_) => None } }
    pub fn as_token(&self) -> Option<&T> { match self { NodeOrToken::Node(_) => None, NodeOrToken::Token(t) => Some(t) } }
}
impl<N: fmt::Display, T: fmt::Display> fmt::Display for NodeOrToken<N, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self { NodeOrToken::Node(n) => fmt::Display::fmt(n, f), NodeOrToken::Token(t) => fmt::Display::fmt(t, f) }
    }
}
#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
pub enum Direction { Next, Prev }
#[derive(Debug, Copy, Clone)]
pub enum WalkEvent<T> { Enter(T), Leave(T) }
impl<T> WalkEvent<T> {
    pub fn map<F: FnOnce(T) -> U, U>(self, f: F) -> WalkEvent<U> {
        match self { WalkEvent::Enter(it) => WalkEvent::Enter(f(it)), WalkEvent::Leave(it) => WalkEvent::Leave(f(it)) }
    }
}
#[derive(Clone, Debug)]
pub enum TokenAtOffset<T> { None, Single(T), Between(T, T) }
impl<T> TokenAtOffset<T> {
    pub fn map<F: Fn(T) -> U, U>(self, f: F) -> TokenAtOffset<U> {
        match self {
            TokenAtOffset::None => TokenAtOffset::None,
            TokenAtOffset::Single(it) => TokenAtOffset::Single(f(it)),
            TokenAtOffset::Between(l, r) => TokenAtOffset::Between(f(l), f(r)),
        }
    }
    pub fn right_biased(self) -> Option<T> {
        match self { TokenAtOffset::None => None, TokenAtOffset::Single(n) => Some(n), TokenAtOffset::Between(_, r) => Some(r) }
    }
    pub fn left_biased(self) -> Option<T> {
        match self { TokenAtOffset::None => None, TokenAtOffset::Single(n) => Some(n), TokenAtOffset::Between(l, _) => Some(l) }
    }
}
impl<T> Iterator for TokenAtOffset<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match std::mem::replace(self, TokenAtOffset::None) {
            TokenAtOffset::None => None,
            TokenAtOffset::Single(n) => { *self = TokenAtOffset::None; Some(n) }
            TokenAtOffset::Between(l, r) => { *self = TokenAtOffset::Single(r); Some(l) }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self { TokenAtOffset::None => (0, Some(0)), TokenAtOffset::Single(_) => (1, Some(1)), TokenAtOffset::Between(_, _) => (2, Some(2)) }
    }
}
impl<T> ExactSizeIterator for TokenAtOffset<T> {}
#[allow(dead_code)]
pub(crate) fn _unused(_: TextRange, _: TextSize) {}

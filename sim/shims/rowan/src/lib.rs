//! Offline stand-in for `rowan` 0.15 (API-compatible re-implementation).
//!
//! Differences which matter to the simulation: hashing of syntax nodes does not use addresses, so
//! hash-map iteration orders do not depend on the allocator.
#![allow(clippy::all)]
pub mod api;
pub mod ast;
pub mod cursor;
mod green;
mod utility_types;

pub use crate::{
    api::{
        Language, SyntaxElement, SyntaxElementChildren, SyntaxNode, SyntaxNodeChildren, SyntaxToken,
    },
    cursor::SyntaxText,
    green::{
        Checkpoint, Children, GreenNode, GreenNodeBuilder, GreenNodeData, GreenToken, GreenTokenData,
        NodeCache, SyntaxKind,
    },
    utility_types::{Direction, NodeOrToken, TokenAtOffset, WalkEvent},
};
pub use text_size::{TextLen, TextRange, TextSize};

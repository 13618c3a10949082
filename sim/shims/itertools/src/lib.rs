pub use inner::*;

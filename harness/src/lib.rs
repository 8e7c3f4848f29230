mod all;
pub use all::*;

//! stand-in: the real crate is not in the offline registry

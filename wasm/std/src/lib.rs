//! Nothing

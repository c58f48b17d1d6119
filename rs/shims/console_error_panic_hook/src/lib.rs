//! Stand-in.
pub fn set_once() {}

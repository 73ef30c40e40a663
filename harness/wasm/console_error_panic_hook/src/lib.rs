//! Stands in for console_error_panic_hook.
pub fn set_once() {}

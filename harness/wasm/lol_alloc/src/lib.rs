//! Stands in for lol_alloc, which is only used for wasm32.

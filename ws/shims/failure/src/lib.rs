//! Only the re-export of `core` that witnet_wallet uses.
pub use core as _core;

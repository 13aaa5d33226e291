pub use derive_more_display::Display;

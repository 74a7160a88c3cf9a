//! An independent reader of printed expressions and independent elementary functions.
pub mod reference;
pub mod text;

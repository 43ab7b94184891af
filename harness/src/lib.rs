pub mod fw;
pub mod idx;
pub mod dump;

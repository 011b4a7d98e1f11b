pub use crate::pretty::{canon, first_diff};

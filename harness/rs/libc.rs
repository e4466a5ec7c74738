#![allow(non_camel_case_types)]
pub use std::os::raw::{c_char, c_int, c_void};

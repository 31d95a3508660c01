//! kstd for the JS natives: memory copies are recorded.
pub use crate::kstd::*;
pub mod ptr {
    pub use ::std::ptr::*;
    pub use crate::model::vbytes::vp_copy as copy_nonoverlapping;
    pub use crate::model::vbytes::vp_copy as copy;
}
pub mod vec { pub use crate::model::vbytes::Vec; }
pub mod string { pub use crate::model::string::String; }

pub mod kernel;
pub mod os;
pub mod sys;
pub use sys::set_env;

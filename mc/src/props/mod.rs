pub mod fields;
pub mod json;
pub mod text;
pub mod wire;
pub mod descr;
pub mod options;
pub mod schemas;
pub mod robust;
pub mod global;
pub mod reflect;

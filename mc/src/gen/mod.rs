//! Static types generated by prost-build from mc/protos (committed; regenerated with mc/protos/README).
#![allow(dead_code, clippy::all)]
use prost_reflect::DescriptorPool;
use std::sync::LazyLock;
pub static POOL: LazyLock<DescriptorPool> =
    LazyLock::new(|| DescriptorPool::decode(crate::schema::ALL_BIN).expect("pool"));
pub mod t2 {
    include!("t2.rs");
}
pub mod t3 {
    include!("t3.rs");
}

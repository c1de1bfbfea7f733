#![allow(dead_code)]
#[path = "../../mpt/src/model.rs"]
pub mod model;
pub mod block;
pub mod c01;
pub mod c02;
pub mod e01;
pub mod e02;
pub mod e03;
pub mod e04;
pub mod gen;
pub mod public_memory;
pub mod refcrypto;
pub mod refevm;
pub mod scenario;
pub mod stark;

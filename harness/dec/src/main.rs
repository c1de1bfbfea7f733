mod blk;
#[allow(unused)]
#[path = "../../smt/src/model.rs"]
mod smt_model;
mod tree;
mod type2;
mod w01;
mod w02;

fn main() {
    vh_core::main_with(&[("W01", w01::run), ("W02", w02::run)])
}

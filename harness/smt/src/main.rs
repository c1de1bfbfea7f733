mod model;
mod s01;
mod s02;
mod s03;
fn main() {
    vh_core::main_with(&[("S01", s01::run), ("S02", s02::run), ("S03", s03::run)])
}

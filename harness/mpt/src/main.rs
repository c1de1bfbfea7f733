mod model;
mod m01;
mod m02;
mod m03;
mod m04;
mod m05;
mod m06;

fn main() {
    vh_core::main_with(&[
        ("M01", m01::run),
        ("M02", m02::run),
        ("M03", m03::run),
        ("M04", m04::run),
        ("M05", m05::run),
        ("M06", m06::run),
    ])
}

mod common;
mod r01;
mod v01;

fn main() {
    // These checks are slow.
    if std::env::var_os("VH_DEADLINE_S").is_none() {
        let t = std::env::var("VERIF_TIER").is_ok_and(|x| x == "thorough") || std::env::args().any(|x| x == "thorough");
        std::env::set_var("VH_DEADLINE_S", if t { "5000" } else { "600" });
    }
    vh_core::main_with(&[("R01", r01::run), ("V01", v01::run)])
}

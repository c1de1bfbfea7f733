use vh_evm::*;

fn main() {
    vh_core::main_with(&[("C01", c01::run), ("C02", c02::run), ("E01", e01::run), ("E02", e02::run), ("E03", e03::run), ("E04", e04::run)])
}

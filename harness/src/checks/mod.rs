mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
pub mod c10;
mod c11;
mod c12;
pub mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
pub static ALL: &[&crate::mon::Check] = &[
    &c01::CHECK, &c02::CHECK, &c03::CHECK, &c04::CHECK, &c05::CHECK, &c06::CHECK, &c07::CHECK, &c08::CHECK, &c09::CHECK, &c10::CHECK, &c11::CHECK, &c12::CHECK, &c13::CHECK, &c14::CHECK, &c15::CHECK, &c16::CHECK, &c17::CHECK, &c18::CHECK, &c19::CHECK,
    &c20::CHECK, &c21::CHECK, &c22::CHECK, &c23::CHECK,
];

pub use c08::cfg as c08_cfg;

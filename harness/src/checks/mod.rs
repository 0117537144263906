//! One check per property.

use crate::engine::Check;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
pub mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
pub mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod c29;

static ALL: &[&Check] = &[&c01::CHECK, &c02::CHECK, &c03::CHECK, &c04::CHECK, &c05::CHECK, &c06::CHECK, &c07::CHECK, &c08::CHECK, &c09::CHECK, &c10::CHECK, &c11::CHECK, &c12::CHECK, &c13::CHECK, &c14::CHECK, &c15::CHECK, &c16::CHECK, &c17::CHECK, &c18::CHECK, &c19::CHECK, &c20::CHECK, &c21::CHECK, &c22::CHECK, &c23::CHECK, &c24::CHECK, &c25::CHECK, &c26::CHECK, &c27::CHECK, &c28::CHECK, &c29::CHECK];

pub fn all() -> &'static [&'static Check] {
    ALL
}

pub fn first_use(seed: u64) -> i32 {
    c21::first_use(seed)
}

use crate::engine::Property;
mod c01;
mod c02;
pub mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
pub mod c08;
mod c09;
pub mod c10;
pub mod c11;
mod c12;
mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
mod c18;
pub mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod c29;
mod c30;
mod c31;
mod c32;
pub fn all() -> Vec<Property> {
    vec![c01::PROPERTY, c02::PROPERTY, c03::PROPERTY, c04::PROPERTY, c05::PROPERTY, c06::PROPERTY, c07::PROPERTY, c08::PROPERTY, c09::PROPERTY, c10::PROPERTY, c11::PROPERTY, c12::PROPERTY, c13::PROPERTY, c14::PROPERTY, c15::PROPERTY, c16::PROPERTY, c17::PROPERTY, c18::PROPERTY, c19::PROPERTY, c20::PROPERTY, c21::PROPERTY, c22::PROPERTY, c23::PROPERTY, c24::PROPERTY, c25::PROPERTY, c26::PROPERTY, c27::PROPERTY, c28::PROPERTY, c29::PROPERTY, c30::PROPERTY, c31::PROPERTY, c32::PROPERTY]
}

#![allow(clippy::all, dead_code)]
#[macro_use]
mod types;
mod c01;
mod c02;
mod c03;
mod c09;
mod c13;
mod c17;
mod c19;
mod c25;
mod model;

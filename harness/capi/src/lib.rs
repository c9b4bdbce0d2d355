#![allow(clippy::all, dead_code, improper_ctypes)]
extern crate tp_contract_example;
extern crate unity_states;
#[macro_use]
#[path = "../../core/src/types.rs"]
mod types;
mod c;
mod c20;
mod c22;
mod c23;

#![allow(dead_code, non_snake_case, unused)]
pub mod codec;
pub mod models;

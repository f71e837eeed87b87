#![allow(dead_code)]
include!("mods.rs");

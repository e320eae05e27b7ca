#![allow(unused)]
include!(concat!(env!("OUT_DIR"), "/shard6.rs"));

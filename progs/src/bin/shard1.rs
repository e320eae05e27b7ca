#![allow(unused)]
include!(concat!(env!("OUT_DIR"), "/shard1.rs"));

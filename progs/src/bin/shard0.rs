#![allow(unused)]
include!(concat!(env!("OUT_DIR"), "/shard0.rs"));

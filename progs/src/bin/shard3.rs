#![allow(unused)]
include!(concat!(env!("OUT_DIR"), "/shard3.rs"));

#![allow(unused)]
include!(concat!(env!("OUT_DIR"), "/shard2.rs"));

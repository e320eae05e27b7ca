#![allow(unused)]
include!(concat!(env!("OUT_DIR"), "/shard4.rs"));

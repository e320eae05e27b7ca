#![allow(unused)]
include!(concat!(env!("OUT_DIR"), "/shard5.rs"));

#![allow(unused)]
include!(concat!(env!("OUT_DIR"), "/shard7.rs"));

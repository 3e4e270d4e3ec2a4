#![allow(warnings)]
include!(env!("GEN"));

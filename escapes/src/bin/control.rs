// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let o = block();
    let x = o.get_row(1).unwrap().to_owned();
    drop(o);
    churn();
    see(&x);
}

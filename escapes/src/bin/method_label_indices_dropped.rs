// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o = method();
        o.label_indices("LE")
    };
    let mut x = x;
    churn();
    see(&x.collect::<Vec<_>>());
}

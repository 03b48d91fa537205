// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o = vec_of(6);
        o.first().unwrap()
    };
    let mut x = x;
    churn();
    see(x);
}

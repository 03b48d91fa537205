// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o = vec_of(6);
        o.first_mut().unwrap()
    };
    let mut x = x;
    churn();
    x.swap(0, 1);
}

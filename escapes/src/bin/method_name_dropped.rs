// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o = method();
        o.name()
    };
    let mut x = x;
    churn();
    see(&x.to_owned());
}

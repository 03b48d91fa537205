// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o = method();
        o.get_label(0).unwrap()
    };
    let mut x = x;
    churn();
    see(&x.to_owned());
}

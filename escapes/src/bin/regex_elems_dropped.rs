// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o = Regex::parse("1*x2");
        o.elems()
    };
    let mut x = x;
    churn();
    see(&x.to_vec());
}

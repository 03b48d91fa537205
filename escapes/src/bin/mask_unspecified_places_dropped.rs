// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o = Mask::parse("1x3x");
        o.unspecified_places()
    };
    let mut x = x;
    churn();
    see(&x.collect::<Vec<_>>());
}

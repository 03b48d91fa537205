// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o = method();
        o.row_in_plain_lead(1)
    };
    let mut x = x;
    churn();
    see(x);
}

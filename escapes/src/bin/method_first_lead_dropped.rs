// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o = method();
        o.first_lead()
    };
    let mut x = x;
    churn();
    see(x.leftover_row());
}

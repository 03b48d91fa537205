// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o = method();
        o.lead_head()
    };
    let mut x = x;
    churn();
    see(x);
}

// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let mut o = method();
    let mut x = o.row_in_plain_lead(1);
    o = method(); o.set_label(0, Some("another label".to_owned()));
    churn();
    see(x);
}

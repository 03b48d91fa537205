// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let mut o = method();
    let mut x = o.first_lead();
    o = method(); o.set_label(0, Some("another label".to_owned()));
    churn();
    see(x.leftover_row());
}

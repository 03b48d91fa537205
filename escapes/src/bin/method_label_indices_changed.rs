// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let mut o = method();
    let mut x = o.label_indices("LE");
    o = method(); o.set_label(0, Some("another label".to_owned()));
    churn();
    see(&x.collect::<Vec<_>>());
}

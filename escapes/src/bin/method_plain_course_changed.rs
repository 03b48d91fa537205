// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let mut o = method();
    let mut x = o.plain_course();
    o = method(); o.set_label(0, Some("another label".to_owned()));
    churn();
    see(&x.annots().map(|a| format!("{:?}", a.label())).collect::<Vec<_>>());
}

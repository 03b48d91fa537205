// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o = method();
        o.plain_course()
    };
    let mut x = x;
    churn();
    see(&x.annots().map(|a| format!("{:?}", a.label())).collect::<Vec<_>>());
}

// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o = method();
        o.plain_course().get_annot(0).unwrap().label().unwrap()
    };
    let mut x = x;
    churn();
    see(&x.to_owned());
}

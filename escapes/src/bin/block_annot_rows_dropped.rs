// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o: AnnotBlock<String> = block();
        o.annot_rows()
    };
    let mut x = x;
    churn();
    see(&x.map(|a| a.annot().clone()).collect::<Vec<_>>());
}

// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o: AnnotBlock<String> = block();
        o.row_vec()
    };
    let mut x = x;
    churn();
    see(&x.len()); see(x.last().unwrap());
}

// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o: AnnotBlock<String> = block();
        o.all_rows()
    };
    let mut x = x;
    churn();
    see(&x.map(|r| r.to_string()).collect::<Vec<_>>());
}

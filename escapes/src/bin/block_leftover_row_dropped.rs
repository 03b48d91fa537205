// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o: AnnotBlock<String> = block();
        o.leftover_row()
    };
    let mut x = x;
    churn();
    see(x);
}

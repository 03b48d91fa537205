// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o: AnnotBlock<String> = block();
        o.get_annot_row(1).unwrap().annot()
    };
    let mut x = x;
    churn();
    see(x);
}

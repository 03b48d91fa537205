// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o: AnnotBlock<String> = block();
        o.first_annot_row().unwrap()
    };
    let mut x = x;
    churn();
    see(x.row()); see(x.annot());
}

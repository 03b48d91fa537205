// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let mut o: AnnotBlock<String> = block();
    let mut x = o.get_annot_row(1).unwrap().row();
    for _ in 0..5 { o.extend_from_within(..); }
    churn();
    see(x);
}

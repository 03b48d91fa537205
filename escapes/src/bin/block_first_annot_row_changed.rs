// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let mut o: AnnotBlock<String> = block();
    let mut x = o.first_annot_row().unwrap();
    for _ in 0..5 { o.extend_from_within(..); }
    churn();
    see(x.row()); see(x.annot());
}

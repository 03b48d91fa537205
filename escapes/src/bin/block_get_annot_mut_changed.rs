// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let mut o: AnnotBlock<String> = block();
    let mut x = o.get_annot_mut(1).unwrap();
    for _ in 0..5 { o.extend_from_within(..); }
    churn();
    x.push_str("longer than it was");
}

// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let mut o: AnnotBlock<String> = block();
    let mut x = o.annots();
    for _ in 0..5 { o.extend_from_within(..); }
    churn();
    see(&x.cloned().collect::<Vec<_>>());
}

// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let mut o: AnnotBlock<String> = block();
    let mut x = o.clone_map_annots_with_index(|_, a| a);
    for _ in 0..5 { o.extend_from_within(..); }
    churn();
    see(&x.annots().map(|a| a.to_string()).collect::<Vec<_>>());
}

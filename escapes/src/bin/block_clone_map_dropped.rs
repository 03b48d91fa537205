// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o: AnnotBlock<String> = block();
        o.clone_map_annots_with_index(|_, a| a)
    };
    let mut x = x;
    churn();
    see(&x.annots().map(|a| a.to_string()).collect::<Vec<_>>());
}

// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o: AnnotBlock<String> = block();
        o.get_annot_mut(1).unwrap()
    };
    let mut x = x;
    churn();
    x.push_str("longer than it was");
}

// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let mut o: AnnotBlock<String> = block();
    let mut x = o.get_annot_mut(1).unwrap();
    let mut y = o.get_annot_mut(1).unwrap();
    x.push_str("longer than it was");
    y.push_str("longer than it was");
    x.push_str("longer than it was");
}

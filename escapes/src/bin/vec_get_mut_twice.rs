// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let mut o = vec_of(6);
    let mut x = o.get_mut(1).unwrap();
    let mut y = o.get_mut(1).unwrap();
    x.swap(0, 1);
    y.swap(0, 1);
    x.swap(0, 1);
}

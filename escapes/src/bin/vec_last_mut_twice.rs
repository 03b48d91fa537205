// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let mut o = vec_of(6);
    let mut x = o.last_mut().unwrap();
    let mut y = o.last_mut().unwrap();
    x.swap(0, 1);
    y.swap(0, 1);
    x.swap(0, 1);
}

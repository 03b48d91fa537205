// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let mut o = RowBuf::backrounds(Stage::MINOR);
    let mut x = &mut *o;
    let mut y = &mut *o;
    x.swap(0, 1);
    y.swap(0, 1);
    x.swap(0, 1);
}

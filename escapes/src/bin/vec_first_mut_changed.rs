// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let mut o = vec_of(6);
    let mut x = o.first_mut().unwrap();
    for _ in 0..50 { o.push(&RowBuf::backrounds(Stage::MINOR)).unwrap(); }
    churn();
    x.swap(0, 1);
}

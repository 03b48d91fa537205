// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let mut o = vec_of(6);
    std::thread::scope(|s| {
        s.spawn(|| for _ in 0..100 { see(o.last().unwrap()); });
        for _ in 0..100 { o.push(&RowBuf::backrounds(Stage::MINOR)).unwrap(); }
    });
}

// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let o = RowBuf::backrounds(Stage::MINOR).to_rc();
    let x = o.clone();
    let t = std::thread::spawn(move || for _ in 0..1000 { drop(x.clone()); });
    for _ in 0..1000 { drop(o.clone()); }
    t.join().unwrap();
}

// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o = PnBlock::parse("x16x16,12", Stage::MINOR).unwrap();
        o.place_nots()
    };
    let mut x = x;
    churn();
    see(&x.map(|p| p.to_string()).collect::<Vec<_>>());
}

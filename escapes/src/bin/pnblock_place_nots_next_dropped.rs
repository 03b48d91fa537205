// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o = PnBlock::parse("x16x16,12", Stage::MINOR).unwrap();
        o.place_nots().next().unwrap()
    };
    let mut x = x;
    churn();
    see(&x.to_string());
}

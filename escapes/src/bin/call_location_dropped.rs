// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o = Call::le_bob(PnBlock::parse("14", Stage::MINOR).unwrap());
        o.location()
    };
    let mut x = x;
    churn();
    see(&x.to_owned());
}

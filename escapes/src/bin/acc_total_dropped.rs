// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o = RowAccumulator::new(RowBuf::backrounds(Stage::MINOR));
        o.total()
    };
    let mut x = x;
    churn();
    see(x);
}

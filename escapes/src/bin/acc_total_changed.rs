// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let mut o = RowAccumulator::new(RowBuf::backrounds(Stage::MINOR));
    let mut x = o.total();
    o.set(&RowBuf::rounds(Stage::MAXIMUS));
    churn();
    see(x);
}

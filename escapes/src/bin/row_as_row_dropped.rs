// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o = RowBuf::backrounds(Stage::MINOR);
        o.as_row()
    };
    let mut x = x;
    churn();
    see(x);
}

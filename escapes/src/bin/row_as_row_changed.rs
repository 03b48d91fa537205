// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let mut o = RowBuf::backrounds(Stage::MINOR);
    let mut x = o.as_row();
    o.overwrite_from(&RowBuf::backrounds(Stage::MAXIMUS));
    churn();
    see(x);
}

// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o = RowBuf::backrounds(Stage::MINOR);
        (&o).into_iter()
    };
    let mut x = x;
    churn();
    see(&x.collect::<Vec<_>>());
}

// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o = RowBuf::backrounds(Stage::MINOR);
        Borrow::<Row>::borrow(&o)
    };
    let mut x = x;
    churn();
    see(x);
}

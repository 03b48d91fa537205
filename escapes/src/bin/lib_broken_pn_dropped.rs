// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o = lib();
        match o.get_by_title("Broken Bob Minor") { Err(QueryError::PnParseErr { pn, .. }) => pn, _ => unreachable!() }
    };
    let mut x = x;
    churn();
    see(&x.to_owned());
}

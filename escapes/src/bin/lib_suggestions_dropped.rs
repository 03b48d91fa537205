// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o = lib();
        match o.get_by_title_with_suggestions("Plane Bob Minor", 2) { Err(QueryError::NotFound(s)) => s[0].0, _ => unreachable!() }
    };
    let mut x = x;
    churn();
    see(&x.to_owned());
}

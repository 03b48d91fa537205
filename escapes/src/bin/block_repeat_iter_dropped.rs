// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o: AnnotBlock<String> = block();
        o.repeat_iter(RowBuf::rounds(Stage::MINOR)).unwrap()
    };
    let mut x = x;
    churn();
    see(&x.take(4).map(|(r, _, a)| format!("{}{}", r, a)).collect::<Vec<_>>());
}

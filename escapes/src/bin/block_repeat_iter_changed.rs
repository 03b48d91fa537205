// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let mut o: AnnotBlock<String> = block();
    let mut x = o.repeat_iter(RowBuf::rounds(Stage::MINOR)).unwrap();
    for _ in 0..5 { o.extend_from_within(..); }
    churn();
    see(&x.take(4).map(|(r, _, a)| format!("{}{}", r, a)).collect::<Vec<_>>());
}

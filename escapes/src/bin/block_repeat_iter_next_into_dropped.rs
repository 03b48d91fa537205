// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let mut o: AnnotBlock<String> = block();
        o.repeat_iter(RowBuf::rounds(Stage::MINOR)).unwrap().next_into(&mut RowBuf::rounds(Stage::MINOR)).unwrap().1
    };
    let mut x = x;
    churn();
    see(x);
}

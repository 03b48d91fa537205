// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let x = {
        let text = String::from("an annotation which is borrowed");
        AnnotBlock::with_annots_from_indices(vec_of(6), |_| text.as_str()).unwrap()
    };
    churn();
    see(&x.annots().map(|a| a.to_string()).collect::<Vec<_>>());
}

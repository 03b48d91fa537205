// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let o = AnnotBlock::with_annots_from_indices(vec_of(6), |_| std::cell::Cell::new(0)).unwrap();
    std::thread::scope(|s| {
        for _ in 0..2 {
            s.spawn(|| for i in 0..100 { o.get_annot(0).unwrap().set(i); });
        }
    });
}

// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let rc = std::rc::Rc::new(1);
    let o = AnnotBlock::with_annots_from_indices(vec_of(6), |_| rc.clone()).unwrap();
    let t = std::thread::spawn(move || for _ in 0..1000 { drop(o.clone()); });
    for _ in 0..1000 { drop(rc.clone()); }
    t.join().unwrap();
}

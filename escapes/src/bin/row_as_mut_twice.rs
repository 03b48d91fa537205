// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let mut o = RowBuf::backrounds(Stage::MINOR);
    let mut x = AsMut::<Row>::as_mut(&mut o);
    let mut y = AsMut::<Row>::as_mut(&mut o);
    x.swap(0, 1);
    y.swap(0, 1);
    x.swap(0, 1);
}

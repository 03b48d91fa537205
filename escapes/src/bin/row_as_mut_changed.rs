// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let mut o = RowBuf::backrounds(Stage::MINOR);
    let mut x = AsMut::<Row>::as_mut(&mut o);
    o.overwrite_from(&RowBuf::backrounds(Stage::MAXIMUS));
    churn();
    x.swap(0, 1);
}

#!/usr/bin/env python3
"""Generates src/bin/*.rs: programs of safe code, each of which tries to use something after what it belongs to is
gone, or to get at one thing twice.  (The generated programs are committed; checks don't run this.)"""
import os
HERE = os.path.dirname(os.path.abspath(__file__))

OWNERS = {
    "row": "let mut o = RowBuf::backrounds(Stage::MINOR);",
    "vec": "let mut o = vec_of(6);",
    "acc": "let mut o = RowAccumulator::new(RowBuf::backrounds(Stage::MINOR));",
    "block": "let mut o: AnnotBlock<String> = block();",
    "pnblock": 'let mut o = PnBlock::parse("x16x16,12", Stage::MINOR).unwrap();',
    "regex": 'let mut o = Regex::parse("1*x2");',
    "mask": 'let mut o = Mask::parse("1x3x");',
    "method": "let mut o = method();",
    "call": 'let mut o = Call::le_bob(PnBlock::parse("14", Stage::MINOR).unwrap());',
    "lib": "let mut o = lib();",
}
# what to take, and how it's used afterwards
TAKE = {
    "row": [
        ("as_row", "o.as_row()", "see(x)"), ("as_mut_row", "o.as_mut_row()", "x.swap(0, 1)"), ("deref", "&*o", "see(x)"),
        ("deref_mut", "&mut *o", "x.swap(0, 1)"), ("slice", "o.slice()", "see(&x.to_vec())"), ("bell_iter", "o.bell_iter()", "see(&x.collect::<Vec<_>>())"),
        ("fixed_bells", "o.fixed_bells()", "see(&x.collect::<Vec<_>>())"), ("index", "&o[0]", "see(x)"),
        ("into_iter", "(&o).into_iter()", "see(&x.collect::<Vec<_>>())"), ("as_ref", "AsRef::<Row>::as_ref(&o)", "see(x)"),
        ("as_mut", "AsMut::<Row>::as_mut(&mut o)", "x.swap(0, 1)"), ("borrow", "Borrow::<Row>::borrow(&o)", "see(x)"),
        ("borrow_mut", "BorrowMut::<Row>::borrow_mut(&mut o)", "x.swap(0, 1)"),
    ],
    "vec": [
        ("get", "o.get(1).unwrap()", "see(x)"), ("get_mut", "o.get_mut(1).unwrap()", "x.swap(0, 1)"), ("first", "o.first().unwrap()", "see(x)"),
        ("first_mut", "o.first_mut().unwrap()", "x.swap(0, 1)"), ("last", "o.last().unwrap()", "see(x)"), ("last_mut", "o.last_mut().unwrap()", "x.swap(0, 1)"),
        ("iter", "o.iter()", "see(&x.map(|r| r.to_string()).collect::<Vec<_>>())"), ("iter_next", "o.iter().next().unwrap()", "see(x)"),
        ("iter_next_back", "o.iter().next_back().unwrap()", "see(x)"), ("iter_clone", "o.iter().clone()", "see(&x.map(|r| r.to_string()).collect::<Vec<_>>())"),
        ("iter_nth", "o.iter().nth(1).unwrap()", "see(x)"), ("index", "&o[1]", "see(x)"), ("into_iter", "(&o).into_iter().last().unwrap()", "see(x)"),
    ],
    "acc": [("total", "o.total()", "see(x)")],
    "block": [
        ("get_row", "o.get_row(1).unwrap()", "see(x)"), ("get_annot", "o.get_annot(1).unwrap()", "see(x)"),
        ("get_annot_mut", "o.get_annot_mut(1).unwrap()", 'x.push_str("longer than it was")'), ("get_annot_row", "o.get_annot_row(1).unwrap()", "see(x.row()); see(x.annot())"),
        ("annot_row_row", "o.get_annot_row(1).unwrap().row()", "see(x)"), ("annot_row_annot", "o.get_annot_row(1).unwrap().annot()", "see(x)"),
        ("first_row", "o.first_row()", "see(x)"), ("first_annot_row", "o.first_annot_row().unwrap()", "see(x.row()); see(x.annot())"),
        ("leftover_row", "o.leftover_row()", "see(x)"), ("rows", "o.rows()", "see(&x.map(|r| r.to_string()).collect::<Vec<_>>())"),
        ("all_rows", "o.all_rows()", "see(&x.map(|r| r.to_string()).collect::<Vec<_>>())"), ("annots", "o.annots()", "see(&x.cloned().collect::<Vec<_>>())"),
        ("annot_rows", "o.annot_rows()", "see(&x.map(|a| a.annot().clone()).collect::<Vec<_>>())"),
        ("annot_rows_next", "o.annot_rows().next().unwrap().annot()", "see(x)"), ("row_vec", "o.row_vec()", "see(&x.len()); see(x.last().unwrap())"),
        ("repeat_iter", "o.repeat_iter(RowBuf::rounds(Stage::MINOR)).unwrap()", "see(&x.take(4).map(|(r, _, a)| format!(\"{}{}\", r, a)).collect::<Vec<_>>())"),
        ("repeat_iter_next", "o.repeat_iter(RowBuf::rounds(Stage::MINOR)).unwrap().next().unwrap().2", "see(x)"),
        ("repeat_iter_next_into", "o.repeat_iter(RowBuf::rounds(Stage::MINOR)).unwrap().next_into(&mut RowBuf::rounds(Stage::MINOR)).unwrap().1", "see(x)"),
        ("clone_map", "o.clone_map_annots_with_index(|_, a| a)", "see(&x.annots().map(|a| a.to_string()).collect::<Vec<_>>())"),
    ],
    "pnblock": [("place_nots", "o.place_nots()", "see(&x.map(|p| p.to_string()).collect::<Vec<_>>())"), ("place_nots_next", "o.place_nots().next().unwrap()", "see(&x.to_string())")],
    "regex": [("elems", "o.elems()", "see(&x.to_vec())")],
    "mask": [("unspecified_places", "o.unspecified_places()", "see(&x.collect::<Vec<_>>())")],
    "method": [
        ("title", "o.title()", "see(&x.to_owned())"), ("name", "o.name()", "see(&x.to_owned())"), ("first_lead", "o.first_lead()", "see(x.leftover_row())"),
        ("lead_head", "o.lead_head()", "see(x)"), ("row_in_plain_lead", "o.row_in_plain_lead(1)", "see(x)"), ("get_label", "o.get_label(0).unwrap()", "see(&x.to_owned())"),
        ("label_indices", 'o.label_indices("LE")', "see(&x.collect::<Vec<_>>())"), ("plain_course", "o.plain_course()", "see(&x.annots().map(|a| format!(\"{:?}\", a.label())).collect::<Vec<_>>())"),
        ("plain_course_label", "o.plain_course().get_annot(0).unwrap().label().unwrap()", "see(&x.to_owned())"),
    ],
    "call": [("block", "o.block()", "see(x.leftover_row())"), ("location", "o.location()", "see(&x.to_owned())"), ("transposition", "o.transposition()", "see(x)")],
    "lib": [
        ("suggestions", 'match o.get_by_title_with_suggestions("Plane Bob Minor", 2) { Err(QueryError::NotFound(s)) => s[0].0, _ => unreachable!() }', "see(&x.to_owned())"),
        ("broken_pn", 'match o.get_by_title("Broken Bob Minor") { Err(QueryError::PnParseErr { pn, .. }) => pn, _ => unreachable!() }', "see(&x.to_owned())"),
    ],
}
MUTATE = {
    "row": "o.overwrite_from(&RowBuf::backrounds(Stage::MAXIMUS));", "vec": "for _ in 0..50 { o.push(&RowBuf::backrounds(Stage::MINOR)).unwrap(); }",
    "acc": "o.set(&RowBuf::rounds(Stage::MAXIMUS));", "block": "for _ in 0..5 { o.extend_from_within(..); }",
    "method": "o = method(); o.set_label(0, Some(\"another label\".to_owned()));",
}
HEADER = '''// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
'''
programs = {}
for owner, takes in TAKE.items():
    for name, take, use in takes:
        programs[f"{owner}_{name}_dropped"] = f"    let x = {{\n        {OWNERS[owner]}\n        {take}\n    }};\n    let mut x = x;\n    churn();\n    {use};\n"
        if owner in MUTATE:
            programs[f"{owner}_{name}_changed"] = f"    {OWNERS[owner]}\n    let mut x = {take};\n    {MUTATE[owner]}\n    churn();\n    {use};\n"
        if name.endswith("mut"):
            programs[f"{owner}_{name}_twice"] = f"    {OWNERS[owner]}\n    let mut x = {take};\n    let mut y = {take};\n    {use};\n    {use.replace('x.', 'y.')};\n    {use};\n"
programs["rc_row_to_thread"] = '''    let o = RowBuf::backrounds(Stage::MINOR).to_rc();
    let x = o.clone();
    let t = std::thread::spawn(move || for _ in 0..1000 { drop(x.clone()); });
    for _ in 0..1000 { drop(o.clone()); }
    t.join().unwrap();
'''
programs["vec_shared_and_pushed"] = '''    let mut o = vec_of(6);
    std::thread::scope(|s| {
        s.spawn(|| for _ in 0..100 { see(o.last().unwrap()); });
        for _ in 0..100 { o.push(&RowBuf::backrounds(Stage::MINOR)).unwrap(); }
    });
'''
programs["block_of_rcs_to_thread"] = '''    let rc = std::rc::Rc::new(1);
    let o = AnnotBlock::with_annots_from_indices(vec_of(6), |_| rc.clone()).unwrap();
    let t = std::thread::spawn(move || for _ in 0..1000 { drop(o.clone()); });
    for _ in 0..1000 { drop(rc.clone()); }
    t.join().unwrap();
'''
programs["block_of_cells_shared"] = '''    let o = AnnotBlock::with_annots_from_indices(vec_of(6), |_| std::cell::Cell::new(0)).unwrap();
    std::thread::scope(|s| {
        for _ in 0..2 {
            s.spawn(|| for i in 0..100 { o.get_annot(0).unwrap().set(i); });
        }
    });
'''
programs["longer_annotations"] = '''    let x = {
        let text = String::from("an annotation which is borrowed");
        AnnotBlock::with_annots_from_indices(vec_of(6), |_| text.as_str()).unwrap()
    };
    churn();
    see(&x.annots().map(|a| a.to_string()).collect::<Vec<_>>());
'''
programs["control"] = '''    let o = block();
    let x = o.get_row(1).unwrap().to_owned();
    drop(o);
    churn();
    see(&x);
'''
d = os.path.join(HERE, "src", "bin")
for f in os.listdir(d):
    os.remove(os.path.join(d, f))
for name, body in programs.items():
    open(os.path.join(d, name + ".rs"), "w").write(HEADER + body + "}\n")
print(len(programs), "programs")

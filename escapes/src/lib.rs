//! What all the programs in `bin/` use
pub use bellframe::{
    mask::Mask, method_lib::QueryError, music::Regex, row::RowAccumulator, AnnotBlock, Bell, Call, Method, MethodLib, PnBlock, Row, RowBuf,
    SameStageVec, Stage,
};
pub use std::borrow::{Borrow, BorrowMut};

/// Look at every byte of something
pub fn see<T: std::fmt::Debug + ?Sized>(x: &T) {
    std::hint::black_box(format!("{:?}", x));
}

/// Reuse the memory of whatever was freed
pub fn churn() {
    for n in 1..64 {
        std::hint::black_box(vec![0xffu8; n]);
        std::hint::black_box(vec![usize::MAX; n]);
    }
}

pub fn vec_of(n: usize) -> SameStageVec {
    let mut v = SameStageVec::new(Stage::new(n));
    for _ in 0..3 {
        v.push(&RowBuf::backrounds(Stage::new(n))).unwrap();
    }
    v
}

pub fn block() -> AnnotBlock<String> {
    AnnotBlock::with_annots_from_indices(vec_of(6), |i| i.to_string()).unwrap()
}

pub fn method() -> Method {
    Method::with_lead_end("Plain".to_owned(), &PnBlock::parse("x16x16x16,12", Stage::MINOR).unwrap()).tap_label()
}

trait TapLabel {
    fn tap_label(self) -> Self;
}

impl TapLabel for Method {
    fn tap_label(mut self) -> Self {
        self.set_lead_end_label();
        self
    }
}

pub fn lib() -> MethodLib {
    MethodLib::from_json(r#"{"groups":[{"s":6,"c":2,"m":[{"n":"Plain","p":"x16x16x16,12"},{"n":"Broken","p":"?!9"}]}]}"#).unwrap()
}

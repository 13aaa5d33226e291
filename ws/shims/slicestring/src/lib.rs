//! Stand-in for slicestring 0.3: slicing by character positions, clamped.
use std::ops::{Bound, RangeBounds};
pub trait Slice { fn slice<R: RangeBounds<usize>>(&self, r: R) -> String; }
impl Slice for str {
    fn slice<R: RangeBounds<usize>>(&self, r: R) -> String {
        let s = match r.start_bound() { Bound::Included(x) => *x, Bound::Excluded(x) => x + 1, _ => 0 };
        let e = match r.end_bound() { Bound::Included(x) => x + 1, Bound::Excluded(x) => *x, _ => usize::MAX };
        self.chars().skip(s).take(e.saturating_sub(s)).collect()
    }
}
impl Slice for String { fn slice<R: RangeBounds<usize>>(&self, r: R) -> String { self.as_str().slice(r) } }

//! Character symbols: 0..=127 are ASCII characters, 128 stands for every other character,
//! 129 for the end of input.
use crate::state::*;
use crate::val::*;

pub const OTHER: usize = 128;
pub const END: usize = 129;
pub fn all_chars() -> KS {
    KS::range(129)
}

/// split on a predicate over code points
pub fn char_split(st: &mut St, c: Sym, f: &dyn Fn(i128) -> bool) -> Vec<(St, V)> {
    let ks = st.ks(c);
    let mut yes = KS::EMPTY;
    let mut no = KS::EMPTY;
    for k in ks.iter() {
        let cp = if k == OTHER { 0x1F600 } else { k as i128 };
        if f(cp) {
            yes.add(k)
        } else {
            no.add(k)
        }
    }
    let mut out = vec![];
    if !yes.empty() {
        let mut s = st.clone();
        s.refine(c, &yes);
        out.push((s, V::bool(true)));
    }
    if !no.empty() {
        let mut s = st.clone();
        s.refine(c, &no);
        out.push((s, V::bool(false)));
    }
    out
}

//! The tokenizer and the decoding of literals, at the level of characters.
//!
//! Abstract interpretation of the MIR over character classes: what was read lately, its classes,
//! and positions relative to the start of the token and to the read head. In lockstep runs the
//! automaton of the reviewed token patterns; when the function returns, kind, text and range must
//! be those of the longest match.
use crate::prog::*;
use crate::tape::*;
use ir::*;
use serde::Serialize;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

const WINDOW: usize = 6;
/// functions of the standard library that never panic: the result is taken to be anything
const TAME: &[&str] = &[
    "len", "is_empty", "is_char_boundary", "find", "rfind", "contains", "starts_with", "ends_with", "as_str", "as_ref", "as_bytes", "from_iter", "collect", "map", "filter", "chars", "bytes", "char_indices", "rev", "any", "all", "position", "count", "last", "nth", "trim", "trim_start", "trim_end", "trim_matches",
    "trim_start_matches", "trim_end_matches", "strip_prefix", "strip_suffix", "get", "first", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "eq_ignore_ascii_case", "with_capacity", "capacity", "push", "push_str", "clear", "pop", "from", "into", "extend", "clone", "cmp", "partial_cmp", "min", "max",
    "eq", "ne", "lt", "le", "gt", "ge", "iter", "into_iter", "next", "next_back", "peekable", "peek", "next_if", "next_if_eq", "enumerate", "skip", "take", "take_while", "skip_while", "zip", "chain", "split_once", "rsplit_once", "split_at_checked", "is_ascii", "parse", "to_string", "to_owned", "by_ref", "copied", "cloned", "fold", "deref", "borrow",
    "escape_default", "len_utf8", "to_digit", "is_digit", "from_digit", "from_u32", "saturating_add", "saturating_sub", "saturating_mul", "wrapping_add", "wrapping_sub", "wrapping_mul", "checked_sub", "checked_add", "checked_mul", "overflowing_add", "matches", "not", "default", "hash", "as_mut", "as_deref", "lines",
];
/// in tables: some character beyond ASCII
const NA: i128 = 0x110000;

/// set of characters
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct CS(u128, bool);
impl CS {
    const NONE: CS = CS(0, false);
    const ALL: CS = CS(u128::MAX, true);
    const ASCII: CS = CS(u128::MAX, false);
    const NONASCII: CS = CS(0, true);
    fn one(i: usize) -> CS {
        if i < 128 { CS(1 << i, false) } else { CS::NONASCII }
    }
    fn and(self, o: CS) -> CS {
        CS(self.0 & o.0, self.1 && o.1)
    }
    fn or(self, o: CS) -> CS {
        CS(self.0 | o.0, self.1 || o.1)
    }
    fn not(self) -> CS {
        CS(!self.0, !self.1)
    }
    fn empty(self) -> bool {
        self == CS::NONE
    }
    fn has(self, i: usize) -> bool {
        if i < 128 { self.0 >> i & 1 == 1 } else { self.1 }
    }
    fn iter(self) -> impl Iterator<Item = usize> {
        (0..129).filter(move |i| self.has(*i))
    }
    fn single(self) -> Option<usize> {
        if !self.1 && self.0.count_ones() == 1 { Some(self.0.trailing_zeros() as usize) } else { None }
    }
    fn show(self) -> String {
        let f = |i: usize| if i == OTHER { "non-ASCII".to_string() } else { format!("{:?}", char::from(i as u8)) };
        let n = self.iter().count();
        if n > 20 {
            return if self == CS::ALL { "any character".into() } else { format!("{} kinds of characters, such as {}", n, self.iter().filter(|i| *i > 32).take(2).map(f).collect::<Vec<_>>().join(" ")) };
        }
        self.iter().map(f).collect::<Vec<_>>().join(" ")
    }
}

/// position: characters after the start of the token, characters before the read head
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
enum P {
    S(usize),
    R(usize),
    /// the length of the text
    End,
    Past,
    /// not known to be between two characters
    Bad,
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
enum Txt {
    Whole,
    Slice(P, P),
    Const(String),
    Upper(Box<Txt>),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum L {
    Top,
    Int(i128),
    Char(usize),
    /// function of a character
    Tab(usize, Rc<Vec<Option<i128>>>),
    Pos(P),
    Len8(usize),
    /// decimal value of the text between; times ten
    Dec(P, P),
    Dec10(P, P),
    Txt(Txt),
    /// keyword looked up
    Kw(Txt),
    Cur(P),
    /// characters of a constant still to come
    CurC(String),
    /// bytes between two positions
    Diff(P, P),
    /// all characters of a text, or (flag) all bytes
    All(Txt, bool),
    Buf,
    Adt(TyId, usize, Vec<L>),
    Tup(Vec<L>),
    Ref(usize, Vec<usize>),
    RefVal(Box<L>),
    Fn(FnId),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Sp {
    None,
    In(u16),
    Over(u16, P),
    Invalid,
    Eof,
    /// COPY data: skipping blanks, in the data, after a newline, after \ , after \.
    Blank,
    Data,
    Nl,
    Bs,
    Dot,
    /// end of data, where reading must stop
    Done(P, P),
    /// literal: plain, after own quote, after backslash
    Plain,
    Quote,
    Esc,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Frame {
    f: FnId,
    bb: usize,
    base: usize,
    dest: (usize, Vec<usize>),
    ret: Option<usize>,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct T {
    frames: Vec<Frame>,
    cells: Vec<L>,
    /// last characters read
    tape: Vec<usize>,
    sets: Vec<CS>,
    ended: bool,
    /// characters between start and read head, when few
    d: Option<usize>,
    /// whether the first characters are ASCII, as far as known
    head: [Option<bool>; 3],
    sp: Sp,
    /// a checked operation failed
    ovf: bool,
    excl: CS,
    /// decoded characters the code owes (or, when `lead`, has pushed too early)
    queue: Vec<Result<usize, char>>,
    lead: bool,
    /// bytes handed out by the last read of data
    copied: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Job {
    Lex,
    Data,
    Decode(char),
    Pure,
    /// functions that make issues
    Seg,
}
#[derive(Default, Serialize, Clone)]
pub struct LexR {
    /// property -> findings
    pub findings: BTreeSet<(String, String)>,
    pub states: usize,
    pub lexer_states: usize,
    pub edges: usize,
    pub functions: BTreeSet<String>,
    pub outcomes: BTreeMap<String, usize>,
    pub patterns: usize,
    pub dfa_states: usize,
    pub slices: usize,
    pub unmodelled: BTreeSet<String>,
    pub keywords: usize,
    pub names: usize,
    pub reserved: BTreeMap<String, BTreeSet<String>>,
    pub decoders: BTreeMap<String, usize>,
    /// functions evaluated that make issues or fragments: how many were made
    pub makers: BTreeMap<String, usize>,
}

pub struct Lx<'a> {
    dfa: &'a Dfa,
    job: Job,
    pub r: LexR,
    out: Vec<(T, L)>,
    what: String,
    steps: usize,
    /// something was reported since this was last cleared
    hit: bool,
    live: HashMap<FnId, Rc<FnInfo>>,
    /// issues made in this evaluation: what is wrong with them
    made: Vec<Option<String>>,
    each: HashMap<(FnId, Option<L>), Option<Rc<Vec<Option<i128>>>>>,
}
enum Next {
    Go(T, bool),
    Return(T, L),
}

impl T {
    fn rel(&self, p: P) -> Option<i64> {
        // characters after the start of the token, or before the read head (negative)
        match p {
            P::S(j) if j >= FREE => None,
            P::S(j) => match self.d {
                Some(d) => Some(j as i64 - d as i64),
                None => None,
            },
            P::R(k) => Some(-(k as i64)),
            P::End if self.ended => Some(0),
            _ => None,
        }
    }
    /// the position k characters before the read head
    fn pos(&self, k: usize) -> P {
        match self.d {
            Some(d) if d >= k => P::S(d - k),
            _ if k > WINDOW => P::Past,
            _ => P::R(k),
        }
    }
    fn norm(&self, p: P) -> P {
        match self.rel(p) {
            Some(r) if r <= 0 => self.pos((-r) as usize),
            _ => p,
        }
    }
    fn set(&self, s: usize) -> CS {
        self.sets[s]
    }
    /// symbol of the character that starts here
    fn at(&self, p: P) -> Option<usize> {
        let r = self.rel(p)?;
        if r >= 0 {
            return None;
        }
        let k = (-r) as usize;
        if k <= self.tape.len() { Some(self.tape[self.tape.len() - k]) } else { None }
    }
    /// n bytes on
    fn bytes(&self, p: P, n: i128) -> P {
        let mut q = p;
        if n < 0 {
            for _ in 0..-n {
                let r = match self.rel(q) {
                    Some(r) if r <= 0 => (1 - r) as usize,
                    _ => return P::Bad,
                };
                if r > self.tape.len() || !self.set(self.tape[self.tape.len() - r]).and(CS::NONASCII).empty() {
                    return P::Bad;
                }
                q = self.pos(r)
            }
            return q;
        }
        for _ in 0..n {
            q = match (self.at(q), q) {
                (Some(s), _) if self.set(s).and(CS::NONASCII).empty() => self.pos((-self.rel(q).unwrap() - 1) as usize),
                // further back than the window reaches
                (None, P::S(j)) if j < 3 && self.d.is_none() && self.head[j] == Some(true) => {
                    if j + 1 < 3 {
                        P::S(j + 1)
                    } else {
                        return P::Bad;
                    }
                }
                _ => return P::Bad,
            }
        }
        q
    }
    /// known order
    fn le(&self, a: P, b: P) -> Option<bool> {
        if a == b {
            return Some(true);
        }
        if b == P::End && !matches!(a, P::Bad) {
            return Some(true);
        }
        if let (Some(x), Some(y)) = (self.rel(a), self.rel(b)) {
            return Some(x <= y);
        }
        match (a, b) {
            // ends of ranges nothing is known about (see `given`)
            (P::S(i), P::S(j)) if i >= FREE || j >= FREE => (i / 2 == j / 2).then_some(i <= j),
            (P::S(i), P::S(j)) => Some(i <= j),
            // the start is further back than the window reaches
            (P::S(j), P::R(k)) if self.d.is_none() && j <= 2 => (j + k <= WINDOW + 1).then_some(true),
            (P::R(k), P::S(j)) if self.d.is_none() && j <= 2 => (j + k <= WINDOW).then_some(false),
            (P::S(j), P::End) | (P::End, P::S(j)) if self.d.is_none() && j <= 2 && self.ended => Some(a != P::End),
            (P::S(j), P::Past) if j == 0 => None,
            (P::Past, P::R(_)) => Some(true),
            (P::R(_), P::Past) => Some(false),
            _ => None,
        }
    }
}

fn shift(v: &mut L, f: &dyn Fn(P) -> P) {
    let t = |x: &mut Txt| {
        fn go(x: &mut Txt, f: &dyn Fn(P) -> P) {
            match x {
                Txt::Slice(a, b) => {
                    *a = f(*a);
                    *b = f(*b)
                }
                Txt::Upper(x) => go(x, f),
                _ => {}
            }
        }
        go(x, f)
    };
    match v {
        L::Pos(p) | L::Cur(p) => *p = f(*p),
        L::Dec(a, b) | L::Dec10(a, b) | L::Diff(a, b) => {
            *a = f(*a);
            *b = f(*b)
        }
        L::Txt(x) | L::Kw(x) | L::All(x, _) => t(x),
        L::Adt(_, _, x) | L::Tup(x) => x.iter_mut().for_each(|x| shift(x, f)),
        L::RefVal(x) => shift(x, f),
        _ => {}
    }
}
fn places(v: &L, f: &mut dyn FnMut(P)) {
    fn txt(x: &Txt, f: &mut dyn FnMut(P)) {
        match x {
            Txt::Slice(a, b) => {
                f(*a);
                f(*b)
            }
            Txt::Upper(x) => txt(x, f),
            _ => {}
        }
    }
    match v {
        L::Pos(p) | L::Cur(p) => f(*p),
        L::Dec(a, b) | L::Dec10(a, b) | L::Diff(a, b) => {
            f(*a);
            f(*b)
        }
        L::Txt(x) | L::Kw(x) | L::All(x, _) => txt(x, f),
        L::Adt(_, _, x) | L::Tup(x) => x.iter().for_each(|x| places(x, f)),
        L::RefVal(x) => places(x, f),
        _ => {}
    }
}
fn syms(v: &mut L, f: &mut dyn FnMut(&mut usize)) {
    match v {
        L::Char(s) | L::Tab(s, _) | L::Len8(s) => f(s),
        L::Adt(_, _, x) | L::Tup(x) => x.iter_mut().for_each(|x| syms(x, f)),
        L::RefVal(x) => syms(x, f),
        _ => {}
    }
}
fn known(v: &mut L, f: &dyn Fn(usize) -> Option<usize>) {
    match v {
        L::Char(s) => {
            if let Some(c) = f(*s) {
                *v = L::Int(c as i128)
            }
        }
        L::Adt(_, _, x) | L::Tup(x) => x.iter_mut().for_each(|x| known(x, f)),
        L::RefVal(x) => known(x, f),
        _ => {}
    }
}
fn tab_of(v: &L) -> Option<(usize, Vec<Option<i128>>)> {
    match v {
        L::Char(s) => Some((*s, (0..129).map(|i| if i < 128 { Some(i as i128) } else { None }).collect())),
        L::Tab(s, t) => Some((*s, (**t).clone())),
        _ => None,
    }
}
fn compare(op: &str, a: i128, b: i128) -> Option<bool> {
    if (a == NA && b >= 128) || (b == NA && a >= 128) {
        return None;
    }
    Some(match op {
        "Eq" => a == b,
        "Ne" => a != b,
        "Lt" => a < b,
        "Le" => a <= b,
        "Gt" => a > b,
        "Ge" => a >= b,
        _ => return None,
    })
}
fn arith(op: &str, a: i128, b: i128, bits: u32, signed: bool) -> Option<i128> {
    if a == NA || b == NA {
        return None;
    }
    let r = match op {
        "Add" | "AddUnchecked" => a + b,
        "Sub" | "SubUnchecked" => a - b,
        "Mul" | "MulUnchecked" => a.checked_mul(b)?,
        "BitAnd" => a & b,
        "BitOr" => a | b,
        "BitXor" => a ^ b,
        "Shl" if b < 64 => a << b,
        "Shr" if b < 64 => a >> b,
        "Div" if b != 0 => a / b,
        "Rem" if b != 0 => a % b,
        _ => return None,
    };
    Some(wrap(r, bits, signed))
}
fn wrap(r: i128, bits: u32, signed: bool) -> i128 {
    if bits >= 127 {
        return r;
    }
    let m = r & ((1i128 << bits) - 1);
    if signed && m >> (bits - 1) & 1 == 1 { m - (1i128 << bits) } else { m }
}
fn width(t: TyId) -> (u32, bool) {
    match &pg().pr.types[t].kind {
        TyKind::Int { signed, bits } => (if *bits == 0 { 64 } else { *bits }, *signed),
        TyKind::Bool => (1, false),
        TyKind::Char => (32, false),
        _ => (127, true),
    }
}

impl<'a> Lx<'a> {
    pub fn new(dfa: &'a Dfa, job: Job) -> Lx<'a> {
        Lx { dfa, job, r: Default::default(), out: vec![], what: String::new(), steps: 0, hit: false, live: HashMap::new(), made: vec![], each: HashMap::new() }
    }
    fn finding(&mut self, prop: &str, s: String) {
        self.hit = true;
        self.r.findings.insert((prop.to_string(), s));
    }
    fn info(&mut self, f: FnId) -> Rc<FnInfo> {
        self.live.entry(f).or_insert_with(|| Rc::new(crate::cfg::analyse(pg(), f))).clone()
    }
    fn whose(&self, t: &T) -> String {
        // innermost function of the crate
        t.frames.iter().rev().map(|f| pg().f(f.f)).find(|f| f.local && !f.is_closure).map(|f| pg().short_of(f)).unwrap_or(self.what.clone())
    }

    // -- places --
    fn addr(&mut self, t: &T, base: usize, p: &Place) -> Result<(usize, Vec<usize>), L> {
        let mut cell = base + p.local;
        let mut path: Vec<usize> = vec![];
        let mut val: Option<L> = None;
        for e in &p.proj {
            if let Some(v) = val.take() {
                // in a value behind a constant reference
                val = Some(match (e, v) {
                    (Proj::Field(i, _), L::Adt(_, _, f)) | (Proj::Field(i, _), L::Tup(f)) => f.get(*i).cloned().unwrap_or(L::Top),
                    (Proj::Downcast(_), v) => v,
                    (Proj::Deref, L::RefVal(v)) => *v,
                    (Proj::Deref, L::Ref(c, q)) => {
                        cell = c;
                        path = q;
                        continue;
                    }
                    (Proj::Deref, v @ L::Txt(_)) => v,
                    _ => L::Top,
                });
                continue;
            }
            match e {
                Proj::Deref => match self.get(t, cell, &path) {
                    L::Ref(c, q) => {
                        cell = c;
                        path = q
                    }
                    L::RefVal(v) => val = Some(*v),
                    v @ L::Txt(_) => val = Some(v),
                    _ => return Err(L::Top),
                },
                Proj::Field(i, _) => path.push(*i),
                Proj::Downcast(_) => {}
                Proj::Index(_) | Proj::ConstIndex { .. } | Proj::Subslice { .. } | Proj::Opaque => return Err(L::Top),
            }
        }
        match val {
            Some(v) => Err(v),
            None => Ok((cell, path)),
        }
    }
    fn get(&self, t: &T, cell: usize, path: &[usize]) -> L {
        let mut v = match t.cells.get(cell) {
            Some(v) => v,
            None => return L::Top,
        };
        for i in path {
            v = match v {
                L::Adt(_, _, f) | L::Tup(f) if *i < f.len() => &f[*i],
                _ => return L::Top,
            }
        }
        v.clone()
    }
    fn read(&mut self, t: &T, base: usize, p: &Place) -> L {
        match self.addr(t, base, p) {
            Ok((c, q)) => self.get(t, c, &q),
            Err(v) => v,
        }
    }
    fn put(&self, t: &mut T, cell: usize, path: &[usize], v: L) {
        while t.cells.len() <= cell {
            t.cells.push(L::Top)
        }
        let mut c = &mut t.cells[cell];
        for i in path {
            let n = match c {
                L::Adt(_, _, f) | L::Tup(f) => f.len(),
                _ => 0,
            };
            if *i >= n {
                *c = L::Top;
                return;
            }
            c = match c {
                L::Adt(_, _, f) | L::Tup(f) => &mut f[*i],
                _ => return,
            }
        }
        *c = v
    }
    fn write(&mut self, t: &mut T, base: usize, p: &Place, v: L) {
        // a tuple or struct filled field by field
        if let [Proj::Field(i, _)] = &p.proj[..] {
            let c = base + p.local;
            if t.cells.get(c) == Some(&L::Top) || t.cells.len() <= c {
                let f = t.frames.last().map(|f| f.f);
                let ty = f.and_then(|f| pg().f(f).locals.get(p.local).map(|l| l.ty));
                match ty.map(|t| (t, &pg().pr.types[t].kind)) {
                    Some((_, TyKind::Tuple(e))) => self.put(t, c, &[], L::Tup(vec![L::Top; e.len()])),
                    Some((ty, TyKind::Adt(a))) if a.variants.len() == 1 => self.put(t, c, &[], L::Adt(ty, 0, vec![L::Top; a.variants[0].fields.len()])),
                    _ => {}
                }
                let _ = i;
            }
        }
        match self.addr(t, base, p) {
            Ok((c, q)) => self.put(t, c, &q, v),
            Err(_) => {
                let w = self.whose(t);
                self.finding("MODEL", format!("{} stores where the analysis cannot follow", w))
            }
        }
    }
    fn konst(&self, c: &CVal, ty: TyId) -> L {
        let p = pg();
        match c {
            CVal::Int(i) => L::Int(*i),
            CVal::Bool(b) => L::Int(*b as i128),
            CVal::Char(c) => L::Int(*c as i128),
            CVal::Str(s) => L::Txt(Txt::Const(s.clone())),
            CVal::Adt(v, f) => {
                let n = p.adt(ty).map(|a| a.variants[*v].fields.iter().map(|f| f.ty).collect::<Vec<_>>()).unwrap_or_default();
                L::Adt(ty, *v, f.iter().enumerate().map(|(i, x)| self.konst(x, n.get(i).copied().unwrap_or(ty))).collect())
            }
            CVal::Tuple(f) => match &p.pr.types[ty].kind {
                TyKind::Tuple(n) => L::Tup(f.iter().zip(n).map(|(x, t)| self.konst(x, *t)).collect()),
                _ => L::Tup(vec![]),
            },
            CVal::Array(x) if x.iter().all(|x| matches!(x, CVal::Int(_) | CVal::Char(_))) => L::Tup(x.iter().map(|x| self.konst(x, ty)).collect()),
            CVal::SliceRef(x) if x.iter().all(|x| matches!(x, CVal::Int(_) | CVal::Char(_))) => L::RefVal(Box::new(L::Tup(x.iter().map(|x| self.konst(x, ty)).collect()))),
            CVal::Ref(x) => match &p.pr.types[ty].kind {
                TyKind::Ref { to, .. } => L::RefVal(Box::new(self.konst(x, *to))),
                _ => L::Top,
            },
            CVal::Fn(Some(f)) => L::Fn(*f),
            CVal::Zst => match &p.pr.types[ty].kind {
                TyKind::Tuple(_) => L::Tup(vec![]),
                TyKind::FnDef(Some(f)) => L::Fn(*f),
                TyKind::Adt(a) if a.variants.len() == 1 => L::Adt(ty, 0, vec![]),
                TyKind::Closure { .. } => L::Adt(ty, 0, vec![]),
                _ => L::Top,
            },
            _ => L::Top,
        }
    }
    fn op(&mut self, t: &T, base: usize, o: &Operand) -> L {
        match o {
            Operand::Copy(p) | Operand::Move(p) => self.read(t, base, p),
            Operand::Const(c) => self.konst(&c.val, c.ty),
            _ => L::Int(0),
        }
    }

    // -- the text --
    /// everything refers to one character later
    fn advance(&self, t: &mut T, sym: usize) {
        t.tape.push(sym);
        if t.tape.len() > WINDOW {
            t.tape.remove(0);
        }
        let (old, lost) = (t.d, t.d == Some(WINDOW));
        t.d = match t.d {
            Some(d) if d < WINDOW => Some(d + 1),
            _ => None,
        };
        let _ = old;
        let f = move |p: P| match p {
            P::R(k) if k + 1 > WINDOW => P::Past,
            P::R(k) => P::R(k + 1),
            P::S(j) if lost && j >= 3 => P::R(WINDOW + 1 - j),
            p => p,
        };
        t.cells.iter_mut().for_each(|c| shift(c, &f));
        match &mut t.sp {
            Sp::Over(_, p) => *p = f(*p),
            Sp::Done(p, q) => {
                *p = f(*p);
                *q = f(*q)
            }
            _ => {}
        }
    }
    /// the token starts k characters before the read head
    fn anchor(&self, t: &mut T, k: usize) {
        let u = t.clone();
        t.d = Some(k);
        t.head = [None; 3];
        let d = k;
        let f = move |p: P| match u.rel(p) {
            Some(r) if r <= 0 => {
                let k = (-r) as usize;
                if k <= d {
                    P::S(d - k)
                } else if k <= WINDOW {
                    P::R(k)
                } else {
                    P::Past
                }
            }
            Some(_) => P::Bad,
            None => match p {
                P::S(_) => P::Past,
                p => p,
            },
        };
        t.cells.iter_mut().for_each(|c| shift(c, &f));
        match &mut t.sp {
            Sp::Over(_, p) => *p = f(*p),
            Sp::Done(p, q) => {
                *p = f(*p);
                *q = f(*q)
            }
            _ => {}
        }
    }
    /// the automaton takes the symbol that was read last (None: end of input)
    fn feed(&self, t: T, sym: Option<usize>) -> Vec<T> {
        let dfa = self.dfa;
        match (&t.sp, sym) {
            (Sp::None | Sp::Over(..) | Sp::Invalid | Sp::Eof | Sp::Done(..), _) => vec![t],
            (Sp::In(q), None) => {
                let q = *q;
                let mut t = t;
                match dfa.acc[q as usize] {
                    _ if q == 0 => t.sp = Sp::Eof,
                    Some(i) if dfa.pats[i].token.is_none() && !dfa.pats[i].invalid => {
                        self.anchor(&mut t, 0);
                        t.sp = Sp::Eof
                    }
                    Some(_) => t.sp = Sp::Over(q, t.pos(0)),
                    None => t.sp = Sp::Invalid,
                }
                vec![t]
            }
            (Sp::In(q), Some(s)) => {
                let mut by: BTreeMap<Option<u16>, CS> = BTreeMap::new();
                for c in t.set(s).iter() {
                    let e = by.entry(dfa.delta[*q as usize][c]).or_insert(CS::NONE);
                    *e = e.or(CS::one(c))
                }
                let q = *q;
                let mut out = vec![];
                for (to, cs) in by {
                    let mut u = t.clone();
                    u.sets[s] = cs;
                    match to {
                        Some(n) => {
                            u.sp = match dfa.acc[n as usize] {
                                Some(i) if dfa.pats[i].invalid => Sp::Invalid,
                                _ => Sp::In(n),
                            };
                            out.push(u)
                        }
                        None => match dfa.acc[q as usize] {
                            Some(i) if dfa.pats[i].token.is_none() => {
                                // something skipped ends before this character
                                self.anchor(&mut u, 1);
                                u.sp = Sp::In(0);
                                out.extend(self.feed(u, Some(s)))
                            }
                            Some(_) => {
                                u.sp = Sp::Over(q, u.pos(1));
                                out.push(u)
                            }
                            None => {
                                u.sp = Sp::Invalid;
                                out.push(u)
                            }
                        },
                    }
                }
                out
            }
            // -- COPY data --
            (Sp::Blank | Sp::Data | Sp::Nl | Sp::Bs | Sp::Dot, None) => {
                let mut t = t;
                if t.sp == Sp::Blank {
                    self.anchor(&mut t, 0)
                }
                t.sp = if t.sp == Sp::Dot { Sp::Done(t.pos(2), t.pos(0)) } else { Sp::Done(t.pos(0), t.pos(0)) };
                vec![t]
            }
            (Sp::Blank | Sp::Data | Sp::Nl | Sp::Bs | Sp::Dot, Some(s)) => {
                let nl = CS::one(10);
                let blank = CS::one(32).or(CS::one(9)).or(CS::one(12)).or(CS::one(13));
                let (bs, dot) = (CS::one('\\' as usize), CS::one('.' as usize));
                let cases: Vec<(CS, u8)> = match t.sp {
                    Sp::Blank => vec![(blank, 0), (nl, 1), (blank.or(nl).not(), 2)],
                    Sp::Nl => vec![(bs, 4), (nl, 3), (bs.or(nl).not(), 5)],
                    Sp::Bs => vec![(dot, 6), (nl, 3), (dot.or(nl).not(), 5)],
                    Sp::Dot => vec![(nl, 7), (nl.not(), 5)],
                    _ => vec![(nl, 3), (nl.not(), 5)],
                };
                let mut out = vec![];
                for (cs, a) in cases {
                    let mut u = t.clone();
                    u.sets[s] = u.sets[s].and(cs);
                    if u.sets[s].empty() {
                        continue;
                    }
                    match a {
                        0 | 1 => self.anchor(&mut u, 0),
                        2 => self.anchor(&mut u, 1),
                        _ => {}
                    }
                    u.sp = match a {
                        0 => Sp::Blank,
                        1 | 3 => Sp::Nl,
                        4 => Sp::Bs,
                        6 => Sp::Dot,
                        7 => Sp::Done(u.pos(3), u.pos(0)),
                        _ => Sp::Data,
                    };
                    out.push(u)
                }
                out
            }
            // -- literals --
            (Sp::Plain, None) => vec![t],
            (Sp::Quote | Sp::Esc, None) => vec![],
            (Sp::Plain | Sp::Quote | Sp::Esc, Some(s)) => {
                let own = match self.job {
                    Job::Decode(c) => CS::one(c as usize),
                    _ => CS::NONE,
                };
                let bs = CS::one('\\' as usize);
                let special = CS::one('\'' as usize).or(CS::one('"' as usize)).or(bs);
                let cases: Vec<(CS, u8)> = match t.sp {
                    Sp::Plain => vec![(own, 0), (bs, 1), (own.or(bs).not(), 2)],
                    Sp::Quote => vec![(own, 3)],
                    _ => vec![(special, 2), (special.not(), 4)],
                };
                let mut out = vec![];
                for (cs, a) in cases {
                    let mut u = t.clone();
                    u.sets[s] = u.sets[s].and(cs);
                    if u.sets[s].empty() {
                        continue;
                    }
                    let mut ok = true;
                    match a {
                        2 => ok = self.owe(&mut u, Ok(s)),
                        3 => ok = self.owe(&mut u, Err(own.single().map(|c| c as u8 as char).unwrap_or('\''))),
                        4 => ok = self.owe(&mut u, Err('\\')) && self.owe(&mut u, Ok(s)),
                        _ => {}
                    }
                    u.sp = match a {
                        0 => Sp::Quote,
                        1 => Sp::Esc,
                        _ => Sp::Plain,
                    };
                    if !ok {
                        u.sp = Sp::Done(P::Bad, P::Bad)
                    }
                    out.push(u)
                }
                out
            }
        }
    }
    fn same(&self, t: &T, a: Result<usize, char>, b: Result<usize, char>) -> bool {
        if a == b {
            return true;
        }
        let one = |x: Result<usize, char>| match x {
            Ok(s) => t.set(s).single(),
            Err(c) => Some(c as usize),
        };
        one(a).is_some() && one(a) == one(b)
    }
    /// the decoded text goes on with this; false if the code pushed something else
    fn owe(&self, t: &mut T, x: Result<usize, char>) -> bool {
        if t.lead && !t.queue.is_empty() {
            let y = t.queue.remove(0);
            return self.same(t, x, y);
        }
        t.lead = false;
        t.queue.push(x);
        t.queue.len() <= 4
    }
    fn push(&self, t: &mut T, x: Result<usize, char>) -> bool {
        if !t.lead && !t.queue.is_empty() {
            let y = t.queue.remove(0);
            return self.same(t, x, y);
        }
        t.lead = true;
        t.queue.push(x);
        true
    }
    /// read one character; the flag says whether anything new was read
    fn next_char(&mut self, t: T, cell: usize, path: &[usize]) -> Vec<(T, Option<(P, usize)>, bool)> {
        let at = match self.get(&t, cell, path) {
            L::Cur(p) => p,
            _ => return vec![],
        };
        let r = match t.rel(at) {
            Some(r) if r <= 0 => (-r) as usize,
            _ => {
                let w = self.whose(&t);
                self.finding("MODEL", format!("{} reads further back than the analysis follows", w));
                return vec![];
            }
        };
        if r > 0 {
            if r > t.tape.len() {
                let w = self.whose(&t);
                self.finding("MODEL", format!("{} reads further back than the analysis follows", w));
                return vec![];
            }
            let s = t.tape[t.tape.len() - r];
            let mut u = t;
            let (p, n) = (u.pos(r), u.pos(r - 1));
            self.put(&mut u, cell, path, L::Cur(n));
            return vec![(u, Some((p, s)), false)];
        }
        let mut out = vec![];
        // the end
        let was = t.ended;
        let mut u = t.clone();
        u.ended = true;
        if was {
            return vec![(u, None, false)];
        }
        for mut v in self.feed(u, None) {
            let n = v.pos(0);
            self.put(&mut v, cell, path, L::Cur(n));
            out.push((v, None, true))
        }
        let mut u = t;
        let s = u.sets.len();
        u.sets.push(CS::ALL.and(u.excl.not()));
        self.advance(&mut u, s);
        let (p, n) = (u.pos(1), u.pos(0));
        let _ = p;
        self.put(&mut u, cell, path, L::Cur(n));
        for mut v in self.feed(u, Some(s)) {
            let (p, n) = (v.pos(1), v.pos(0));
            self.put(&mut v, cell, path, L::Cur(n));
            out.push((v, Some((p, s)), true))
        }
        out
    }

    /// states in which the table has each value
    fn split(&self, t: &T, s: usize, f: &dyn Fn(usize) -> Option<i128>) -> Vec<(T, Option<i128>)> {
        let mut by: BTreeMap<Option<i128>, CS> = BTreeMap::new();
        for c in t.set(s).iter() {
            let e = by.entry(f(c)).or_insert(CS::NONE);
            *e = e.or(CS::one(c))
        }
        by.into_iter()
            .map(|(k, cs)| {
                let mut u = t.clone();
                u.sets[s] = cs;
                (u, k)
            })
            .collect()
    }
    fn as_dec(&self, t: &T, v: &L) -> Option<(P, P)> {
        match v {
            L::Dec(a, b) => Some((*a, *b)),
            L::Tab(s, tab) => {
                let ok = t.set(*s).iter().all(|c| c < 128 && (c as u8).is_ascii_digit() && tab[c] == Some(c as i128 - 48));
                let k = t.tape.iter().rev().position(|x| x == s)?;
                if ok { Some((t.pos(k + 1), t.pos(k))) } else { None }
            }
            _ => None,
        }
    }
    /// comparison of the number of bytes between two positions
    fn far(&self, t: &T, x: P, y: P, op: &str, n: i128) -> L {
        // so many bytes at least; exactly so many
        let (mut min, mut max) = (0, None);
        if t.le(y, x) == Some(false) {
            min = 1
        }
        if let (Some(a), Some(b)) = (t.rel(x), t.rel(y)) {
            if a <= b {
                min = (b - a) as i128;
                max = if t.bytes(x, min) == y { Some(min) } else { Some(4 * min) }
            }
        }
        let all: Vec<bool> = match max {
            Some(m) if m - min <= 64 => (min..=m).map(|v| compare(op, v, n).unwrap_or(false)).collect(),
            _ => match op {
                "Lt" | "Ge" if n <= min => vec![op == "Ge"],
                "Le" | "Gt" if n < min => vec![op == "Gt"],
                "Eq" | "Ne" if n < min => vec![op == "Ne"],
                _ => vec![],
            },
        };
        match all.first() {
            Some(r) if all.iter().all(|x| x == r) => L::Int(*r as i128),
            _ => L::Top,
        }
    }
    /// values of a function of one character, for every kind of character
    fn each(&mut self, v: &L) -> Option<Rc<Vec<Option<i128>>>> {
        let (f, own) = match v {
            L::Fn(f) => (*f, None),
            L::Adt(ty, _, up) if !up.iter().any(|x| matches!(x, L::Ref(..))) => match &pg().pr.types[*ty].kind {
                TyKind::Closure { body: Some(b), .. } => (*b, Some(v.clone())),
                _ => return None,
            },
            L::RefVal(v) => return self.each(&v.clone()),
            _ => return None,
        };
        if let Some(r) = self.each.get(&(f, own.clone())) {
            return r.clone();
        }
        let gf = pg().f(f);
        let n = own.is_some() as usize;
        if !gf.has_body || gf.argc != n + 1 {
            return None;
        }
        let is_ref = |i: usize| gf.inputs.get(i).map(|t| matches!(pg().pr.types[*t].kind, TyKind::Ref { .. })).unwrap_or(false);
        let byte = gf.inputs.get(n).map(|t| width(match &pg().pr.types[*t].kind {
            TyKind::Ref { to, .. } => *to,
            _ => *t,
        }).0 == 8).unwrap_or(false);
        let mut out = vec![];
        for c in 0..129 {
            let mut lx = Lx::new(self.dfa, Job::Pure);
            let ch = L::Char(0);
            let ch = if byte && c < 128 { L::Int(c as i128) } else if byte { L::Top } else { ch };
            let mut args = vec![];
            let mut cells = vec![];
            if let Some(o) = &own {
                if is_ref(0) {
                    cells.push(o.clone());
                    args.push(L::Ref(0, vec![]))
                } else {
                    args.push(o.clone())
                }
            }
            args.push(if is_ref(n) { L::RefVal(Box::new(ch)) } else { ch });
            let mut t = lx.start(f, args, cells, None);
            t.sets = vec![CS::one(c)];
            let mut vs: BTreeSet<Option<i128>> = BTreeSet::new();
            for (_, v) in lx.explore(t) {
                vs.insert(match &v {
                    L::Int(i) => Some(*i),
                    v => tab_of(v).and_then(|x| x.1[c]),
                });
            }
            if !lx.r.findings.is_empty() {
                vs.insert(None);
                self.r.findings.extend(lx.r.findings);
                self.hit = true
            }
            self.r.unmodelled.extend(lx.r.unmodelled);
            self.r.edges += lx.r.edges;
            self.r.functions.extend(lx.r.functions);
            out.push(if vs.len() == 1 { vs.into_iter().next().unwrap() } else { None })
        }
        let r = Some(Rc::new(out));
        self.each.insert((f, own), r.clone());
        r
    }
    /// the kinds of characters for which a pattern or predicate is true, and those for which it is false
    fn pred(&mut self, t: &T, v: &L) -> Option<(CS, CS)> {
        let of = |f: &dyn Fn(usize) -> Option<bool>| {
            let (mut y, mut n) = (CS::NONE, CS::NONE);
            for c in 0..129 {
                match f(c) {
                    Some(true) => y = y.or(CS::one(c)),
                    Some(false) => n = n.or(CS::one(c)),
                    None => {}
                }
            }
            Some((y, n))
        };
        match v {
            L::Int(i) => {
                let i = *i;
                of(&|c| if c < 128 { Some(c as i128 == i) } else if i < 128 { Some(false) } else { None })
            }
            L::Txt(Txt::Const(s)) if s.chars().count() == 1 => self.pred(t, &L::Int(s.chars().next().unwrap() as i128)),
            L::Tup(x) if x.iter().all(|x| matches!(x, L::Int(_))) => of(&|c| {
                let has = x.iter().any(|x| *x == L::Int(c as i128));
                if c < 128 { Some(has) } else if x.iter().any(|x| matches!(x, L::Int(i) if *i >= 128)) { None } else { Some(false) }
            }),
            L::Ref(c, q) => {
                let v = self.get(t, *c, q);
                if matches!(v, L::Ref(..)) { None } else { self.pred(t, &v) }
            }
            L::RefVal(v) if !matches!(**v, L::Ref(..)) => self.pred(t, &v.clone()),
            v => {
                let tab = self.each(v)?;
                of(&|c| tab[c].map(|v| v != 0))
            }
        }
    }
    /// binary operation
    fn bin(&mut self, t: &T, op: &str, a: &L, b: &L, ty: TyId) -> Vec<(T, L)> {
        let one = |v: L| vec![(t.clone(), v)];
        let cmp = compare(op, 0, 0).is_some();
        match (a, b) {
            (L::Int(x), L::Int(y)) => {
                if let Some(r) = compare(op, *x, *y) {
                    return one(L::Int(r as i128));
                }
                let (w, s) = width(ty);
                return one(arith(op, *x, *y, w, s).map(L::Int).unwrap_or(L::Top));
            }
            (L::Pos(x), L::Pos(y)) if cmp => {
                let (le, ge) = (t.le(*x, *y), t.le(*y, *x));
                let r = match op {
                    "Le" => le,
                    "Ge" => ge,
                    "Lt" => ge.map(|x| !x),
                    "Gt" => le.map(|x| !x),
                    _ => match (le, ge) {
                        (Some(a), Some(b)) => Some((a && b) == (op == "Eq")),
                        (Some(false), _) | (_, Some(false)) => Some(op == "Ne"),
                        _ => None,
                    },
                };
                return one(r.map(|r| L::Int(r as i128)).unwrap_or(L::Top));
            }
            (L::Pos(x), L::Pos(y)) if (op == "Sub" || op == "SubUnchecked") && t.le(*y, *x) == Some(true) => return one(L::Diff(*y, *x)),
            (L::Diff(x, y), L::Int(n)) if cmp => return one(self.far(t, *x, *y, op, *n)),
            (L::Int(n), L::Diff(x, y)) if cmp => {
                let op = match op {
                    "Lt" => "Gt",
                    "Gt" => "Lt",
                    "Le" => "Ge",
                    "Ge" => "Le",
                    o => o,
                };
                return one(self.far(t, *x, *y, op, *n));
            }
            // no part of the text is longer than the text
            (L::Diff(_, y), L::Pos(q)) if matches!(op, "Le" | "Gt") && t.le(*y, *q) == Some(true) => return one(L::Int((op == "Le") as i128)),
            (L::Pos(q), L::Diff(_, y)) if matches!(op, "Ge" | "Lt") && t.le(*y, *q) == Some(true) => return one(L::Int((op == "Ge") as i128)),
            (L::Pos(x), L::Int(n)) if op == "Add" || op == "AddUnchecked" => return one(L::Pos(t.bytes(*x, *n))),
            (L::Int(n), L::Pos(x)) if op == "Add" || op == "AddUnchecked" => return one(L::Pos(t.bytes(*x, *n))),
            (L::Pos(x), L::Int(n)) if op == "Sub" || op == "SubUnchecked" => return one(L::Pos(t.bytes(*x, -*n))),
            (L::Pos(x), L::Len8(s)) | (L::Len8(s), L::Pos(x)) if op == "Add" || op == "AddUnchecked" => {
                return one(if t.at(*x) == Some(*s) { L::Pos(t.pos((-t.rel(*x).unwrap() - 1) as usize)) } else { L::Pos(P::Bad) });
            }
            _ => {}
        }
        if op == "Add" {
            for (x, y) in [(a, b), (b, a)] {
                if let (L::Dec10(p, q), Some((r, s))) = (x, self.as_dec(t, y)) {
                    if t.norm(*q) == t.norm(r) {
                        return one(L::Dec(*p, s));
                    }
                }
            }
        }
        if op == "Mul" {
            for (x, y) in [(a, b), (b, a)] {
                if let (Some((p, q)), L::Int(10)) = (self.as_dec(t, x), y) {
                    return one(L::Dec10(p, q));
                }
            }
        }
        // two characters: one of them from a few
        if let (true, L::Char(s), L::Char(r)) = (cmp, a, b) {
            if s != r {
                let few = |s: usize| t.set(s).and(CS::NONASCII).empty() && t.set(s).iter().count() <= 8;
                let (x, flip) = if few(*s) { (*s, false) } else { (*r, true) };
                if few(x) {
                    let mut out = vec![];
                    for (u, c) in self.split(t, x, &|c| Some(c as i128)) {
                        let c = L::Int(c.unwrap_or(0));
                        out.extend(if flip { self.bin(&u, op, a, &c, ty) } else { self.bin(&u, op, &c, b, ty) })
                    }
                    return out;
                }
            }
        }
        // functions of one character
        let (sym, f): (usize, Box<dyn Fn(usize) -> Option<i128>>) = match (tab_of(a), tab_of(b), a, b) {
            (Some((s, x)), None, _, L::Int(y)) => {
                let y = *y;
                let chr = matches!(a, L::Char(_));
                let op = op.to_string();
                let (w, sg) = width(ty);
                (s, Box::new(move |c| match x[c] {
                    Some(v) => compare(&op, v, y).map(|r| r as i128).or_else(|| arith(&op, v, y, w, sg)),
                    // any character beyond ASCII
                    None if chr && y < 128 => compare(&op, 128, y).map(|r| r as i128),
                    None => None,
                }))
            }
            (None, Some((s, x)), L::Int(y), _) => {
                let y = *y;
                let chr = matches!(b, L::Char(_));
                let op = op.to_string();
                let (w, sg) = width(ty);
                (s, Box::new(move |c| match x[c] {
                    Some(v) => compare(&op, y, v).map(|r| r as i128).or_else(|| arith(&op, y, v, w, sg)),
                    None if chr && y < 128 => compare(&op, y, 128).map(|r| r as i128),
                    None => None,
                }))
            }
            (Some((s, x)), Some((r, y)), _, _) if s == r => {
                let op = op.to_string();
                let (w, sg) = width(ty);
                (s, Box::new(move |c| match (x[c], y[c]) {
                    (Some(v), Some(u)) => compare(&op, v, u).map(|r| r as i128).or_else(|| arith(&op, v, u, w, sg)),
                    _ => None,
                }))
            }
            _ => return one(L::Top),
        };
        if cmp {
            self.split(t, sym, &*f).into_iter().map(|(u, v)| (u, v.map(L::Int).unwrap_or(L::Top))).collect()
        } else {
            one(L::Tab(sym, Rc::new((0..129).map(|c| f(c)).collect())))
        }
    }

    fn rvalue(&mut self, t: T, base: usize, r: &Rvalue, dty: TyId) -> Vec<(T, L)> {
        let p = pg();
        let v = match r {
            Rvalue::Use(o) => self.op(&t, base, o),
            Rvalue::Ref { place, .. } | Rvalue::AddrOf { place, .. } => match self.addr(&t, base, place) {
                Ok((c, q)) => L::Ref(c, q),
                Err(L::Top) => L::Top,
                Err(v @ L::Txt(_)) => v,
                Err(v) => L::RefVal(Box::new(v)),
            },
            Rvalue::Agg(AggKind::Tuple | AggKind::Array(..), ops) => L::Tup(ops.iter().map(|o| self.op(&t, base, o)).collect()),
            Rvalue::Agg(AggKind::Adt { ty, variant, .. }, ops) => {
                let mut f: Vec<L> = ops.iter().map(|o| self.op(&t, base, o)).collect();
                if self.job == Job::Seg {
                    self.segment(&t, *ty, *variant, &f)
                }
                if p.path(*ty) == "alloc::borrow::Cow" && f.len() == 1 { f.pop().unwrap() } else { L::Adt(*ty, *variant, f) }
            }
            Rvalue::Agg(AggKind::Closure(ty), ops) => L::Adt(*ty, 0, ops.iter().map(|o| self.op(&t, base, o)).collect()),
            Rvalue::Discr(pl) => match self.read(&t, base, pl) {
                L::Adt(ty, v, _) => L::Int(p.adt(ty).map(|a| a.variants[v].discr).unwrap_or(v as i128)),
                _ => L::Top,
            },
            Rvalue::Un(op, o) => match (op.as_str(), self.op(&t, base, o)) {
                ("Not", L::Int(i)) if width(dty).0 == 1 => L::Int(1 - i),
                ("Not", L::Tab(s, x)) if width(dty).0 == 1 => L::Tab(s, Rc::new(x.iter().map(|v| v.map(|v| 1 - v)).collect())),
                ("Neg", L::Int(i)) => L::Int(-i),
                ("PtrMetadata", L::Txt(Txt::Whole)) => L::Pos(P::End),
                ("PtrMetadata", L::Txt(Txt::Const(s))) => L::Int(s.len() as i128),
                _ => L::Top,
            },
            Rvalue::Cast(k, o, to) => match self.op(&t, base, o) {
                v @ (L::Char(_) | L::Tab(..)) => {
                    let (w, s) = width(*to);
                    if matches!(v, L::Char(_)) && w >= 32 {
                        v
                    } else {
                        let (y, x) = tab_of(&v).unwrap();
                        L::Tab(y, Rc::new(x.into_iter().map(|v| v.filter(|v| *v != NA).map(|v| wrap(v, w, s))).collect()))
                    }
                }
                L::Int(i) => {
                    let (w, s) = width(*to);
                    L::Int(wrap(i, w, s))
                }
                v @ (L::Dec(..) | L::Pos(_)) if width(*to).0 >= 64 => v,
                v @ (L::Ref(..) | L::RefVal(_) | L::Txt(_)) => v,
                L::Dec(..) => L::Top,
                v if k.contains("Transmute") => v,
                _ => L::Top,
            },
            Rvalue::Bin(op, a, b) => {
                let (a, b) = (self.op(&t, base, a), self.op(&t, base, b));
                return self.bin(&t, op, &a, &b, dty);
            }
            Rvalue::CheckedBin(op, a, b) => {
                let (a, b) = (self.op(&t, base, a), self.op(&t, base, b));
                let ty = match &p.pr.types[dty].kind {
                    TyKind::Tuple(x) if !x.is_empty() => x[0],
                    _ => dty,
                };
                let (w, s) = width(ty);
                return self
                    .bin(&t, op, &a, &b, ty)
                    .into_iter()
                    .map(|(u, v)| {
                        let o = match (&a, &b, &v) {
                            (L::Int(x), L::Int(y), _) => arith(op, *x, *y, 127, true).map(|r| (wrap(r, w, s) != r) as i128),
                            // positions stay within the text
                            (_, _, L::Pos(q)) if *q != P::Bad => Some(0),
                            (_, _, L::Diff(..)) => Some(0),
                            (_, _, L::Tab(y, _)) => {
                                let n = |v: &L, c: usize| match v {
                                    L::Int(i) => Some(*i),
                                    v => tab_of(v).and_then(|x| x.1[c]),
                                };
                                if u.set(*y).iter().all(|c| match (n(&a, c), n(&b, c)) {
                                    (Some(x), Some(y)) => arith(op, x, y, 127, true).map(|r| wrap(r, w, s) == r).unwrap_or(false),
                                    _ => false,
                                }) {
                                    Some(0)
                                } else {
                                    None
                                }
                            }
                            _ => None,
                        };
                        (u, L::Tup(vec![v, o.map(L::Int).unwrap_or(L::Top)]))
                    })
                    .collect();
            }
            Rvalue::Len(_) | Rvalue::Repeat(..) | Rvalue::ThreadLocal(_) | Rvalue::Other(_) | Rvalue::Agg(..) => L::Top,
        };
        vec![(t, v)]
    }

    /// run one block of the innermost function
    fn step(&mut self, t: T) -> Vec<Next> {
        let p = pg();
        let fr = t.frames.last().unwrap().clone();
        let fun = p.f(fr.f);
        if fun.local {
            self.r.functions.insert(p.short_of(fun));
        }
        let blk = &fun.blocks[fr.bb];
        let mut cur = vec![t];
        for (s, _) in &blk.stmts {
            match s {
                Stmt::Assign(d, r) => {
                    let dty = p.type_of_place(fun, d);
                    let mut n = vec![];
                    for t in cur {
                        for (mut u, v) in self.rvalue(t, fr.base, r, dty) {
                            self.write(&mut u, fr.base, d, v);
                            n.push(u)
                        }
                    }
                    cur = n
                }
                Stmt::Dead(l) => cur.iter_mut().for_each(|t| {
                    if fr.base + l < t.cells.len() {
                        t.cells[fr.base + l] = L::Top
                    }
                }),
                Stmt::SetDiscr(..) => {
                    self.finding("MODEL", format!("{} sets a discriminant", p.short_of(fun)));
                }
                _ => {}
            }
        }
        let go = |mut t: T, b: usize| {
            t.frames.last_mut().unwrap().bb = b;
            Next::Go(t, false)
        };
        let mut out = vec![];
        for t in cur {
            match &blk.term {
                Term::Goto(b) | Term::Drop { target: b, .. } => out.push(go(t, *b)),
                Term::Assert { cond, expected, target, msg, .. } => match self.op(&t, fr.base, cond) {
                    L::Int(i) if (i == 1) == *expected => out.push(go(t, *target)),
                    c => {
                        let w = self.whose(&t);
                        self.finding("PANIC", format!("{} can panic: {}", w, msg.split('(').next().unwrap_or(msg)));
                        if !matches!(c, L::Int(_)) {
                            out.push(go(t, *target))
                        }
                    }
                },
                Term::Return => {
                    let v = t.cells[fr.base].clone();
                    let mut u = t;
                    u.cells.truncate(fr.base);
                    u.frames.pop();
                    match (u.frames.last().is_some(), fr.ret) {
                        (true, Some(b)) => {
                            let d = fr.dest.clone();
                            self.put(&mut u, d.0, &d.1, v);
                            u.frames.last_mut().unwrap().bb = b;
                            out.push(Next::Go(u, false))
                        }
                        (false, _) => out.push(Next::Return(u, v)),
                        _ => {}
                    }
                }
                Term::Switch { discr, arms, otherwise, .. } => match self.op(&t, fr.base, discr) {
                    L::Int(i) => {
                        let b = arms.iter().find(|a| a.0 as i128 == i).map(|a| a.1).unwrap_or(*otherwise);
                        out.push(go(t, b))
                    }
                    v @ (L::Char(_) | L::Tab(..)) => {
                        let (s, tab) = tab_of(&v).unwrap();
                        let chr = matches!(v, L::Char(_));
                        let mut cases: BTreeMap<usize, CS> = BTreeMap::new();
                        for c in t.set(s).iter() {
                            let mut to = vec![];
                            match tab[c] {
                                Some(NA) => {
                                    to.push(*otherwise);
                                    to.extend(arms.iter().filter(|a| a.0 >= 128).map(|a| a.1))
                                }
                                Some(x) => to.push(arms.iter().find(|a| a.0 as i128 == x).map(|a| a.1).unwrap_or(*otherwise)),
                                None => {
                                    to.push(*otherwise);
                                    to.extend(arms.iter().filter(|a| !chr || a.0 >= 128).map(|a| a.1))
                                }
                            }
                            for b in to {
                                let e = cases.entry(b).or_insert(CS::NONE);
                                *e = e.or(CS::one(c))
                            }
                        }
                        for (b, cs) in cases {
                            let mut u = t.clone();
                            u.sets[s] = cs;
                            out.push(go(u, b))
                        }
                    }
                    _ => {
                        let mut to: BTreeSet<usize> = arms.iter().map(|a| a.1).collect();
                        to.insert(*otherwise);
                        for b in to {
                            out.push(go(t.clone(), b))
                        }
                    }
                },
                Term::Call { callee: Callee::Fn(g), args, dest, target, .. } => {
                    let vals: Vec<L> = args.iter().map(|a| self.op(&t, fr.base, a)).collect();
                    out.extend(self.call(t, &fr, *g, vals, dest, *target))
                }
                Term::Call { .. } => {
                    let w = self.whose(&t);
                    self.finding("MODEL", format!("{} calls through a pointer", w))
                }
                _ => {}
            }
        }
        out
    }
    fn call(&mut self, t: T, fr: &Frame, g: FnId, vals: Vec<L>, dest: &Place, target: Option<usize>) -> Vec<Next> {
        let p = pg();
        let gf = p.f(g);
        let to = match target {
            Some(b) => b,
            None => {
                let w = self.whose(&t);
                self.finding("PANIC", format!("{} can panic: {}", w, gf.path));
                return vec![];
            }
        };
        let path = gf.path.as_str();
        let ti = gf.trait_item.as_deref().unwrap_or("");
        let done = |me: &mut Self, rs: Vec<(T, L)>, moved: bool| -> Vec<Next> {
            rs.into_iter()
                .map(|(mut u, v)| {
                    me.write(&mut u, fr.base, dest, v);
                    u.frames.last_mut().unwrap().bb = to;
                    Next::Go(u, moved)
                })
                .collect()
        };
        let deref = |me: &Self, t: &T, v: &L| match v {
            L::Ref(c, q) => me.get(t, *c, q),
            L::RefVal(v) => (**v).clone(),
            v => v.clone(),
        };
        let dty = p.type_of_place(p.f(fr.f), dest);
        let some = |v: L| L::Adt(dty, 1, vec![v]);
        let none = || L::Adt(dty, 0, vec![]);
        let name = path.rsplit("::").next().unwrap_or("");
        // reading
        if ti == "core::iter::Iterator::next" && !gf.local {
            let c = deref(self, &t, &vals[0]);
            if let (L::Ref(cell, q), L::CurC(w)) = (&vals[0], &c) {
                let mut t = t;
                let mut i = w.chars();
                let v = i.next().map(|c| some(L::Int(c as i128))).unwrap_or(none());
                self.put(&mut t, *cell, q, L::CurC(i.as_str().to_string()));
                return done(self, vec![(t, v)], false);
            }
            if let (L::Ref(cell, q), L::Cur(_)) = (&vals[0], &c) {
                let idx = path.contains("CharIndices");
                let mut out = vec![];
                for (u, r, moved) in self.next_char(t, *cell, q) {
                    let v = match r {
                        None => none(),
                        Some((at, s)) if idx => some(L::Tup(vec![L::Pos(at), L::Char(s)])),
                        Some((_, s)) => some(L::Char(s)),
                    };
                    out.extend(done(self, vec![(u, v)], moved))
                }
                return out;
            }
        }
        // whether there is a character like this in the text
        if matches!(ti, "core::iter::Iterator::any" | "core::iter::Iterator::all" | "core::iter::Iterator::position" | "core::iter::Iterator::find") && !gf.local && vals.len() == 2 && t.tape.is_empty() {
            let c = deref(self, &t, &vals[0]);
            let whole = match &c {
                L::Cur(q) => matches!(self.job, Job::Decode(_)) && t.rel(*q) == Some(0),
                L::All(Txt::Whole, _) => true,
                _ => false,
            };
            if whole {
                let (y, n) = self.pred(&t, &vals[1]).unwrap_or((CS::NONE, CS::NONE));
                let mut no = t.clone();
                no.excl = no.excl.or(if name == "all" { n } else { y });
                let mut t = t;
                if let L::Ref(cell, q) = &vals[0] {
                    self.put(&mut t, *cell, q, L::Top);
                    self.put(&mut no, *cell, q, L::Top)
                }
                let rs = match name {
                    "any" => vec![(t, L::Int(1)), (no, L::Int(0))],
                    "all" => vec![(t, L::Int(0)), (no, L::Int(1))],
                    _ => vec![(t, some(L::Top)), (no, none())],
                };
                return done(self, rs, false);
            }
        }
        // every character in upper case
        if !gf.local && matches!(ti, "core::iter::Iterator::map" | "core::iter::Iterator::collect" | "core::iter::FromIterator::from_iter") {
            if let Some(L::All(x, byte)) = vals.first().cloned() {
                if name == "map" && vals.len() == 2 {
                    let up = self.each(&vals[1]).map(|tab| (0..129).all(|c| tab[c] == Some(if c < 128 { (c as u8).to_ascii_uppercase() as i128 } else { NA }))).unwrap_or(false);
                    if up && !byte {
                        return done(self, vec![(t, L::All(Txt::Upper(Box::new(x)), false))], false);
                    }
                }
                if name != "map" && !byte && p.path(gf.output) == "alloc::string::String" {
                    return done(self, vec![(t, L::Txt(x))], false);
                }
            }
        }
        // a function given as a value
        if matches!(ti, "core::ops::FnOnce::call_once" | "core::ops::FnMut::call_mut" | "core::ops::Fn::call") {
            if let (L::Fn(h), Some(L::Tup(x))) = (deref(self, &t, &vals[0]), vals.get(1)) {
                let x = x.clone();
                if h != g {
                    return self.call(t, fr, h, x, dest, target);
                }
            }
        }
        if !gf.local && ti == "core::clone::Clone::clone" {
            let v = deref(self, &t, &vals[0]);
            if !matches!(v, L::Adt(..)) || !gf.has_body || self.job == Job::Seg {
                return done(self, vec![(t, v)], false);
            }
        }
        if self.job == Job::Seg && ti == "span::Spanned::span" {
            let mut v = deref(self, &t, &vals[0]);
            while let L::Ref(..) | L::RefVal(_) = v {
                v = deref(self, &t, &v)
            }
            match v {
                L::Int(i) if i >= GIVEN => return done(self, vec![(t, given((i - GIVEN) as usize))], false),
                L::Adt(ty, ..) if ty == p.range => return done(self, vec![(t, v)], false),
                _ => {}
            }
        }
        // keywords
        if gf.local && ti == "core::convert::From::from" && gf.output == p.kw && self.job != Job::Pure {
            let v = match deref(self, &t, &vals[0]) {
                L::Txt(x) => L::Kw(x),
                _ => L::Top,
            };
            return done(self, vec![(t, v)], false);
        }
        let txt = |v: &L| match v {
            L::Txt(x) => Some(x.clone()),
            _ => None,
        };
        if !gf.local {
            let a0 = vals.first().map(|v| deref(self, &t, v)).unwrap_or(L::Top);
            let x0 = txt(&a0).or_else(|| match &a0 {
                L::RefVal(v) => txt(v),
                _ => None,
            });
            match (name, &x0) {
                ("len", Some(Txt::Whole)) if path.contains("str") || path.contains("[T]") => return done(self, vec![(t, L::Pos(P::End))], false),
                ("len", Some(Txt::Const(s))) => {
                    let n = s.len() as i128;
                    return done(self, vec![(t, L::Int(n))], false);
                }
                ("as_bytes" | "as_str" | "as_ref" | "deref" | "borrow" | "to_string" | "to_owned" | "as_mut_str", Some(x)) => {
                    let v = L::Txt(x.clone());
                    return done(self, vec![(t, v)], false);
                }
                ("from_utf8", Some(x)) => {
                    // of a slice between characters
                    let bad = matches!(x, Txt::Slice(a, b) if *a == P::Bad || *b == P::Bad);
                    let mut rs = vec![(t.clone(), L::Adt(dty, 0, vec![L::Txt(x.clone())]))];
                    if bad {
                        rs.push((t, L::Adt(dty, 1, vec![L::Top])))
                    }
                    return done(self, rs, false);
                }
                ("from_utf8_unchecked", Some(x)) => {
                    let v = L::Txt(x.clone());
                    return done(self, vec![(t, v)], false);
                }
                ("to_ascii_uppercase", Some(x)) => {
                    let v = L::Txt(Txt::Upper(Box::new(x.clone())));
                    return done(self, vec![(t, v)], false);
                }
                ("char_indices" | "chars", Some(Txt::Whole)) => {
                    let at = if self.job == Job::Lex || self.job == Job::Data { t.pos(0) } else { P::R(0) };
                    let _ = at;
                    let v = L::Cur(t.pos(0));
                    return done(self, vec![(t, v)], false);
                }
                ("chars", Some(Txt::Const(w))) => {
                    let v = L::CurC(w.clone());
                    return done(self, vec![(t, v)], false);
                }
                ("contains" | "find" | "rfind", Some(Txt::Whole)) if vals.len() == 2 => {
                    let (yes, _) = self.pred(&t, &vals[1]).unwrap_or((CS::NONE, CS::NONE));
                    let mut no = t.clone();
                    if no.tape.is_empty() {
                        no.excl = no.excl.or(yes)
                    }
                    let rs = if name == "contains" { vec![(t, L::Int(1)), (no, L::Int(0))] } else { vec![(t, some(L::Top)), (no, none())] };
                    return done(self, rs, false);
                }
                ("len", Some(Txt::Slice(a, b))) => {
                    let v = L::Diff(*a, *b);
                    return done(self, vec![(t, v)], false);
                }
                ("is_empty", Some(Txt::Slice(a, b))) => {
                    let v = self.far(&t, *a, *b, "Eq", 0);
                    return done(self, vec![(t, v)], false);
                }
                ("chars", Some(x @ (Txt::Slice(..) | Txt::Upper(_)))) => {
                    let v = L::All(x.clone(), false);
                    return done(self, vec![(t, v)], false);
                }
                ("bytes" | "iter", Some(x)) => {
                    let v = L::All(x.clone(), true);
                    return done(self, vec![(t, v)], false);
                }
                ("make_ascii_uppercase", Some(x)) => {
                    if let L::Ref(c, q) = &vals[0] {
                        let mut t = t;
                        let v = L::Txt(Txt::Upper(Box::new(x.clone())));
                        self.put(&mut t, *c, q, v);
                        return done(self, vec![(t, L::Tup(vec![]))], false);
                    }
                }
                ("is_empty", Some(Txt::Whole)) => {
                    return done(self, vec![(t.clone(), L::Int(1)), (t, L::Int(0))], false);
                }
                ("eq" | "ne", Some(Txt::Const(a))) if vals.len() == 2 => {
                    let b = deref(self, &t, &vals[1]);
                    let b = if let L::RefVal(b) = b { *b } else { b };
                    if let L::Txt(Txt::Const(b)) = b {
                        let r = (*a == b) == (name == "eq");
                        return done(self, vec![(t, L::Int(r as i128))], false);
                    }
                }
                _ => {}
            }
            // slices
            let range = |v: &L| -> Option<(Option<L>, Option<L>)> {
                match v {
                    L::Adt(ty, _, f) => match (p.path(*ty).rsplit("::").next().unwrap_or(""), f.len()) {
                        ("Range", 2) => Some((Some(f[0].clone()), Some(f[1].clone()))),
                        ("RangeFrom", 1) => Some((Some(f[0].clone()), None)),
                        ("RangeTo", 1) => Some((None, Some(f[0].clone()))),
                        ("RangeFull", _) => Some((None, None)),
                        _ => None,
                    },
                    _ => None,
                }
            };
            if (ti == "core::ops::Index::index" || matches!(name, "get" | "get_unchecked")) && vals.len() == 2 {
                if let (Some(x), Some((a, b))) = (&x0, range(&vals[1])) {
                    self.r.slices += 1;
                    let pos = |v: Option<L>, d: P| match v {
                        None => d,
                        Some(L::Pos(p)) => p,
                        Some(L::Int(0)) => P::Past,
                        _ => P::Bad,
                    };
                    let (a, b) = (t.norm(pos(a, P::Past)), t.norm(pos(b, P::End)));
                    let ok = *x == Txt::Whole && a != P::Bad && b != P::Bad && t.le(a, b) == Some(true);
                    let w = self.whose(&t);
                    if !ok && name != "get" {
                        self.finding("PANIC", format!("{} can slice the text out of order, out of bounds or inside a character", w));
                    }
                    let v = L::Txt(if *x == Txt::Whole { Txt::Slice(a, b) } else { return self.unknown(t, fr, g, &vals, dest, to) });
                    let rs = if name == "get" {
                        let mut rs = vec![(t.clone(), some(v))];
                        if !ok {
                            rs.push((t, none()))
                        }
                        rs
                    } else {
                        vec![(t, v)]
                    };
                    return done(self, rs, false);
                }
            }
            match (name, vals.len()) {
                ("to_digit", 2) if vals[1] == L::Int(10) => {
                    if let L::Char(s) = a0 {
                        let mut rs = vec![];
                        for (u, d) in self.split(&t, s, &|c| if c < 128 && (c as u8).is_ascii_digit() { Some(1) } else { Some(0) }) {
                            let v = if d == Some(1) { some(L::Tab(s, Rc::new((0..129).map(|c| if c < 128 { Some(c as i128 - 48) } else { None }).collect()))) } else { none() };
                            rs.push((u, v))
                        }
                        return done(self, rs, false);
                    }
                }
                ("checked_mul" | "checked_add", 2) => {
                    let op = if name == "checked_mul" { "Mul" } else { "Add" };
                    let mut rs = vec![];
                    for (u, v) in self.bin(&t, op, &vals[0], &vals[1], gf.output) {
                        let mut o = u.clone();
                        o.ovf = true;
                        rs.push((u, some(v)));
                        rs.push((o, none()))
                    }
                    return done(self, rs, false);
                }
                ("len_utf8", 1) => {
                    if let L::Char(s) = a0 {
                        return done(self, vec![(t, L::Len8(s))], false);
                    }
                }
                ("is_alphabetic" | "is_alphanumeric" | "is_numeric" | "is_whitespace" | "is_uppercase" | "is_lowercase" | "is_control", 1) => {
                    if let L::Char(s) = a0 {
                        let n = name.to_string();
                        let f = move |c: usize| {
                            if c >= 128 {
                                return None;
                            }
                            let c = c as u8 as char;
                            Some(match n.as_str() {
                                "is_alphabetic" => c.is_alphabetic(),
                                "is_alphanumeric" => c.is_alphanumeric(),
                                "is_numeric" => c.is_numeric(),
                                "is_whitespace" => c.is_whitespace(),
                                "is_uppercase" => c.is_uppercase(),
                                "is_lowercase" => c.is_lowercase(),
                                _ => c.is_control(),
                            } as i128)
                        };
                        let rs = self.split(&t, s, &f).into_iter().map(|(u, v)| (u, v.map(L::Int).unwrap_or(L::Top))).collect();
                        return done(self, rs, false);
                    }
                }
                ("to_ascii_uppercase" | "to_ascii_lowercase", 1) => {
                    if let L::Char(s) = a0 {
                        let up = name == "to_ascii_uppercase";
                        let tab = (0..129).map(|c| if c < 128 { Some((if up { (c as u8).to_ascii_uppercase() } else { (c as u8).to_ascii_lowercase() }) as i128) } else { Some(NA) }).collect();
                        return done(self, vec![(t, L::Tab(s, Rc::new(tab)))], false);
                    }
                }
                _ => {}
            }
            // growing strings
            if path.starts_with("alloc::string::String::") {
                match name {
                    "new" | "with_capacity" => return done(self, vec![(t, L::Buf)], false),
                    "push" if a0 == L::Buf => {
                        let mut t = t;
                        let x = match &vals[1] {
                            L::Char(s) => Some(Ok(*s)),
                            L::Int(i) => char::from_u32(*i as u32).map(Err),
                            _ => None,
                        };
                        let ok = x.map(|x| self.push(&mut t, x)).unwrap_or(false);
                        if !ok || t.queue.len() > 4 {
                            t.sp = Sp::Done(P::Bad, P::Bad)
                        }
                        return done(self, vec![(t, L::Tup(vec![]))], false);
                    }
                    "push_str" if a0 == L::Buf => {
                        if let L::Txt(Txt::Const(s)) = deref(self, &t, &vals[1]) {
                            let mut t = t;
                            for c in s.chars() {
                                if !self.push(&mut t, Err(c)) {
                                    t.sp = Sp::Done(P::Bad, P::Bad)
                                }
                            }
                            return done(self, vec![(t, L::Tup(vec![]))], false);
                        }
                    }
                    "reserve" => return done(self, vec![(t, L::Tup(vec![]))], false),
                    _ => {}
                }
            }
            if matches!(ti, "core::convert::From::from" | "core::convert::Into::into") && (!gf.has_body || p.path(gf.output) == "alloc::borrow::Cow") && matches!(a0, L::Buf | L::Txt(_)) && vals.len() == 1 {
                return done(self, vec![(t, a0)], false);
            }
            if name == "assume" || name == "precondition_check" || name == "size_hint" {
                return done(self, vec![(t, L::Top)], false);
            }
        }
        let into = self.job != Job::Seg || gf.local || path.starts_with("core::option::Option::") || ti.starts_with("core::ops::F");
        if gf.has_body && !gf.blocks.is_empty() && t.frames.len() < 40 && into {
            let mut vals = vals.clone();
            if gf.is_closure || vals.len() != gf.argc {
                if let Some(L::Tup(x)) = vals.last().cloned() {
                    if vals.len() == 2 && gf.argc == 1 + x.len() {
                        vals.pop();
                        vals.extend(x)
                    }
                }
            }
            if vals.len() == gf.argc {
                let mut u = t;
                let base = u.cells.len();
                u.cells.resize(base + gf.locals.len(), L::Top);
                for (i, v) in vals.into_iter().enumerate() {
                    let by_ref = matches!(p.pr.types[gf.inputs.get(i).copied().unwrap_or(gf.output)].kind, TyKind::Ref { .. });
                    let v = match v {
                        // a closure handed over by value to its body
                        v @ L::Adt(..) if gf.is_closure && i == 0 && by_ref => {
                            u.cells.push(v);
                            L::Ref(u.cells.len() - 1, vec![])
                        }
                        v => v,
                    };
                    u.cells[base + 1 + i] = v
                }
                let d = match self.addr(&u, fr.base, dest) {
                    Ok(d) => d,
                    Err(_) => return self.unknown(u, fr, g, &[], dest, to),
                };
                u.frames.push(Frame { f: g, bb: 0, base, dest: d, ret: Some(to) });
                return vec![Next::Go(u, false)];
            }
        }
        self.unknown(t, fr, g, &vals, dest, to)
    }
    fn unknown(&mut self, mut t: T, fr: &Frame, g: FnId, vals: &[L], dest: &Place, to: usize) -> Vec<Next> {
        let gf = pg().f(g);
        // of which it is known that they do not panic and change nothing but what is lent to them
        let name = gf.path.rsplit("::").next().unwrap_or("");
        let code = |v: &L| match v {
            L::Fn(_) => true,
            L::Adt(ty, ..) => matches!(pg().pr.types[*ty].kind, TyKind::Closure { .. }),
            _ => false,
        };
        let tame = !vals.iter().any(code) && gf.krate != "sql_parse" && TAME.contains(&name);
        if self.job != Job::Seg && !tame {
            self.r.unmodelled.insert(gf.path.clone());
        }
        for (i, v) in vals.iter().enumerate() {
            let m = gf.inputs.get(i).map(|t| matches!(pg().pr.types[*t].kind, TyKind::Ref { mutable: true, .. })).unwrap_or(false);
            if let (L::Ref(c, q), true) = (v, m) {
                self.put(&mut t, *c, q, L::Top)
            }
        }
        self.write(&mut t, fr.base, dest, L::Top);
        t.frames.last_mut().unwrap().bb = to;
        vec![Next::Go(t, false)]
    }

    /// forget what no longer matters, so that equal states look equal
    fn tidy(&mut self, t: &mut T) {
        if let Some(fr) = t.frames.last().cloned() {
            let inf = self.info(fr.f);
            let n = pg().f(fr.f).locals.len();
            for l in 1..n {
                if !inf.live_in[fr.bb][l] && !inf.addr[l] {
                    t.cells[fr.base + l] = L::Top
                }
            }
        }
        // a character that can only be one (digits keep their place)
        for i in 0..t.cells.len() {
            let mut c = std::mem::replace(&mut t.cells[i], L::Top);
            known(&mut c, &|s| t.sets[s].single().filter(|c| !(*c as u8).is_ascii_digit()));
            t.cells[i] = c
        }
        let u = t.clone();
        let f = |p: P| u.norm(p);
        t.cells.iter_mut().for_each(|c| shift(c, &f));
        // symbols in use
        let mut used: HashSet<usize> = HashSet::new();
        for c in t.cells.iter_mut() {
            syms(c, &mut |s| {
                used.insert(*s);
            })
        }
        for x in &t.queue {
            if let Ok(s) = x {
                used.insert(*s);
            }
        }
        for j in 0..3 {
            if let Some(s) = t.at(P::S(j)) {
                let cs = t.sets[s];
                t.head[j] = match (cs.and(CS::ASCII).empty(), cs.and(CS::NONASCII).empty()) {
                    (false, true) => Some(true),
                    (true, _) => Some(false),
                    _ => None,
                }
            }
        }
        // how far back anything refers
        let mut back = 0;
        let mut far = |p: P| {
            if let Some(r) = u.rel(p) {
                if r <= 0 {
                    back = back.max((-r) as usize + 1)
                }
            }
        };
        for c in &t.cells {
            places(c, &mut far)
        }
        if let Sp::Over(_, p) | Sp::Done(_, p) = &t.sp {
            far(*p)
        }
        if let Sp::Done(p, _) = &t.sp {
            far(*p)
        }
        if let Some(k) = t.tape.iter().position(|s| used.contains(s)) {
            back = back.max(t.tape.len() - k)
        }
        if t.tape.len() > back {
            t.tape.drain(..t.tape.len() - back);
        }
        for s in t.tape.clone().into_iter() {
            if !used.contains(&s) {
                let cs = t.sets[s];
                t.sets[s] = match (cs.and(CS::ASCII).empty(), cs.and(CS::NONASCII).empty()) {
                    (false, true) => CS::ASCII,
                    (true, _) => CS::NONASCII,
                    _ => CS::ALL,
                }
            }
        }
        // renumber
        let mut map: HashMap<usize, usize> = HashMap::new();
        let mut sets = vec![];
        let old = t.sets.clone();
        let mut f = |s: &mut usize| {
            let k = map.len();
            let e = *map.entry(*s).or_insert_with(|| {
                sets.push(old[*s]);
                k
            });
            *s = e
        };
        t.tape.iter_mut().for_each(&mut f);
        t.queue.iter_mut().for_each(|x| {
            if let Ok(s) = x {
                f(s)
            }
        });
        t.cells.iter_mut().for_each(|c| syms(c, &mut f));
        t.sets = sets
    }
    /// everything reachable from a state; the states the outermost function returns in
    fn explore(&mut self, t0: T) -> Vec<(T, L)> {
        let mut ids: HashMap<T, usize> = HashMap::new();
        let mut edges: Vec<Vec<usize>> = vec![];
        let mut funs: Vec<FnId> = vec![];
        let mut todo = vec![];
        let mut t0 = t0;
        self.tidy(&mut t0);
        ids.insert(t0.clone(), 0);
        edges.push(vec![]);
        funs.push(t0.frames.last().unwrap().f);
        todo.push((t0, 0usize));
        let mut out: Vec<(T, L)> = vec![];
        let mut seen: HashSet<(T, L)> = HashSet::new();
        while let Some((t, i)) = todo.pop() {
            self.steps += 1;
            if std::env::var("SA_TRACE").is_ok() && self.steps % 1000 == 0 {
                eprintln!("{} {:?} cells {} syms {} tape {} q {}", ids.len(), t.frames.iter().map(|f| pg().short(f.f)).collect::<Vec<_>>(), t.cells.len(), t.sets.len(), t.tape.len(), t.queue.len());
                if self.steps % 10000 == 0 { eprintln!("{:?}", t) }
            }
            // enough has been found
            if self.job != Job::Seg && self.r.states + ids.len() > 500_000 && !self.r.findings.is_empty() {
                break;
            }
            if ids.len() > if self.job == Job::Seg { 3000 } else { 400_000 } {
                self.made.push(Some(format!("{} makes an issue where the analysis cannot follow", self.what)));
                self.finding("MODEL", format!("{}: too many states", self.what));
                break;
            }
            for n in self.step(t) {
                let n = match n {
                    // the decoded text is wrong already
                    Next::Go(u, _) if matches!(u.sp, Sp::Done(P::Bad, P::Bad)) => Next::Return(u, L::Buf),
                    n => n,
                };
                match n {
                    Next::Return(mut u, v) => {
                        // the value rides along so that symbols are renumbered with it
                        u.cells.push(v);
                        self.tidy(&mut u);
                        let v = u.cells.pop().unwrap();
                        if seen.insert((u.clone(), v.clone())) {
                            out.push((u, v))
                        }
                    }
                    Next::Go(mut u, moved) => {
                        self.tidy(&mut u);
                        self.r.edges += 1;
                        let k = ids.len();
                        let fu = u.frames.last().unwrap().f;
                        let id = match ids.get(&u) {
                            Some(i) => *i,
                            None => {
                                ids.insert(u.clone(), k);
                                edges.push(vec![]);
                                funs.push(fu);
                                todo.push((u, k));
                                k
                            }
                        };
                        if !moved {
                            edges[i].push(id)
                        }
                    }
                }
            }
        }
        self.r.states += ids.len();
        // a cycle that reads nothing
        let comp = crate::cfg::sccs(&edges);
        let mut size: HashMap<usize, usize> = HashMap::new();
        for c in &comp {
            *size.entry(*c).or_insert(0) += 1
        }
        for i in 0..edges.len() {
            if size[&comp[i]] > 1 || edges[i].contains(&i) {
                let f = self.what.clone();
                let _ = funs[i];
                self.finding("LOOP", format!("{} can go round a loop without reading on", f))
            }
        }
        out
    }
    fn start(&self, f: FnId, args: Vec<L>, cells: Vec<L>, t: Option<T>) -> T {
        let gf = pg().f(f);
        let mut t = t.unwrap_or(T {
            frames: vec![],
            cells: vec![],
            tape: vec![],
            sets: vec![],
            ended: false,
            d: Some(0),
            head: [None; 3],
            sp: Sp::None,
            ovf: false,
            excl: CS::NONE,
            queue: vec![],
            lead: false,
            copied: false,
        });
        t.cells = cells;
        let base = t.cells.len();
        t.cells.resize(base + gf.locals.len(), L::Top);
        for (i, a) in args.into_iter().enumerate() {
            t.cells[base + 1 + i] = a
        }
        t.frames = vec![Frame { f, bb: 0, base, dest: (0, vec![]), ret: None }];
        t
    }
    /// something that holds a span and a text is made
    fn segment(&mut self, t: &T, ty: TyId, var: usize, f: &[L]) {
        let p = pg();
        let (a, fields) = match p.adt(ty) {
            Some(a) if a.local => (a, &a.variants[var].fields),
            _ => return,
        };
        let text = fields.iter().position(|f| is_str(f.ty));
        let Some(i) = text else { return };
        let n = format!("{}.{}", a.path, fields[i].name);
        let w = self.whose(t);
        if makes(ty) {
            let Some(j) = fields.iter().position(|f| f.ty == p.range) else { return };
            let ok = match (&f[i], &f[j]) {
                (L::Txt(Txt::Slice(x, y)), L::Adt(_, _, r)) => r.len() == 2 && r[0] == L::Pos(*x) && r[1] == L::Pos(*y),
                _ => false,
            };
            self.made.push(if ok { None } else { Some(format!("{} gives {} a text that need not be the one at its span", w, n)) })
        } else if holds_source(ty) {
            self.made.push(if f[i] == L::Txt(Txt::Whole) { None } else { Some(format!("{} gives {} something other than the text parsed", w, n)) })
        }
    }
    /// an arbitrary value
    fn any(&self, ty: TyId, depth: usize, src: bool, n: &mut usize, cells: &mut Vec<L>) -> L {
        let p = pg();
        if ty == p.range {
            *n += 1;
            return given(*n);
        }
        match &p.pr.types[ty].kind {
            TyKind::Ref { .. } if is_str(ty) => if src { L::Txt(Txt::Whole) } else { L::Top },
            TyKind::Ref { to, .. } if depth < 4 => {
                let v = self.any(*to, depth + 1, src, n, cells);
                cells.push(v);
                L::Ref(cells.len() - 1, vec![])
            }
            TyKind::Adt(a) if a.local && a.kind == AdtKind::Struct && !p.ast[ty] && depth < 4 => {
                let src = holds_source(ty);
                L::Adt(ty, 0, a.variants[0].fields.iter().map(|f| self.any(f.ty, depth + 1, src, n, cells)).collect())
            }
            _ => {
                // whatever has a span
                *n += 1;
                L::Int(GIVEN + *n as i128)
            }
        }
    }
    /// C07: issues and their fragments hold the text at their span
    fn segments(&mut self) {
        let p = pg();
        self.job = Job::Seg;
        let mut callers: HashMap<FnId, Vec<FnId>> = HashMap::new();
        for f in 0..p.pr.fns.len() {
            if p.f(f).local {
                for g in crate::cfg::callees(p, f) {
                    callers.entry(g).or_default().push(f)
                }
            }
        }
        let mut done: BTreeSet<FnId> = BTreeSet::new();
        let mut todo: Vec<(FnId, usize, BTreeSet<String>)> = vec![];
        for f in 0..p.pr.fns.len() {
            let fun = p.f(f);
            if !fun.local {
                continue;
            }
            for b in fun.blocks.iter().filter(|b| !b.cleanup) {
                for (s, _) in &b.stmts {
                    if let Stmt::Assign(d, r) = s {
                        if let Rvalue::Agg(AggKind::Adt { ty, .. }, _) = r {
                            if (makes(*ty) || holds_source(*ty)) && fun.trait_item.as_deref() != Some("core::clone::Clone::clone") {
                                todo.push((f, 0, BTreeSet::new()))
                            }
                        }
                        // a field changed later
                        if let [init @ .., Proj::Field(_, ft)] = &d.proj[..] {
                            let of = p.type_of_place(fun, &Place { local: d.local, proj: init.to_vec() });
                            if (makes(of) && (*ft == p.range || is_str(*ft))) || (holds_source(of) && is_str(*ft)) {
                                self.finding("C07", format!("{} changes the span or text of {} after it was made", p.short(f), p.path(of)))
                            }
                        }
                    }
                }
            }
        }
        while let Some((f, up, first)) = todo.pop() {
            if !done.insert(f) {
                continue;
            }
            let fun = p.f(f);
            let held = fun.inputs.iter().any(|t| reaches_source(*t, 0));
            let mut cells = vec![];
            let mut n = 0;
            let mut args: Vec<L> = vec![];
            for i in &fun.inputs {
                let v = self.any(*i, 0, !held, &mut n, &mut cells);
                args.push(v)
            }
            self.what = p.short(f);
            self.made.clear();
            let before = self.r.findings.clone();
            let t = self.start(f, args, cells, None);
            self.explore(t);
            // other rules judge the rest
            self.r.findings = before;
            let bad: BTreeSet<String> = self.made.iter().flatten().cloned().collect();
            if bad.is_empty() && !self.made.is_empty() {
                *self.r.makers.entry(p.short(f)).or_insert(0) += self.made.len();
                continue;
            }
            // what was wrong before looking at the callers
            let first = if first.is_empty() { bad.clone() } else { first };
            match callers.get(&f) {
                Some(c) if up < 2 && (!bad.is_empty() || fun.is_closure) => todo.extend(c.iter().map(|g| (*g, up + 1, first.clone()))),
                _ if first.is_empty() => {
                    self.r.findings.insert(("C07".into(), format!("{} makes an issue where the analysis cannot follow", p.short(f))));
                }
                _ => first.into_iter().for_each(|b| {
                    self.r.findings.insert(("C07".into(), b));
                }),
            }
        }
    }
    /// values of a function for given arguments
    pub fn pure(&mut self, f: FnId, args: Vec<L>) -> Vec<L> {
        self.what = pg().short(f);
        let t = self.start(f, args, vec![], None);
        // most often there is nothing to decide
        let mut u = t.clone();
        for _ in 0..100_000 {
            let mut ns = self.step(u);
            self.r.edges += 1;
            match (ns.len(), ns.pop()) {
                (1, Some(Next::Go(n, _))) => u = n,
                (1, Some(Next::Return(_, v))) => return vec![v],
                _ => break,
            }
        }
        let mut v: Vec<L> = vec![];
        for (_, x) in self.explore(t) {
            if !v.contains(&x) {
                v.push(x)
            }
        }
        v
    }
}

fn returns_one(f: &Func, inputs: &[&dyn Fn(TyId) -> bool]) -> bool {
    f.inputs.len() == inputs.len() && f.inputs.iter().zip(inputs).all(|(t, p)| p(*t))
}

/// arbitrary values that may have a span
const FREE: usize = 1000;
const GIVEN: i128 = 1 << 40;
fn given(i: usize) -> L {
    L::Adt(pg().range, 0, vec![L::Pos(P::S(FREE + 2 * i)), L::Pos(P::S(FREE + 1 + 2 * i))])
}
fn is_str(t: TyId) -> bool {
    matches!(&pg().pr.types[t].kind, TyKind::Ref { to, .. } if matches!(pg().pr.types[*to].kind, TyKind::Str))
}
/// an issue or a part of one
fn makes(t: TyId) -> bool {
    t == pg().issue || pg().path(t) == "issue::Fragment"
}
/// the text that was parsed, next to the issues made for it
fn holds_source(t: TyId) -> bool {
    match pg().adt(t) {
        Some(a) if a.local && a.kind == AdtKind::Struct && !makes(t) => a.variants[0].fields.iter().any(|f| is_str(f.ty)) && a.variants[0].fields.iter().any(|f| reaches_issue(f.ty, 0)),
        _ => false,
    }
}
fn reaches_issue(t: TyId, depth: usize) -> bool {
    makes(t)
        || depth < 4
            && match &pg().pr.types[t].kind {
                TyKind::Ref { to, .. } => reaches_issue(*to, depth + 1),
                TyKind::Adt(a) if !a.local => a.args.iter().any(|x| reaches_issue(*x, depth + 1)),
                _ => false,
            }
}
fn reaches_source(t: TyId, depth: usize) -> bool {
    holds_source(t)
        || depth < 4
            && match &pg().pr.types[t].kind {
                TyKind::Ref { to, .. } => reaches_source(*to, depth + 1),
                TyKind::Adt(a) if a.local && a.kind == AdtKind::Struct && !pg().ast[t] => a.variants[0].fields.iter().any(|f| reaches_source(f.ty, depth + 1)),
                _ => false,
            }
}

/// the functions of the lexer: constructor, next token, data
struct Anchors {
    new: FnId,
    next: FnId,
    data: Option<FnId>,
    names: Vec<FnId>,
    kw_from: Option<FnId>,
}
fn anchors() -> Result<Anchors, String> {
    let p = pg();
    let lx = p.lexer;
    let is_mut = |t: TyId| matches!(&p.pr.types[t].kind, TyKind::Ref { mutable: true, to } if *to == lx);
    let is_str = |t: TyId| matches!(&p.pr.types[t].kind, TyKind::Ref { to, .. } if matches!(p.pr.types[*to].kind, TyKind::Str));
    let locals: Vec<FnId> = (0..p.pr.fns.len()).filter(|f| p.f(*f).local && p.f(*f).has_body && !p.f(*f).is_closure).collect();
    let pair = |t: TyId, ok: &dyn Fn(TyId) -> bool| matches!(&p.pr.types[t].kind, TyKind::Tuple(e) if e.len() == 2 && ok(e[0]) && e[1] == p.range);
    let inherent = |f: &FnId| p.f(*f).trait_item.is_none();
    let new: Vec<FnId> = locals.iter().copied().filter(|f| inherent(f) && p.f(*f).output == lx && returns_one(p.f(*f), &[&is_str])).collect();
    // called from outside the lexer
    let outside = |f: FnId| (0..p.pr.fns.len()).any(|g| p.f(g).local && !p.f(g).inputs.first().map(|t| is_mut(*t)).unwrap_or(false) && crate::cfg::callees(p, g).contains(&f));
    let next: Vec<FnId> = locals.iter().copied().filter(|f| inherent(f) && returns_one(p.f(*f), &[&is_mut]) && pair(p.f(*f).output, &|t| t == p.tok) && outside(*f)).collect();
    let data: Vec<FnId> = locals.iter().copied().filter(|f| inherent(f) && returns_one(p.f(*f), &[&is_mut]) && pair(p.f(*f).output, &is_str) && outside(*f)).collect();
    let names = locals.iter().copied().filter(|f| inherent(f) && is_str(p.f(*f).output) && p.f(*f).inputs.len() == 1).filter(|f| matches!(&p.pr.types[p.f(*f).inputs[0]].kind, TyKind::Ref { to, .. } if *to == p.tok || *to == p.kw)).collect();
    let kw_from = locals.iter().copied().find(|f| p.f(*f).trait_item.as_deref() == Some("core::convert::From::from") && p.f(*f).output == p.kw);
    match (&new[..], &next[..]) {
        ([n], [x]) => Ok(Anchors { new: *n, next: *x, data: data.first().copied(), names, kw_from }),
        _ => Err(format!("anchor missing: the constructor of the lexer ({} found) or the function that gives the next token ({} found)", new.len(), next.len())),
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Role {
    New,
    Next,
    Data,
}
/// what a function of the lexer is for
pub fn role(f: FnId) -> Option<Role> {
    static A: std::sync::OnceLock<Result<(FnId, FnId, Option<FnId>), String>> = std::sync::OnceLock::new();
    match A.get_or_init(|| anchors().map(|a| (a.new, a.next, a.data))) {
        Ok((n, _, _)) if *n == f => Some(Role::New),
        Ok((_, n, _)) if *n == f => Some(Role::Next),
        Ok((_, _, d)) if *d == Some(f) => Some(Role::Data),
        _ => None,
    }
}
/// what the automaton wants returned
fn expected(dfa: &Dfa, t: &T) -> Result<Option<(usize, P)>, String> {
    match &t.sp {
        Sp::Over(q, p) => match dfa.acc[*q as usize] {
            Some(i) => Ok(Some((i, *p))),
            None => Err("inside a token".into()),
        },
        Sp::In(q) => match dfa.acc[*q as usize] {
            Some(i) if dfa.last[*q as usize] && dfa.pats[i].token.is_some() => Ok(Some((i, t.pos(0)))),
            Some(i) => Err(format!("after {} without looking whether the token goes on", dfa.pats[i].token.as_deref().unwrap_or("white space or a comment"))),
            None => Err("in the middle of a token".into()),
        },
        _ => Ok(None),
    }
}

pub fn all(pats: &[Pat], names: &BTreeMap<String, String>, words: &BTreeMap<String, Vec<String>>, decoders: &[(String, Vec<Option<String>>, usize, char)]) -> LexR {
    let p = pg();
    let dfa = Dfa::new(pats);
    let mut lx = Lx::new(&dfa, Job::Lex);
    lx.r.patterns = pats.len();
    lx.r.dfa_states = dfa.delta.len();
    let a = match anchors() {
        Ok(a) => a,
        Err(e) => {
            lx.finding("MODEL", e);
            return lx.r;
        }
    };
    // -- the tokenizer, from every state it can be left in --
    lx.what = p.short(a.new);
    let t = lx.start(a.new, vec![L::Txt(Txt::Whole)], vec![], None);
    let mut seen: HashSet<T> = HashSet::new();
    let mut todo: Vec<T> = vec![];
    let mut outs = vec![];
    for (mut t, v) in lx.explore(t) {
        t.cells = vec![v];
        t.sp = Sp::In(0);
        lx.anchor(&mut t, 0);
        lx.tidy(&mut t);
        outs.push(t)
    }
    let mut n = 0;
    while let Some(t) = outs.pop() {
        if seen.insert(t.clone()) {
            todo.push(t)
        }
        while let Some(t) = todo.pop() {
            n += 1;
            if n > 300 || lx.r.states > 4_000_000 {
                lx.finding("MODEL", "the lexer can be left in too many states".into());
                todo.clear();
                outs.clear();
                break;
            }
            for (f, job) in [(Some(a.next), Job::Lex), (a.data, Job::Data)] {
                let f = match f {
                    Some(f) => f,
                    None => continue,
                };
                lx.job = job;
                lx.what = p.short(f);
                // what has been read ahead is read again by the automaton
                for t in rescan(&lx, t.clone(), if job == Job::Lex { Sp::In(0) } else { Sp::Blank }) {
                    let lexer = t.cells[0].clone();
                    let t = lx.start(f, vec![L::Ref(0, vec![])], vec![lexer], Some(t));
                    for (t, v) in lx.explore(t) {
                        lx.hit = false;
                        let next = outcome(&mut lx, t, v, job);
                        // nothing follows from a state that is wrong already
                        if !lx.hit {
                            outs.extend(next)
                        }
                    }
                }
            }
        }
    }
    lx.r.lexer_states = seen.len();
    for u in lx.r.unmodelled.clone() {
        let _ = u;
    }
    // -- literals --
    for (f, extra, arg, quote) in decoders {
        let id = match (0..p.pr.fns.len()).find(|g| p.f(*g).local && p.f(*g).inst == *f) {
            Some(g) => g,
            None => continue,
        };
        lx.job = Job::Decode(*quote);
        lx.what = format!("{} for {}", p.short(id), quote);
        let args = (0..p.f(id).argc)
            .map(|i| {
                if i == *arg {
                    L::Txt(Txt::Whole)
                } else {
                    match extra.get(i) {
                        Some(Some(s)) => s.parse().map(L::Int).unwrap_or(L::Top),
                        _ => L::Top,
                    }
                }
            })
            .collect();
        let mut t = lx.start(id, args, vec![], None);
        t.sp = Sp::Plain;
        t.d = None;
        let rs = lx.explore(t);
        let w = lx.what.clone();
        lx.r.decoders.insert(w.clone(), rs.len());
        if rs.is_empty() {
            lx.finding("C13", format!("{} never returns", w))
        }
        for (t, v) in rs {
            let full = |c: char| t.excl.has(c as usize);
            match v {
                L::Txt(Txt::Whole) => {
                    if !full(*quote) || !full('\\') {
                        lx.finding("C13", format!("{} gives the text unchanged although it can hold {}", w, if full(*quote) { "a backslash" } else { "its own quote" }))
                    }
                }
                L::Buf => match t.sp {
                    Sp::Plain if t.ended && t.queue.is_empty() => {}
                    Sp::Plain if t.ended => lx.finding("C13", format!("{} {}", w, if t.lead { "adds a character to the text" } else { "leaves out a character of the text" })),
                    Sp::Done(..) => lx.finding("C13", format!("{} puts a character into the text that is not the next one of it", w)),
                    _ => lx.finding("C13", format!("{} does not read the text to its end", w)),
                },
                _ => lx.finding("C13", format!("{} gives a text that is not the decoded one", w)),
            }
        }
    }
    // -- tables --
    lx.job = Job::Pure;
    tables(&mut lx, &a, names, words, pats);
    lx.segments();
    lx.r
}

fn rescan(lx: &Lx, mut t: T, sp: Sp) -> Vec<T> {
    let d = t.d.unwrap_or(0);
    let ahead: Vec<usize> = t.tape[t.tape.len() - d.min(t.tape.len())..].to_vec();
    // take the characters read ahead off the tape and put them back one at a time
    let keep = t.tape.len() - ahead.len();
    let mut ts = vec![];
    let cells = t.cells.clone();
    t.sp = sp;
    t.tape.truncate(keep);
    // positions in the lexer are kept aside: relative to the start they do not change
    t.cells = vec![];
    t.d = Some(0);
    let ended = t.ended;
    t.ended = false;
    t.ovf = false;
    ts.push(t);
    for s in ahead {
        let mut n = vec![];
        for mut t in ts {
            lx.advance(&mut t, s);
            n.extend(lx.feed(t, Some(s)))
        }
        ts = n
    }
    let mut out = vec![];
    for t in ts {
        let mut t = t;
        let mut us = vec![t.clone()];
        if ended {
            t.ended = true;
            us = lx.feed(t, None)
        }
        for mut u in us {
            u.ended = ended;
            // the anchor may have moved past something skipped
            let dd = u.d.unwrap_or(0);
            let mut c = cells.clone();
            let f = |p: P| match p {
                P::S(j) => {
                    let k = d as i64 - j as i64;
                    if k < 0 {
                        P::Bad
                    } else if k as usize <= dd {
                        P::S(dd - k as usize)
                    } else {
                        P::R(k as usize)
                    }
                }
                p => p,
            };
            c.iter_mut().for_each(|x| shift(x, &f));
            u.cells = c;
            out.push(u)
        }
    }
    out
}

/// compare what was returned with the automaton; the states the next call starts in
fn outcome(lx: &mut Lx, t: T, v: L, job: Job) -> Vec<T> {
    let p = pg();
    let dfa = lx.dfa;
    let w = lx.what.clone();
    let (first, span) = match &v {
        L::Tup(x) if x.len() == 2 => (x[0].clone(), x[1].clone()),
        _ => (L::Top, L::Top),
    };
    let (a, b) = match &span {
        L::Adt(_, _, f) if f.len() == 2 => match (&f[0], &f[1]) {
            (L::Pos(a), L::Pos(b)) => (t.norm(*a), t.norm(*b)),
            _ => (P::Bad, P::Bad),
        },
        _ => (P::Bad, P::Bad),
    };
    let text_of = |v: &L| match v {
        L::Txt(Txt::Slice(a, b)) => Some((t.norm(*a), t.norm(*b))),
        _ => None,
    };
    let end; // where the next token starts
    if job == Job::Data {
        let (e, stop) = match t.sp {
            Sp::Done(e, s) => (t.norm(e), t.norm(s)),
            _ => {
                lx.finding("C24", format!("{} ends before the data does", w));
                return vec![];
            }
        };
        *lx.r.outcomes.entry("data".into()).or_insert(0) += 1;
        if t.norm(a) != t.norm(P::S(0)) || t.norm(b) != e {
            lx.finding("C24", format!("{} gives the data a range other than its own", w));
        }
        if text_of(&first) != Some((t.norm(P::S(0)), e)) {
            lx.finding("C24", format!("{} gives data that is not the text up to the end mark", w));
        }
        end = stop
    } else {
        let got = match &first {
            L::Adt(ty, v, f) if *ty == p.tok => Some((p.adt(*ty).unwrap().variants[*v].name.clone(), f.clone())),
            _ => None,
        };
        let (name, fields) = match got {
            Some(g) => g,
            None => {
                lx.finding("C14", format!("{} gives a token the analysis cannot follow", w));
                return vec![];
            }
        };
        *lx.r.outcomes.entry(name.clone()).or_insert(0) += 1;
        let want = match (&t.sp, expected(dfa, &t)) {
            (_, Err(e)) => {
                lx.finding("C14", format!("{} gives {} {}", w, name, e));
                return vec![];
            }
            (_, Ok(x)) => x,
        };
        // the range
        let (wa, wb) = match (&t.sp, &want) {
            (Sp::Eof, _) => (t.pos(0), Some(t.pos(0))),
            (_, Some((_, e))) => (t.norm(P::S(0)), Some(t.norm(*e))),
            // how far something invalid goes is not specified
            _ => (t.norm(P::S(0)), None),
        };
        let invalid = wb.is_none();
        if t.norm(a) != wa {
            lx.finding("C07", format!("the range of {} does not start where it starts", name));
        }
        match wb {
            Some(e) if t.norm(b) != e => {
                // not its end: too long, or a neighbour's
                lx.finding("C07", format!("the range of {} does not end where it ends", name));
            }
            None if t.rel(b).is_none() || t.le(a, b) != Some(true) => lx.finding("C07", format!("the range of {} has an end the analysis cannot place", name)),
            _ => {}
        }
        let text = |v: &L, cut: (usize, usize), e: P| {
            // cut off in front and behind
            let s = t.norm(P::S(cut.0));
            let e = t.rel(e).map(|r| t.pos((-r) as usize + cut.1));
            text_of(v) == e.map(|e| (s, e))
        };
        match want {
            None if t.sp == Sp::Eof => {
                if name != "Eof" {
                    lx.finding("C14", format!("{} gives {} at the end of the text", w, name))
                }
            }
            None => {
                if name != "Invalid" {
                    lx.finding("C14", format!("{} gives {} for text that is no token", w, name))
                }
            }
            Some((i, e)) => {
                let pat = &dfa.pats[i];
                let tk = pat.token.clone().unwrap_or_default();
                if name == "Invalid" && pat.value && t.ovf {
                    // a number too large to represent
                } else if name != tk {
                    lx.finding("C14", format!("{} gives {} for {}", w, name, tk))
                } else {
                    let mut k = 0;
                    if let Some(cut) = pat.text {
                        let prop = if pat.keyword.is_some() { "C20" } else { "C13" };
                        let prop = if tk == "Integer" || tk == "Float" { "C20" } else { prop };
                        if !fields.first().map(|v| text(v, cut, e)).unwrap_or(false) {
                            lx.finding(prop, format!("the text of {} ({}) is not the one it was read from", tk, pat.re))
                        }
                        k = 1
                    }
                    match pat.keyword.as_deref() {
                        Some("upper") => {
                            let ok = match fields.get(k) {
                                Some(L::Kw(Txt::Upper(x))) => text(&L::Txt((**x).clone()), (0, 0), e),
                                _ => false,
                            };
                            if !ok {
                                lx.finding("C15", format!("the keyword of {} is not looked up by its text in upper case", tk))
                            }
                        }
                        Some(kw) => {
                            let ok = matches!(fields.get(k), Some(L::Adt(ty, v, _)) if *ty == p.kw && p.adt(*ty).unwrap().variants[*v].name == kw);
                            if !ok {
                                lx.finding("C15", format!("a quoted identifier can be taken for a keyword"))
                            }
                        }
                        None => {}
                    }
                    if pat.value {
                        let ok = match fields.get(k) {
                            Some(v) => lx.as_dec(&t, v).map(|(x, y)| t.norm(x) == t.norm(P::S(1)) && t.norm(y) == t.norm(e)).unwrap_or(false),
                            None => false,
                        };
                        if !ok {
                            lx.finding("C11", format!("the number of {} is not the one in the text", tk))
                        }
                    }
                }
            }
        }
        end = match wb {
            Some(e) => e,
            None => t.norm(b),
        };
        let s0 = t.norm(P::S(0));
        let on = match (t.rel(end), t.rel(s0)) {
            (Some(e), Some(s)) => e > s,
            // the start is out of the window
            (Some(_), None) => t.d.is_none(),
            _ => false,
        };
        if invalid && !on {
            lx.finding("LOOP", format!("{} can give Invalid without reading on", w));
            return vec![];
        }
    }
    // the next call starts there
    let k = match t.rel(end) {
        Some(r) if r <= 0 && (-r) as usize <= t.tape.len() => (-r) as usize,
        _ => {
            lx.finding("MODEL", format!("{} reads further ahead than the analysis follows", w));
            return vec![];
        }
    };
    let mut u = t.clone();
    u.cells.truncate(1);
    lx.anchor(&mut u, k);
    let _ = &mut u;
    let n = u.tape.len();
    u.tape = u.tape[n - k..].to_vec();
    u.sp = Sp::Over(0, u.pos(k));
    u.ovf = false;
    for x in u.sets.iter_mut() {
        *x = CS::ALL
    }
    lx.tidy(&mut u);
    u.sp = Sp::None;
    vec![u]
}

fn tables(lx: &mut Lx, a: &Anchors, names: &BTreeMap<String, String>, words: &BTreeMap<String, Vec<String>>, pats: &[Pat]) {
    let p = pg();
    let kws: Vec<String> = p.adt(p.kw).unwrap().variants.iter().map(|v| v.name.clone()).collect();
    let special = ["NOT_A_KEYWORD", "QUOTED_IDENTIFIER"];
    // lookup
    match a.kw_from {
        None => lx.finding("C15", "anchor missing: the function from text to keyword".into()),
        Some(f) => {
            let one = |lx: &mut Lx, s: &str| -> Option<String> {
                match &lx.pure(f, vec![L::Txt(Txt::Const(s.to_string()))])[..] {
                    [L::Adt(t, v, _)] if *t == p.kw => Some(kws[*v].clone()),
                    _ => None,
                }
            };
            for k in &kws {
                let want = if special.contains(&k.as_str()) { special[0] } else { k };
                match one(lx, k) {
                    Some(g) if g == want => lx.r.keywords += 1,
                    Some(g) => lx.finding("C15", format!("the word {} is recognised as {}", k, g)),
                    None => lx.finding("C15", format!("the word {} could not be looked up", k)),
                }
            }
            // every spelling the function knows is one of these
            let mut lits: BTreeSet<String> = BTreeSet::new();
            let fun = p.f(f);
            let mut ops: Vec<&Operand> = vec![];
            for b in &fun.blocks {
                for (s, _) in &b.stmts {
                    if let Stmt::Assign(_, r) = s {
                        match r {
                            Rvalue::Use(o) | Rvalue::Un(_, o) | Rvalue::Cast(_, o, _) => ops.push(o),
                            Rvalue::Agg(_, v) => ops.extend(v),
                            Rvalue::Bin(_, x, y) | Rvalue::CheckedBin(_, x, y) => ops.extend([x, y]),
                            _ => {}
                        }
                    }
                }
                if let Term::Call { args, .. } = &b.term {
                    ops.extend(args)
                }
            }
            for o in ops {
                if let Operand::Const(c) = o {
                    fn strs(v: &CVal, out: &mut BTreeSet<String>) {
                        match v {
                            CVal::Str(s) => {
                                out.insert(s.clone());
                            }
                            CVal::Ref(v) => strs(v, out),
                            _ => {}
                        }
                    }
                    strs(&c.val, &mut lits)
                }
            }
            for s in &lits {
                if !kws.contains(s) || special.contains(&s.as_str()) {
                    match one(lx, s).as_deref() {
                        Some("NOT_A_KEYWORD") | None => {}
                        Some(g) => lx.finding("C15", format!("the word {} is recognised as {}", s, g)),
                    }
                }
            }
            if one(lx, "no such word").as_deref() != Some("NOT_A_KEYWORD") {
                lx.finding("C15", "a word that is no keyword is recognised as one".into())
            }
            for s in kws.iter().filter(|k| !special.contains(&k.as_str())) {
                if *s != s.to_ascii_uppercase() || !s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') || s.starts_with(|c: char| c.is_ascii_digit()) {
                    lx.finding("C15", format!("no word can be spelled like the keyword {}", s))
                }
            }
        }
    }
    // names
    let reference = |v: L| L::RefVal(Box::new(v));
    for f in &a.names {
        let ty = match &p.pr.types[p.f(*f).inputs[0]].kind {
            TyKind::Ref { to, .. } => *to,
            _ => continue,
        };
        let said = |lx: &mut Lx, v: L| -> Vec<Option<String>> {
            lx.pure(*f, vec![reference(v)])
                .into_iter()
                .map(|v| match v {
                    L::Txt(Txt::Const(s)) => Some(s),
                    L::RefVal(v) => match *v {
                        L::Txt(Txt::Const(s)) => Some(s),
                        _ => None,
                    },
                    _ => None,
                })
                .collect()
        };
        if ty == p.kw {
            for (i, k) in kws.iter().enumerate() {
                lx.r.names += 1;
                let g = said(lx, L::Adt(p.kw, i, vec![]));
                if g != vec![Some(k.clone())] {
                    lx.finding("C15", format!("the keyword {} is called {:?}", k, g.into_iter().flatten().collect::<Vec<_>>()))
                }
            }
            continue;
        }
        for (i, v) in p.adt(p.tok).unwrap().variants.iter().enumerate() {
            let fields: Vec<Vec<L>> = match v.fields.iter().map(|f| f.ty).collect::<Vec<_>>()[..] {
                [] => vec![vec![]],
                [t] if width(t).0 == 64 => (1..=12).map(|i| vec![L::Int(i)]).collect(),
                [_] => vec![vec![L::Top]],
                [_, k] if k == p.kw => (0..kws.len()).map(|k| vec![L::Top, L::Adt(p.kw, k, vec![])]).collect(),
                _ => vec![vec![L::Top; v.fields.len()]],
            };
            for f in fields {
                lx.r.names += 1;
                let got = said(lx, L::Adt(p.tok, i, f.clone()));
                let ok = |w: &str| got == vec![Some(w.to_string())];
                let good = match (&f[..], names.get(&v.name)) {
                    ([L::Int(n)], Some(w)) => ok(&format!("'${}'", n)) || ok(w),
                    ([_, L::Adt(_, k, _)], _) if !special.contains(&kws[*k].as_str()) => ok(&kws[*k]),
                    ([_, L::Adt(_, k, _)], _) => names.get(&format!("{} {}", v.name, kws[*k])).map(|w| ok(w)).unwrap_or(true),
                    (_, Some(w)) => ok(w),
                    // the spelling, if there is just one
                    (_, None) => {
                        let sp: Vec<&Pat> = pats.iter().filter(|x| x.token.as_deref() == Some(&v.name)).collect();
                        got.len() == 1 && got[0].as_ref().map(|g| sp.iter().any(|x| Dfa::new(&[(*x).clone()]).accepts(g.trim_matches('\'')))).unwrap_or(false)
                    }
                };
                if !good {
                    lx.finding("C14", format!("the token {} is called {:?} in messages", v.name, got.into_iter().flatten().collect::<Vec<_>>()))
                }
            }
        }
    }
    // words with a special standing
    for (name, what) in [("reserved", "reserved"), ("expr_ident", "usable as a name in expressions")] {
        let res = (0..p.pr.fns.len()).find(|f| p.f(*f).local && p.f(*f).trait_item.is_none() && p.f(*f).path.ends_with(&format!("::{}", name)) && p.f(*f).inputs.len() == 1);
        let mut have = BTreeSet::new();
        match res {
            None => lx.finding("C15", format!("anchor missing: the function that tells which words are {}", what)),
            Some(f) => {
                for (i, k) in kws.iter().enumerate() {
                    let by_ref = matches!(p.pr.types[p.f(f).inputs[0]].kind, TyKind::Ref { .. });
                    let v = L::Adt(p.kw, i, vec![]);
                    match &lx.pure(f, vec![if by_ref { reference(v) } else { v }])[..] {
                        [L::Int(1)] => {
                            have.insert(k.clone());
                        }
                        [L::Int(0)] => {}
                        _ => lx.finding("C15", format!("whether {} is {} could not be evaluated", k, what)),
                    }
                }
                let none = vec![];
                let want: BTreeSet<String> = words.get(name).unwrap_or(&none).iter().cloned().collect();
                if !want.is_empty() {
                    for k in have.difference(&want) {
                        lx.finding("C15", format!("the word {} is {}", k, what))
                    }
                    for k in want.difference(&have) {
                        lx.finding("C15", format!("the word {} is not {}", k, what))
                    }
                }
            }
        }
        lx.r.reserved.insert(name.to_string(), have);
    }
}

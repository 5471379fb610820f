//! Abstract states: places, joins, canonical forms.
use crate::prog::*;
use crate::val::*;
use ir::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct LoopG {
    pub head: Bb,
    /// some token was lexed (or other strict progress) in this turn
    pub adv: bool,
    /// a token was buffered by look-ahead when the turn began
    pub peek0: bool,
    /// the current token was certainly not the end of input when the turn began
    pub ne0: bool,
    /// net number of elements taken from finite collections this turn
    pub dec: i8,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Ghost {
    pub adv: bool,
    pub peek0: bool,
    pub ne0: bool,
    pub iss: bool,
    /// where control depends on an option that may only change the warnings: the branch and where it ends
    pub warn: Option<(u32, u32)>,
    /// events that must not happen in a parse without Error issue; forgotten once one is recorded
    pub bad: Tags,
    /// 1: a COPY ... FROM STDIN was built whose data has not been read; 2: the data was read,
    /// 3: and a token after it, but it was not yet kept as a statement
    pub copy: u8,
    /// where the statements of a text are collected: see confine.rs
    pub conf: u8,
    /// positional arguments may have been built since entry
    pub built: bool,
    /// brackets and commas: see nest.rs
    pub nest: crate::nest::Nest,
    pub loops: Vec<LoopG>,
    /// ordered trace elements (used by the lexer and decoder analyses)
    pub trace: Vec<V>,
    /// the string literals consumed last, nothing else in between
    pub lits: Vec<V>,
    /// kinds of the tokens consumed last since entry, oldest first; anything before is unknown
    pub recent: Vec<Rec>,
    /// tokens may have been consumed between entry and the first of them
    pub cut: bool,
    /// pairs of different occurrences known to be equal tokens
    pub eqs: Vec<(Sym, Sym)>,
}

/// values of the live locals, sorted by number
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Locals(pub Vec<(u32, V)>);
static DEAD: SyncV = SyncV(V::Dead);
struct SyncV(V);
unsafe impl Sync for SyncV {}
impl std::ops::Index<usize> for Locals {
    type Output = V;
    fn index(&self, i: usize) -> &V {
        match self.0.binary_search_by_key(&(i as u32), |x| x.0) {
            Ok(j) => &self.0[j].1,
            Err(_) => &DEAD.0,
        }
    }
}
impl std::ops::IndexMut<usize> for Locals {
    fn index_mut(&mut self, i: usize) -> &mut V {
        match self.0.binary_search_by_key(&(i as u32), |x| x.0) {
            Ok(j) => &mut self.0[j].1,
            Err(j) => {
                self.0.insert(j, (i as u32, V::Dead));
                &mut self.0[j].1
            }
        }
    }
}
impl Locals {
    pub fn iter(&self) -> impl Iterator<Item = &V> {
        self.0.iter().map(|x| &x.1)
    }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = &mut V> {
        self.0.iter_mut().map(|x| &mut x.1)
    }
    pub fn kill(&mut self, i: usize) {
        if let Ok(j) = self.0.binary_search_by_key(&(i as u32), |x| x.0) {
            self.0.remove(j);
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct St {
    pub locals: Locals,
    pub cells: Vec<V>,
    pub syms: Vec<SymInfo>,
    /// first `k` symbols belong to the caller
    pub k: u32,
    pub g: Ghost,
}

pub fn cell_ty_hint() {}

impl St {
    pub fn fresh(&mut self, ks: KS, chr: bool, ord: bool) -> Sym {
        self.syms.push(SymInfo { ks, chr, ord });
        (self.syms.len() - 1) as Sym
    }
    pub fn ks(&self, s: Sym) -> KS {
        self.syms[s as usize].ks
    }
    pub fn refine(&mut self, s: Sym, ks: &KS) -> bool {
        let k = self.syms[s as usize].ks.and(ks);
        self.syms[s as usize].ks = k;
        !k.empty()
    }
    pub fn base(&self, b: Base) -> &V {
        match b {
            Base::L(i) => &self.locals[i as usize],
            Base::C(i) => &self.cells[i as usize],
        }
    }
    pub fn base_mut(&mut self, b: Base) -> &mut V {
        match b {
            Base::L(i) => &mut self.locals[i as usize],
            Base::C(i) => &mut self.cells[i as usize],
        }
    }
    pub fn get(&mut self, l: &Loc) -> V {
        let mut v = self.base(l.base).clone();
        let mut i = 0;
        while i < l.path.len() {
            // token payload: Down(variant), Field(i)
            if let (PE::Down(d), Some(PE::Field(f))) = (&l.path[i], l.path.get(i + 1)) {
                match &v {
                    V::Tok(s) => {
                        v = self.tok_payload(*s, *d as usize, *f as usize);
                        i += 2;
                        continue;
                    }
                    V::TokC(k) => {
                        let (tv, kw) = pg().kinds[*k as usize];
                        v = if tv == pg().ident && *f == 1 { V::KwC(kw as u32) } else { V::any() };
                        i += 2;
                        continue;
                    }
                    _ => {}
                }
            }
            v = self.proj(&v, &l.path[i]);
            i += 1;
        }
        v
    }
    pub fn tok_payload(&mut self, s: Sym, variant: usize, field: usize) -> V {
        let a = pg().adt(pg().tok).unwrap();
        if variant == pg().ident && field == 1 {
            return V::Kw(s);
        }
        let ty = a.variants[variant].fields[field].ty;
        match &pg().pr.types[ty].kind {
            TyKind::Ref { to, .. } if matches!(pg().pr.types[*to].kind, TyKind::Str) => {
                V::Str(Rc::new(StrV { sym: Some(s), konst: None, ks: KS::EMPTY, other: false, lit: None }))
            }
            TyKind::Int { .. } => V::Pay(s, 0),
            _ => V::any(),
        }
    }
    /// a copy of a value out of a summary: its tokens are not the same occurrence as other copies'
    pub fn unshare(&mut self, v: &V) -> V {
        if !v.has_syms() {
            return v.clone();
        }
        let mut m: BTreeMap<Sym, Sym> = BTreeMap::new();
        let mut l = vec![];
        v.each_sym(&mut |s| l.push(s));
        l.sort();
        l.dedup();
        for s in l {
            let i = self.syms[s as usize];
            m.insert(s, self.fresh(i.ks, i.chr, false));
        }
        v.map_sym(&|s| m[&s])
    }
    pub fn proj(&mut self, v: &V, pe: &PE) -> V {
        match pe {
            PE::Snap => match v {
                V::RefVal(x) => (**x).clone(),
                V::Ref(l) => {
                    let l = l.clone();
                    self.get(&l)
                }
                V::Any(t) => V::Any(t.clone()),
                V::Node(n) => V::Any(n.tags.clone()),
                x => x.clone(),
            },
            PE::Box => match v {
                V::Box(x) => (**x).clone(),
                V::Any(t) => V::Any(t.clone()),
                V::Node(n) => V::Any(n.tags.clone()),
                x => x.clone(),
            },
            PE::Field(i) => match v {
                V::Adt(a) => {
                    if a.vars.len() == 1 {
                        a.vars[0].1.get(*i as usize).cloned().unwrap_or(V::any())
                    } else {
                        let mut t = Tags::new();
                        v.tags(&mut t);
                        V::Any(t)
                    }
                }
                V::Tup(x) => x.get(*i as usize).cloned().unwrap_or(V::any()),
                V::Any(t) => V::Any(t.clone()),
                V::Node(n) => V::Any(n.tags.clone()),
                V::Box(_) => v.clone(),
                _ => V::any(),
            },
            PE::Down(d) => match v {
                V::Adt(a) => {
                    let vars: Vec<_> = a.vars.iter().filter(|x| x.0 == *d).cloned().collect();
                    V::Adt(Rc::new(AdtV { ty: a.ty, vars }))
                }
                V::Any(t) => V::Any(t.clone()),
                x => x.clone(),
            },
            PE::Elem => match v {
                V::Vec(x) => self.vec_elem(&x.clone()),
                V::Any(t) => V::Any(t.clone()),
                _ => V::any(),
            },
            PE::Idx(i) => match v {
                V::Vec(x) => match &x.exact {
                    Some(e) if (*i as usize) < e.len() => e[*i as usize].clone(),
                    _ => self.vec_elem(&x.clone()),
                },
                V::Any(t) => V::Any(t.clone()),
                _ => V::any(),
            },
            PE::From(i) => match v {
                V::Vec(x) => match &x.exact {
                    Some(e) if (*i as usize) <= e.len() => V::Vec(Rc::new(VecV { exact: Some(e[*i as usize..].to_vec()), elem: None, min: 0 })),
                    _ => {
                        let e = self.vec_elem(&x.clone());
                        V::Vec(Rc::new(VecV { exact: None, elem: Some(e), min: x.min.saturating_sub(*i as u8) }))
                    }
                },
                x => x.clone(),
            },
        }
    }
    pub fn vec_elem(&mut self, x: &VecV) -> V {
        let mut r: Option<V> = None;
        if let Some(e) = &x.exact {
            if e.len() == 1 {
                return e[0].clone();
            }
            for v in e {
                r = Some(match r {
                    None => v.clone(),
                    Some(o) => self.join_v(&o, v),
                });
            }
        } else if let Some(e) = &x.elem {
            r = Some(e.clone());
        }
        match r {
            Some(v) => self.unshare(&v),
            None => V::any(),
        }
    }
    /// join of two values inside one state
    pub fn join_v(&mut self, a: &V, b: &V) -> V {
        if a == b {
            return a.clone();
        }
        let mut j = Join { a: self.clone(), b: self.clone(), pairs: vec![], map: HashMap::new(), single: true };
        let v = j.v(a, b);
        // realise new symbols
        let pairs = j.pairs;
        let base = self.syms.len() as u32;
        for (x, y) in &pairs {
            let kx = j_ks(self, x);
            let ky = j_ks(self, y);
            let chr = matches!(x, JS::S(s) if self.syms[*s as usize].chr) || matches!(y, JS::S(s) if self.syms[*s as usize].chr);
            self.syms.push(SymInfo { ks: kx.or(&ky), chr, ord: false });
        }
        v.map_sym(&|s| base + s)
    }
    pub fn set(&mut self, l: &Loc, val: V) {
        if let ([PE::Field(i)], V::Tok(_) | V::TokC(_)) = (&l.path[..], &val) {
            if let V::Adt(a) = self.base(l.base).clone() {
                if a.ty == pg().parser && a.vars.len() == 1 && pg().token_field == Some(*i as usize) {
                    let k = match a.vars[0].1[*i as usize] {
                        V::Tok(s) => self.ks(s),
                        V::TokC(k) => KS::one(k as usize),
                        _ => pg().full(),
                    };
                    let t = a.vars[0].1[*i as usize].clone();
                    self.consumed(k);
                    self.literal(&t)
                }
            }
        }
        let mut root = std::mem::replace(self.base_mut(l.base), V::Dead);
        // follow references stored inside the path
        let r = self.set_in(&mut root, &l.path, val);
        // the write may have landed in another place through Snap; only restore when untouched
        *self.base_mut(l.base) = root;
        if let Some((l2, v)) = r {
            self.set(&l2, v)
        }
    }
    /// what may be a string literal
    pub fn lit_ks(&self, v: &V) -> bool {
        match v {
            V::Tok(s) => !self.ks(*s).empty() && self.ks(*s).subset(&pg().literals()),
            _ => false,
        }
    }
    /// the token was read
    pub fn literal(&mut self, t: &V) {
        if !self.lit_ks(t) {
            self.g.lits.clear();
            return;
        }
        self.g.lits.push(t.clone());
        if self.g.lits.len() > 2 {
            self.g.lits.remove(0);
        }
    }
    pub fn consumed(&mut self, k: KS) {
        if self.g.nest.on && !self.g.iss {
            self.g.nest.read(k)
        }
        self.g.recent.push(Rec { ks: k, opt: false });
        trim(&mut self.g)
    }
    fn set_in(&mut self, v: &mut V, path: &[PE], val: V) -> Option<(Loc, V)> {
        if path.is_empty() {
            *v = val;
            return None;
        }
        match (&path[0], &mut *v) {
            (PE::Snap, V::RefVal(x)) => return self.set_in(Rc::make_mut(x), &path[1..], val),
            (PE::Snap, V::Ref(l)) => {
                let mut l2 = (**l).clone();
                l2.path.extend(path[1..].iter().cloned());
                return Some((l2, val));
            }
            (PE::Box, V::Box(x)) => return self.set_in(Rc::make_mut(x), &path[1..], val),
            (PE::Field(0), V::Box(_)) if path.len() == 1 => {
                *v = val;
                return None;
            }
            (PE::Field(i), V::Adt(a)) => {
                let a = Rc::make_mut(a);
                if a.vars.len() == 1 {
                    if let Some(f) = a.vars[0].1.get_mut(*i as usize) {
                        return self.set_in(f, &path[1..], val);
                    }
                }
                return None;
            }
            (PE::Field(i), V::Tup(t)) => {
                let t = Rc::make_mut(t);
                if let Some(f) = t.get_mut(*i as usize) {
                    return self.set_in(f, &path[1..], val);
                }
                return None;
            }
            (PE::Down(d), V::Adt(a)) => {
                let a = Rc::make_mut(a);
                if let (Some(x), Some(PE::Field(i))) = (a.vars.iter_mut().find(|x| x.0 == *d), path.get(1)) {
                    if let Some(f) = x.1.get_mut(*i as usize) {
                        return self.set_in(f, &path[2..], val);
                    }
                }
                return None;
            }
            (PE::Elem, V::Vec(x)) | (PE::Idx(_), V::Vec(x)) => {
                let x = Rc::make_mut(x);
                if let (PE::Idx(i), Some(e)) = (&path[0], &mut x.exact) {
                    if let Some(f) = e.get_mut(*i as usize) {
                        return self.set_in(f, &path[1..], val);
                    }
                }
                // weak update
                let old = match (&x.exact, &x.elem) {
                    (Some(e), _) => {
                        let e = e.clone();
                        let min = e.len().min(VEC_MIN as usize) as u8;
                        let mut r: Option<V> = None;
                        for v in &e {
                            r = Some(match r {
                                None => v.clone(),
                                Some(o) => self.join_v(&o, v),
                            })
                        }
                        x.exact = None;
                        x.min = min;
                        r.unwrap_or(V::any())
                    }
                    (None, Some(e)) => e.clone(),
                    _ => V::any(),
                };
                let mut new = old.clone();
                let r = self.set_in(&mut new, &path[1..], val);
                x.elem = Some(self.join_v(&old, &new));
                return r;
            }
            (_, V::Node(n)) => {
                let mut t = Tags::new();
                val.tags(&mut t);
                let nm = Rc::make_mut(n);
                nm.tags.union(&t);
                let fi = match (path.first(), path.get(1)) {
                    (Some(PE::Field(i)), _) => Some((0usize, *i as usize)),
                    (Some(PE::Down(d)), Some(PE::Field(i))) => Some((*d as usize, *i as usize)),
                    _ => None,
                };
                if let Some((d, i)) = fi {
                    if crate::interp::present(&val) {
                        if let Some(tag) = pg().tag_field.get(&(nm.ty, d, i)) {
                            nm.tags.add(*tag)
                        }
                    }
                }
                return None;
            }
            (_, V::Any(t)) => {
                let mut t2 = Tags::new();
                val.tags(&mut t2);
                t.union(&t2);
                return None;
            }
            (_, V::Dead) => {
                let mut t2 = Tags::new();
                val.tags(&mut t2);
                *v = V::Any(t2);
                return None;
            }
            _ => None,
        }
    }
    /// positions: kinds at which this may start / end
    pub fn pos_ks(&self, p: &PosV) -> KS {
        match p.sym {
            Some(s) => self.ks(s),
            None => p.ks,
        }
    }
    pub fn str_ks(&self, p: &StrV) -> KS {
        match p.sym {
            Some(s) => self.ks(s),
            None => p.ks,
        }
    }
    /// two tokens are known to be equal: use one symbol for both when no position refers to the other
    pub fn same(&mut self, x: Sym, y: Sym) {
        for (from, to) in [(y, x), (x, y)] {
            if from < self.k {
                continue;
            }
            let mut used = false;
            self.each_val(&mut |v| v.each_occ(&mut |s, tok| used |= s == from && !tok));
            if !used {
                self.map_vals(&|v| v.map_sym(&|s| if s == from { to } else { s }));
                return;
            }
        }
        let q = (x.min(y), x.max(y));
        if !self.g.eqs.contains(&q) {
            self.g.eqs.push(q);
            self.g.eqs.sort()
        }
    }
    pub fn known_same(&self, x: Sym, y: Sym) -> bool {
        x == y || self.g.eqs.contains(&(x.min(y), x.max(y)))
    }
    pub fn each_val(&self, f: &mut dyn FnMut(&V)) {
        self.locals.iter().for_each(|v| f(v));
        self.cells.iter().for_each(|v| f(v));
        self.g.trace.iter().for_each(|v| f(v));
        self.g.lits.iter().for_each(|v| f(v));
    }
    pub fn map_vals(&mut self, f: &dyn Fn(&V) -> V) {
        self.locals.iter_mut().for_each(|v| *v = f(v));
        self.cells.iter_mut().for_each(|v| *v = f(v));
        self.g.trace.iter_mut().for_each(|v| *v = f(v));
        self.g.lits.iter_mut().for_each(|v| *v = f(v));
    }
    /// drop unused symbols, renumber densely keeping the order
    pub fn compact(&mut self) {
        self.locals.0.retain(|x| !matches!(x.1, V::Dead));
        let n = self.syms.len();
        let mut used = vec![false; n];
        for i in 0..self.k as usize {
            used[i] = true
        }
        self.each_val(&mut |v| v.each_sym(&mut |s| used[s as usize] = true));
        self.g.eqs.retain(|(a, b)| used[*a as usize] && used[*b as usize]);
        if used.iter().all(|x| *x) {
            return;
        }
        let mut m = vec![0u32; n];
        let mut syms = vec![];
        for i in 0..n {
            if used[i] {
                m[i] = syms.len() as u32;
                syms.push(self.syms[i])
            }
        }
        self.map_vals(&|v| v.map_sym(&|s| m[s as usize]));
        for (a, b) in self.g.eqs.iter_mut() {
            *a = m[*a as usize];
            *b = m[*b as usize]
        }
        self.syms = syms;
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum JS {
    S(Sym),
    /// a constant token of this kind
    C(u32),
}
fn j_ks(st: &St, j: &JS) -> KS {
    match j {
        JS::S(s) => st.ks(*s),
        JS::C(u32::MAX) => KS::EMPTY,
        JS::C(k) => KS::one(*k as usize),
    }
}

pub struct Join {
    pub a: St,
    pub b: St,
    pub pairs: Vec<(JS, JS)>,
    pub map: HashMap<(JS, JS), Sym>,
    pub single: bool,
}

impl Join {
    fn pair(&mut self, x: JS, y: JS) -> Sym {
        if let Some(s) = self.map.get(&(x, y)) {
            return *s;
        }
        let s = self.pairs.len() as Sym;
        self.pairs.push((x, y));
        self.map.insert((x, y), s);
        s
    }
    fn lift_a(&mut self, v: &V) -> V {
        // value present on one side only
        let mut m = HashMap::new();
        v.each_sym(&mut |s| {
            m.insert(s, ());
        });
        let keys: Vec<Sym> = {
            let mut k: Vec<Sym> = m.keys().copied().collect();
            k.sort();
            k
        };
        let mut r = HashMap::new();
        for s in keys {
            r.insert(s, self.pair(JS::S(s), JS::C(u32::MAX)));
        }
        v.map_sym(&|s| r[&s])
    }
    fn lift_b(&mut self, v: &V) -> V {
        let mut k = vec![];
        v.each_sym(&mut |s| k.push(s));
        k.sort();
        k.dedup();
        let mut r = HashMap::new();
        for s in k {
            r.insert(s, self.pair(JS::C(u32::MAX), JS::S(s)));
        }
        v.map_sym(&|s| r[&s])
    }
    fn tags(&self, a: &V, b: &V) -> V {
        let mut t = Tags::new();
        a.tags(&mut t);
        b.tags(&mut t);
        V::Any(t)
    }
    pub fn v(&mut self, a: &V, b: &V) -> V {
        if a == b && !a.has_syms() {
            return a.clone();
        }
        match (a, b) {
            (V::Dead, x) => self.lift_b(x),
            (x, V::Dead) => self.lift_a(x),
            (V::Warn, _) | (_, V::Warn) => V::Warn,
            (V::Int(x), V::Int(y)) => {
                let mut r: Vec<i128> = x.iter().chain(y.iter()).copied().collect();
                r.sort();
                r.dedup();
                if r.len() > 16 {
                    V::any()
                } else {
                    V::Int(Rc::new(r))
                }
            }
            (V::Tok(x), V::Tok(y)) => V::Tok(self.pair(JS::S(*x), JS::S(*y))),
            (V::Tok(x), V::TokC(y)) => V::Tok(self.pair(JS::S(*x), JS::C(*y))),
            (V::TokC(x), V::Tok(y)) => V::Tok(self.pair(JS::C(*x), JS::S(*y))),
            (V::TokC(x), V::TokC(y)) => V::Tok(self.pair(JS::C(*x), JS::C(*y))),
            (V::Kw(x), V::Kw(y)) => V::Kw(self.pair(JS::S(*x), JS::S(*y))),
            (V::Kw(x), V::KwC(y)) => V::Kw(self.pair(JS::S(*x), JS::C((pg().tokbase[pg().ident] + *y as usize) as u32))),
            (V::KwC(x), V::Kw(y)) => V::Kw(self.pair(JS::C((pg().tokbase[pg().ident] + *x as usize) as u32), JS::S(*y))),
            (V::KwC(x), V::KwC(y)) => {
                let b = pg().tokbase[pg().ident];
                V::Kw(self.pair(JS::C((b + *x as usize) as u32), JS::C((b + *y as usize) as u32)))
            }
            (V::Ch(x), V::Ch(y)) => V::Ch(self.pair(JS::S(*x), JS::S(*y))),
            (V::Pay(x, i), V::Pay(y, j)) if i == j => V::Pay(self.pair(JS::S(*x), JS::S(*y)), *i),
            (V::Lexer(x), V::Lexer(y)) => V::Lexer(self.pair(JS::S(*x), JS::S(*y))),
            (V::Chars(p, x), V::Chars(q, y)) => {
                let l = self.pair(JS::S(*x), JS::S(*y));
                match (p, q) {
                    (Some(p), Some(q)) => V::Chars(Some(self.pair(JS::S(*p), JS::S(*q))), l),
                    (None, None) => V::Chars(None, l),
                    _ => V::any(),
                }
            }
            (V::Pos(x), V::Int(i)) | (V::Int(i), V::Pos(x)) if i.len() == 1 && i[0] == 0 => {
                // the position keeps its symbol on its own side only
                let left = matches!(a, V::Pos(_));
                let ks = if left { self.a.pos_ks(x) } else { self.b.pos_ks(x) };
                V::Pos(Rc::new(PosV { sym: None, ks, zero: true, ..(**x).clone() }))
            }
            (V::Pos(x), V::Pos(y)) => {
                let side = if x.side == y.side { x.side } else { Side::Mixed };
                let node = x.node || y.node;
                let zero = x.zero || y.zero;
                let add = x.add.clone().into_iter().chain(y.add.clone()).collect::<std::collections::BTreeSet<i64>>();
                let add: Vec<i64> = add.into_iter().collect();
                if let (Some(s), Some(t)) = (x.sym, y.sym) {
                    let ks = x.ks.or(&y.ks);
                    return V::Pos(Rc::new(PosV { side, sym: Some(self.pair(JS::S(s), JS::S(t))), ks, node, zero, add }));
                }
                let ks = self.a.pos_ks(x).or(&self.b.pos_ks(y));
                V::Pos(Rc::new(PosV { side, sym: None, ks, node, zero, add }))
            }
            (V::Str(x), V::Str(y)) => {
                let other = x.other || y.other;
                if let (Some((s, t)), Some((u, v))) = (x.lit, y.lit) {
                    let (a, b) = (self.pair(JS::S(s), JS::S(u)), self.pair(JS::S(t), JS::S(v)));
                    return StrV::lit(a, b);
                }
                if let (Some(s), Some(t)) = (x.sym, y.sym) {
                    return V::Str(Rc::new(StrV { sym: Some(self.pair(JS::S(s), JS::S(t))), konst: None, ks: KS::EMPTY, other, lit: None }));
                }
                if x.konst.is_some() && x.konst == y.konst && x == y {
                    return a.clone();
                }
                let other = other || x.konst.is_some() || y.konst.is_some();
                let ks = self.a.str_ks(x).or(&self.b.str_ks(y));
                V::Str(Rc::new(StrV { sym: None, konst: None, ks, other, lit: None }))
            }
            (V::Adt(x), V::Adt(y)) if x.ty == y.ty => {
                let mut vars: Vec<(u32, Vec<V>)> = vec![];
                for (i, f) in &x.vars {
                    match y.vars.iter().find(|z| z.0 == *i) {
                        Some((_, g)) if g.len() == f.len() => {
                            let r = f.iter().zip(g.iter()).map(|(p, q)| self.v(p, q)).collect();
                            vars.push((*i, r))
                        }
                        _ => {
                            let r = f.iter().map(|p| self.lift_a(p)).collect();
                            vars.push((*i, r))
                        }
                    }
                }
                for (i, f) in &y.vars {
                    if !x.vars.iter().any(|z| z.0 == *i) {
                        let r = f.iter().map(|p| self.lift_b(p)).collect();
                        vars.push((*i, r))
                    }
                }
                vars.sort_by_key(|v| v.0);
                V::Adt(Rc::new(AdtV { ty: x.ty, vars }))
            }
            (V::Node(x), V::Node(y)) if x.ty == y.ty => {
                let vars = if x.vars.is_empty() || y.vars.is_empty() {
                    vec![]
                } else {
                    let mut v: Vec<u32> = x.vars.iter().chain(y.vars.iter()).copied().collect();
                    v.sort();
                    v.dedup();
                    v
                };
                V::Node(Rc::new(NodeV { ty: x.ty, vars, tags: x.tags.or(&y.tags) }))
            }
            (V::Tup(x), V::Tup(y)) if x.len() == y.len() => V::Tup(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.v(p, q)).collect())),
            (V::Ref(x), V::Ref(y)) if x == y => a.clone(),
            (V::Ref(_) | V::RefVal(_), V::Ref(_) | V::RefVal(_)) => {
                let p = match a {
                    V::Ref(l) => {
                        let l = l.clone();
                        let n = self.a.syms.len();
                        let v = self.a.get(&l);
                        debug_assert!(self.a.syms.len() >= n);
                        v
                    }
                    V::RefVal(v) => (**v).clone(),
                    _ => unreachable!(),
                };
                let q = match b {
                    V::Ref(l) => {
                        let l = l.clone();
                        self.b.get(&l)
                    }
                    V::RefVal(v) => (**v).clone(),
                    _ => unreachable!(),
                };
                let r = self.v(&p, &q);
                V::RefVal(Rc::new(r))
            }
            (V::Box(x), V::Box(y)) => V::Box(Rc::new(self.v(x, y))),
            (V::Vec(x), V::Vec(y)) => V::Vec(Rc::new(self.vec(x, y))),
            (V::Iter(x), V::Iter(y)) => V::Iter(Rc::new(self.vec(x, y))),
            (V::Lin(b1, k1), V::Lin(b2, k2)) if b1 == b2 && k1 == k2 => a.clone(),
            (V::Discr(x), V::Discr(y)) => match (&**x, &**y) {
                (DiscrOf::Tok(s), DiscrOf::Tok(t)) => V::Discr(Rc::new(DiscrOf::Tok(self.pair(JS::S(*s), JS::S(*t))))),
                (DiscrOf::Kw(s), DiscrOf::Kw(t)) => V::Discr(Rc::new(DiscrOf::Kw(self.pair(JS::S(*s), JS::S(*t))))),
                (DiscrOf::Place(p), DiscrOf::Place(q)) if p == q => a.clone(),
                _ => V::any(),
            },
            _ => self.tags(a, b),
        }
    }
    fn vec(&mut self, x: &VecV, y: &VecV) -> VecV {
        if let (Some(p), Some(q)) = (&x.exact, &y.exact) {
            if p.len() == q.len() {
                return VecV { exact: Some(p.iter().zip(q.iter()).map(|(a, b)| self.v(a, b)).collect()), elem: None, min: 0 };
            }
        }
        let min = (x.minlen().min(VEC_MIN as usize)).min(y.minlen().min(VEC_MIN as usize)) as u8;
        let px = self.fold(x, true);
        let py = self.fold(y, false);
        let elem = match (px, py) {
            (None, None) => None,
            (Some(a), None) => Some(self.lift_a(&a)),
            (None, Some(b)) => Some(self.lift_b(&b)),
            (Some(a), Some(b)) => Some(self.v(&a, &b)),
        };
        VecV { exact: None, elem, min }
    }
    fn fold(&mut self, x: &VecV, left: bool) -> Option<V> {
        if let Some(e) = &x.exact {
            let mut r: Option<V> = None;
            for v in e {
                r = Some(match r {
                    None => v.clone(),
                    Some(o) => {
                        if left {
                            self.a.join_v(&o, v)
                        } else {
                            self.b.join_v(&o, v)
                        }
                    }
                });
            }
            r
        } else {
            x.elem.clone()
        }
    }
}

/// Join of two states at the same program point.
pub fn join(a: &St, b: &St) -> St {
    let mut j = Join { a: a.clone(), b: b.clone(), pairs: vec![], map: HashMap::new(), single: false };
    for i in 0..a.k.min(b.k) {
        j.pair(JS::S(i), JS::S(i));
    }
    let k = a.k;
    let mut locals = Locals::default();
    let mut keys: Vec<u32> = a.locals.0.iter().chain(b.locals.0.iter()).map(|x| x.0).collect();
    keys.sort();
    keys.dedup();
    for i in keys {
        let v = j.v(&a.locals[i as usize], &b.locals[i as usize]);
        locals.0.push((i, v))
    }
    let mut cells = Vec::with_capacity(a.cells.len());
    for i in 0..a.cells.len() {
        let v = j.v(&a.cells[i], &b.cells[i]);
        cells.push(v)
    }
    let mut g = a.g.clone();
    g.built |= b.g.built;
    g.nest.join(&b.g.nest);
    g.copy = g.copy.max(b.g.copy);
    g.bad = a.g.bad.or(&b.g.bad);
    g.cut = a.g.cut || b.g.cut;
    g.recent = join_recent(&a.g.recent, &b.g.recent);
    trim(&mut g);
    g.trace = vec![];
    for i in 0..a.g.trace.len().min(b.g.trace.len()) {
        let v = j.v(&a.g.trace[i], &b.g.trace[i]);
        g.trace.push(v)
    }
    g.lits = vec![];
    let n = a.g.lits.len().min(b.g.lits.len());
    for i in (1..=n).rev() {
        let v = j.v(&a.g.lits[a.g.lits.len() - i], &b.g.lits[b.g.lits.len() - i]);
        g.lits.push(v)
    }
    // order the new symbols
    let n = j.pairs.len();
    let key = |x: &(JS, JS)| -> (u64, u64) {
        let p = |s: &JS| match s {
            JS::S(i) => *i as u64,
            JS::C(u32::MAX) => u64::MAX,
            JS::C(k) => (1u64 << 40) + *k as u64,
        };
        let (mut u, v) = (p(&x.0), p(&x.1));
        if u == u64::MAX {
            u = (1u64 << 50) + v
        }
        (u, v)
    };
    let mut ord: Vec<usize> = (k as usize..n).collect();
    ord.sort_by_key(|i| key(&j.pairs[*i]));
    let mut m = vec![0u32; n];
    let mut syms: Vec<SymInfo> = vec![];
    let all: Vec<usize> = (0..k as usize).chain(ord).collect();
    let info = |st: &St, s: &JS| -> Option<SymInfo> {
        match s {
            JS::S(i) => Some(st.syms[*i as usize]),
            JS::C(u32::MAX) => None,
            JS::C(c) => Some(SymInfo { ks: KS::one(*c as usize), chr: false, ord: false }),
        }
    };
    for (pos, &i) in all.iter().enumerate() {
        m[i] = pos as u32;
        let (x, y) = &j.pairs[i];
        let (p, q) = (info(&j.a, x), info(&j.b, y));
        let s = match (p, q) {
            (Some(p), Some(q)) => SymInfo { ks: p.ks.or(&q.ks), chr: p.chr || q.chr, ord: p.ord && q.ord && matches!((x, y), (JS::S(_), JS::S(_))) },
            (Some(p), None) | (None, Some(p)) => SymInfo { ord: false, ..p },
            _ => SymInfo { ks: KS::EMPTY, chr: false, ord: false },
        };
        syms.push(s);
    }
    // order consistency
    let ord0: Vec<bool> = syms.iter().map(|s| s.ord).collect();
    for p in 0..all.len() {
        for q in p + 1..all.len() {
            if !ord0[p] || !ord0[q] {
                continue;
            }
            if let ((JS::S(a1), JS::S(b1)), (JS::S(a2), JS::S(b2))) = (&j.pairs[all[p]], &j.pairs[all[q]]) {
                if a1 > a2 || b1 > b2 {
                    // the caller's symbols keep their place
                    if p >= k as usize {
                        syms[p].ord = false;
                    }
                    syms[q].ord = false;
                }
            }
        }
    }
    g.eqs.clear();
    for p in 0..n {
        for q in p + 1..n {
            if let ((JS::S(a1), JS::S(b1)), (JS::S(a2), JS::S(b2))) = (&j.pairs[p], &j.pairs[q]) {
                if a.known_same(*a1, *a2) && b.known_same(*b1, *b2) {
                    g.eqs.push((m[p].min(m[q]), m[p].max(m[q])))
                }
            }
        }
    }
    g.eqs.sort();
    // `get` on references may have created symbols on one side; those are in j.a / j.b
    let mut r = St { locals, cells, syms, k, g };
    r.map_vals(&|v| v.map_sym(&|s| m[s as usize]));
    r.compact();
    r
}

/// Shape of a value: what tells apart states that must not be merged.
pub fn shape(v: &V, depth: u32, h: &mut Vec<u64>) {
    match v {
        V::Int(x) => {
            h.push(1);
            h.push(x.len() as u64);
            if x.len() == 1 {
                h.push(x[0] as u64)
            }
        }
        V::Adt(a) => {
            h.push(2);
            if a.ty == pg().range {
                return;
            }
            for (i, f) in &a.vars {
                h.push(10 + *i as u64);
                if depth > 0 {
                    for x in f {
                        shape(x, depth - 1, h)
                    }
                }
            }
        }
        V::Tup(t) => {
            h.push(3);
            if depth > 0 {
                for x in t.iter() {
                    shape(x, depth - 1, h)
                }
            }
        }
        V::RefVal(x) => {
            h.push(4);
            shape(x, depth, h)
        }
        V::Discr(d) => {
            h.push(5);
            match &**d {
                DiscrOf::Tok(_) => h.push(1),
                DiscrOf::Kw(_) => h.push(2),
                DiscrOf::Place(l) => h.push(hash(l)),
            }
        }
        V::TokC(_) | V::Tok(_) => h.push(6),
        V::KwC(_) | V::Kw(_) => h.push(7),
        V::Vec(x) => {
            h.push(if x.surely_empty() { 8 } else if x.nonempty() { 9 } else { 10 });
        }
        V::Box(_) => h.push(11),
        V::Lin(b, k) => {
            h.push(12);
            h.push(*b as u64);
            h.push(*k as u64)
        }
        _ => h.push(0),
    }
}
pub fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// look-ahead state and other always-relevant facts found inside a value
pub fn always(v: &V, h: &mut Vec<u64>) {
    match v {
        V::Adt(a) if a.ty == pg().parser => {
            let f = &pg().adt(a.ty).unwrap().variants[0].fields;
            for (i, x) in f.iter().enumerate() {
                if let Some(val) = a.vars[0].1.get(i) {
                    if pg().path(x.ty) == "core::option::Option" {
                        shape(val, 1, h)
                    }
                }
            }
        }
        V::Fn(g) => {
            h.push(78);
            h.push(*g as u64)
        }
        V::Iter(x) => {
            h.push(77);
            if let Some(e) = &x.exact {
                h.push(e.len() as u64)
            }
        }
        V::Tup(t) => t.iter().for_each(|v| always(v, h)),
        V::Adt(a) => a.vars.iter().for_each(|x| x.1.iter().for_each(|v| always(v, h))),
        V::Ref(l) => {
            if matches!(l.base, Base::C(_)) || true {
                h.push(hash(&**l))
            }
        }
        V::Box(x) => always(x, h),
        V::Vec(x) => h.push(if x.surely_empty() { 8 } else if x.nonempty() { 9 } else { 10 }),
        _ => {}
    }
}

/// keep the last few entries
pub fn trim(g: &mut Ghost) {
    if g.recent.len() > 4 {
        g.recent.drain(..g.recent.len() - 4);
        g.cut = true;
    }
}

/// a consumed token: its possible kinds, and whether it may be missing
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Rec {
    pub ks: KS,
    pub opt: bool,
}
impl Rec {
    /// the tokens of a nested construct
    pub const NODE: Rec = Rec { ks: KS::EMPTY, opt: false };
    pub fn node(&self) -> bool {
        self.ks.empty()
    }
}
fn join_recent(x: &[Rec], y: &[Rec]) -> Vec<Rec> {
    if x == y {
        return x.to_vec();
    }
    // longest common subsequence
    let (n, m) = (x.len(), y.len());
    let mut t = vec![vec![0u8; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            t[i][j] = if x[i].ks == y[j].ks { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) }
        }
    }
    let mut r = vec![];
    let (mut i, mut j) = (0, 0);
    let (mut gx, mut gy): (Vec<Rec>, Vec<Rec>) = (vec![], vec![]);
    let flush = |gx: &mut Vec<Rec>, gy: &mut Vec<Rec>, r: &mut Vec<Rec>| {
        let (l, s) = if gx.len() >= gy.len() { (&*gx, &*gy) } else { (&*gy, &*gx) };
        let d = l.len() - s.len();
        for (k, a) in l.iter().enumerate() {
            if k < d {
                r.push(Rec { ks: a.ks, opt: true })
            } else {
                let b = s[k - d];
                let ks = if a.node() != b.node() { pg().full() } else { a.ks.or(&b.ks) };
                r.push(Rec { ks, opt: a.opt || b.opt })
            }
        }
        gx.clear();
        gy.clear()
    };
    while i < n && j < m {
        if x[i].ks == y[j].ks {
            flush(&mut gx, &mut gy, &mut r);
            r.push(Rec { ks: x[i].ks, opt: x[i].opt || y[j].opt });
            i += 1;
            j += 1
        } else if t[i + 1][j] >= t[i][j + 1] {
            gx.push(x[i]);
            i += 1
        } else {
            gy.push(y[j]);
            j += 1
        }
    }
    gx.extend_from_slice(&x[i..]);
    gy.extend_from_slice(&y[j..]);
    flush(&mut gx, &mut gy, &mut r);
    if r.len() > 4 {
        let l = n.min(m);
        r = (0..l)
            .map(|i| {
                let (a, b) = (x[n - l + i], y[m - l + i]);
                Rec { ks: if a.node() != b.node() { pg().full() } else { a.ks.or(&b.ks) }, opt: a.opt || b.opt || n != m }
            })
            .collect()
    }
    r
}

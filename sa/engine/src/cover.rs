//! Which parts of a tree node its span()/opt_span() covers.
//!
//! Abstract evaluation of the Spanned/OptSpanned implementations: a Range is abstracted by
//! the sets of components whose start it is not after and whose end it is not before.
use crate::prog::*;
use ir::*;
use serde::Serialize;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Step {
    /// variant, field
    F(u32, u32),
    /// tuple field
    T(u32),
    Elem,
    Box,
}
type Path = Vec<Step>;

/// status of a leaf for each list it is in, from the outermost
const ALL: u8 = 0;
const YIELDED: u8 = 1;
const CUR: u8 = 2;
type Item = (u16, Vec<u8>);
type Set = BTreeSet<Item>;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum C {
    Unknown,
    Unit,
    /// reference to a part of the node
    Ref(Path),
    /// a copy of a part of the node
    Part(Path),
    /// reference to a cell of the evaluation
    Cell(usize, Vec<Proj1>),
    Pos { lo: Set, hi: Set },
    Adt(TyId, u32, Vec<C>),
    /// Option<Range> that may be either
    Opt(TyId, Set, Set),
    Tup(Vec<C>),
    Int(i128),
    Bool2,
    Discr(Path, TyId),
    DiscrCell(usize, Vec<Proj1>),
    /// list iterator
    Iter(Path),
    Fn(FnId),
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Proj1 {
    F(u32),
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct S {
    cells: Vec<C>,
    /// items that hold of every value (because there is nothing to cover)
    vac: Set,
}

#[derive(Serialize, Default, Clone)]
pub struct CoverR {
    /// node variant -> number of components
    pub nodes: BTreeMap<String, usize>,
    pub leaves: BTreeMap<String, BTreeSet<String>>,
    /// (variant, component) not covered
    pub uncovered: Vec<(String, String)>,
    /// possible panic: (variant, function, what, fields any of which being non-empty rules it out)
    pub panics: Vec<(String, String, String, Vec<String>)>,
    pub notes: BTreeSet<String>,
    pub evaluated: usize,
    /// list fields of tree nodes assigned, or lent for change to something that may shorten them
    pub shortened: BTreeSet<String>,
    /// types of the tree with spans inside but no span of their own
    pub no_span: BTreeSet<String>,
}

struct Ev {
    root: TyId,
    var: u32,
    leaves: Vec<(Path, TyId)>,
    spanned: BTreeSet<TyId>,
    opt_spanned: BTreeSet<TyId>,
    panics: BTreeSet<(String, String, Vec<String>)>,
    notes: BTreeSet<String>,
    calls: usize,
    fuel: usize,
}

fn union(a: &Set, b: &Set) -> Set {
    a.union(b).cloned().collect()
}
fn inter(a: &Set, b: &Set) -> Set {
    a.intersection(b).cloned().collect()
}
fn elems(p: &[Step]) -> usize {
    p.iter().filter(|s| **s == Step::Elem).count()
}

/// leaves: spans, and nodes that have a span of their own
fn leaves(t: TyId, path: &mut Path, sp: &BTreeSet<TyId>, osp: &BTreeSet<TyId>, out: &mut Vec<(Path, TyId)>, depth: usize) {
    let p = pg();
    if depth > 12 {
        return;
    }
    if t == p.range || (p.ast[t] && depth > 0 && (sp.contains(&t) || osp.contains(&t))) {
        out.push((path.clone(), t));
        return;
    }
    match &p.pr.types[t].kind {
        TyKind::Tuple(v) => {
            for (i, x) in v.iter().enumerate() {
                path.push(Step::T(i as u32));
                leaves(*x, path, sp, osp, out, depth + 1);
                path.pop();
            }
        }
        TyKind::Adt(a) if a.path == "alloc::vec::Vec" => {
            path.push(Step::Elem);
            leaves(a.args[0], path, sp, osp, out, depth + 1);
            path.pop();
        }
        TyKind::Adt(a) if a.kind == AdtKind::Box => {
            path.push(Step::Box);
            leaves(a.args[0], path, sp, osp, out, depth + 1);
            path.pop();
        }
        TyKind::Adt(a) if a.path == "core::option::Option" || (a.local && p.ast[t]) => {
            for (vi, v) in a.variants.iter().enumerate() {
                for (i, f) in v.fields.iter().enumerate() {
                    path.push(Step::F(vi as u32, i as u32));
                    leaves(f.ty, path, sp, osp, out, depth + 1);
                    path.pop();
                }
            }
        }
        TyKind::Slice(e) | TyKind::Array(e, _) => {
            path.push(Step::Elem);
            leaves(*e, path, sp, osp, out, depth + 1);
            path.pop();
        }
        _ => {}
    }
}
pub fn path_name(root: TyId, path: &[Step]) -> String {
    let p = pg();
    let mut t = root;
    let mut s = String::new();
    for x in path {
        match x {
            Step::F(v, f) => {
                let a = p.adt(t).unwrap();
                if a.path == "core::option::Option" {
                    s += "?"
                } else {
                    s += &format!(".{}", a.variants[*v as usize].fields[*f as usize].name);
                }
                t = a.variants[*v as usize].fields[*f as usize].ty;
            }
            Step::T(i) => {
                s += &format!(".{}", i);
                if let TyKind::Tuple(v) = &p.pr.types[t].kind {
                    t = v[*i as usize]
                }
            }
            Step::Elem => {
                s += "[]";
                t = match &p.pr.types[t].kind {
                    TyKind::Slice(e) | TyKind::Array(e, _) => *e,
                    TyKind::Adt(a) => a.args[0],
                    _ => t,
                }
            }
            Step::Box => {
                if let TyKind::Adt(a) = &p.pr.types[t].kind {
                    t = a.args[0]
                }
            }
        }
    }
    s
}

impl Ev {
    fn ty_at(&self, path: &[Step]) -> TyId {
        let p = pg();
        let mut t = self.root;
        for x in path {
            t = match x {
                Step::F(v, f) => match p.adt(t) {
                    Some(a) => a.variants[*v as usize].fields[*f as usize].ty,
                    None => t,
                },
                Step::T(i) => match &p.pr.types[t].kind {
                    TyKind::Tuple(v) => v[*i as usize],
                    _ => t,
                },
                Step::Elem => match &p.pr.types[t].kind {
                    TyKind::Slice(e) | TyKind::Array(e, _) => *e,
                    TyKind::Adt(a) => a.args[0],
                    _ => t,
                },
                Step::Box => match &p.pr.types[t].kind {
                    TyKind::Adt(a) => a.args[0],
                    _ => t,
                },
            }
        }
        t
    }
    /// the items for exactly this path (a span or a node with a span)
    fn cover(&self, path: &[Step]) -> Set {
        let mut s = Set::new();
        if let Some(i) = self.leaves.iter().position(|l| l.0 == path) {
            s.insert((i as u16, vec![CUR; elems(path)]));
        }
        s
    }
    /// the items of everything below the path
    fn below(&self, path: &[Step]) -> Set {
        let n = elems(path);
        self.leaves
            .iter()
            .enumerate()
            .filter(|(_, l)| l.0.starts_with(path))
            .map(|(i, l)| {
                let mut v = vec![CUR; n];
                v.resize(elems(&l.0), ALL);
                (i as u16, v)
            })
            .collect()
    }
    fn span_of(&self, path: &[Step]) -> C {
        let s = self.cover(path);
        C::Adt(pg().range, 0, vec![C::Pos { lo: s.clone(), hi: s.clone() }, C::Pos { lo: s.clone(), hi: s }])
    }
    /// is this item surely there?
    fn surely(&self, i: &Item) -> bool {
        let (path, t) = &self.leaves[i.0 as usize];
        if *t != pg().range && !self.spanned.contains(t) {
            return false;
        }
        let mut t = self.root;
        let mut lvl = 0;
        for (k, s) in path.iter().enumerate() {
            match s {
                Step::Elem => {
                    if i.1[lvl] != CUR {
                        return false;
                    }
                    lvl += 1
                }
                Step::F(..) if k > 0 && pg().is_enum(t) => return false,
                _ => {}
            }
            t = self.ty_at(&path[..=k]);
        }
        true
    }
    fn vac(&self, mut s: S, add: Set) -> Option<S> {
        for i in add {
            if self.surely(&i) {
                return None;
            }
            s.vac.insert(i);
        }
        Some(s)
    }
    fn map_sets(c: &C, f: &dyn Fn(&Set) -> Set) -> C {
        match c {
            C::Pos { lo, hi } => C::Pos { lo: f(lo), hi: f(hi) },
            C::Opt(t, a, b) => C::Opt(*t, f(a), f(b)),
            C::Adt(t, v, x) => C::Adt(*t, *v, x.iter().map(|c| Ev::map_sets(c, f)).collect()),
            C::Tup(x) => C::Tup(x.iter().map(|c| Ev::map_sets(c, f)).collect()),
            c => c.clone(),
        }
    }
    fn join(&self, a: &C, va: &Set, b: &C, vb: &Set) -> C {
        if a == b {
            return a.clone();
        }
        let m = |x: &Set, y: &Set| inter(&union(x, va), &union(y, vb));
        let as_opt = |c: &C| -> Option<(TyId, Set, Set, bool)> {
            match c {
                C::Opt(t, l, h) => Some((*t, l.clone(), h.clone(), true)),
                C::Adt(t, 0, _) if pg().path(*t) == "core::option::Option" => Some((*t, Set::new(), Set::new(), true)),
                C::Adt(t, 1, x) if pg().path(*t) == "core::option::Option" => match &x[0] {
                    C::Adt(_, _, y) => match (&y[..], ()) {
                        ([C::Pos { lo, .. }, C::Pos { hi, .. }], _) => Some((*t, lo.clone(), hi.clone(), false)),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            }
        };
        match (a, b) {
            (C::Pos { lo: l1, hi: h1 }, C::Pos { lo: l2, hi: h2 }) => C::Pos { lo: m(l1, l2), hi: m(h1, h2) },
            (C::Adt(t, v, x), C::Adt(t2, v2, y)) if t == t2 && v == v2 => C::Adt(*t, *v, x.iter().zip(y).map(|(x, y)| self.join(x, va, y, vb)).collect()),
            (C::Tup(x), C::Tup(y)) if x.len() == y.len() => C::Tup(x.iter().zip(y).map(|(x, y)| self.join(x, va, y, vb)).collect()),
            (C::Int(_) | C::Bool2, C::Int(_) | C::Bool2) => C::Bool2,
            _ => match (as_opt(a), as_opt(b)) {
                (Some((t, l1, h1, _)), Some((_, l2, h2, _))) => C::Opt(t, m(&l1, &l2), m(&h1, &h2)),
                _ => C::Unknown,
            },
        }
    }
    fn join_state(&self, a: &S, b: &S) -> S {
        let n = a.cells.len().max(b.cells.len());
        let u = C::Unknown;
        S {
            cells: (0..n).map(|i| self.join(a.cells.get(i).unwrap_or(&u), &a.vac, b.cells.get(i).unwrap_or(&u), &b.vac)).collect(),
            vac: inter(&a.vac, &b.vac),
        }
    }

    // ---- places ----
    fn read_proj(&self, c: &C, p: &[Proj1]) -> C {
        let mut c = c.clone();
        for Proj1::F(i) in p {
            c = match c {
                C::Adt(_, _, x) | C::Tup(x) => x.get(*i as usize).cloned().unwrap_or(C::Unknown),
                C::Opt(_, lo, hi) => C::Adt(pg().range, 0, vec![C::Pos { lo: lo.clone(), hi: Set::new() }, C::Pos { lo: Set::new(), hi }]),
                _ => C::Unknown,
            }
        }
        c
    }
    fn write_proj(c: &mut C, p: &[Proj1], v: C) {
        match p.split_first() {
            None => *c = v,
            Some((Proj1::F(i), r)) => match c {
                C::Adt(_, _, x) | C::Tup(x) if (*i as usize) < x.len() => Ev::write_proj(&mut x[*i as usize], r, v),
                c => *c = C::Unknown,
            },
        }
    }
    /// where a place is: a part of the node or a cell
    fn place(&self, s: &S, base: usize, fun: &Func, pl: &Place) -> C {
        let p = pg();
        let mut cur = C::Cell(base + pl.local, vec![]);
        let mut ty = fun.locals[pl.local].ty;
        let mut down: Option<u32> = None;
        for pr in &pl.proj {
            match pr {
                Proj::Deref => {
                    let v = self.load(s, &cur);
                    cur = match v {
                        C::Ref(x) => C::Part(x),
                        C::Cell(..) => v,
                        C::Part(mut x) if p.adt(ty).map(|a| a.kind == AdtKind::Box).unwrap_or(false) => {
                            x.push(Step::Box);
                            C::Part(x)
                        }
                        _ => C::Unknown,
                    };
                    ty = match &p.pr.types[ty].kind {
                        TyKind::Ref { to, .. } | TyKind::Ptr { to, .. } => *to,
                        TyKind::Adt(a) if a.kind == AdtKind::Box => a.args[0],
                        _ => ty,
                    };
                }
                Proj::Downcast(v) => down = Some(*v as u32),
                Proj::Field(i, t) => {
                    let d = down.take();
                    // a part may be behind a cell
                    if let C::Cell(..) = cur {
                        if let C::Part(x) = self.load(s, &cur) {
                            cur = C::Part(x)
                        }
                    }
                    cur = match cur {
                        C::Part(mut x) => {
                            x.push(match &p.pr.types[ty].kind {
                                TyKind::Tuple(_) => Step::T(*i as u32),
                                _ => Step::F(d.unwrap_or(if ty == self.root && x.is_empty() { self.var } else { 0 }), *i as u32),
                            });
                            C::Part(x)
                        }
                        C::Cell(c, mut q) => {
                            q.push(Proj1::F(*i as u32));
                            C::Cell(c, q)
                        }
                        _ => C::Unknown,
                    };
                    ty = *t;
                }
                Proj::Index(_) | Proj::ConstIndex { .. } => {
                    cur = C::Unknown;
                    ty = match &p.pr.types[ty].kind {
                        TyKind::Slice(t) | TyKind::Array(t, _) => *t,
                        _ => ty,
                    };
                }
                _ => cur = C::Unknown,
            }
        }
        cur
    }
    /// the value at a place
    fn load(&self, s: &S, at: &C) -> C {
        match at {
            C::Cell(i, q) => {
                let v = s.cells.get(*i).cloned().unwrap_or(C::Unknown);
                self.read_proj(&v, q)
            }
            C::Part(x) => {
                let t = self.ty_at(x);
                if t == pg().range {
                    self.span_of(x)
                } else if x.len() > 0 && self.ty_at(&x[..x.len() - 1]) == pg().range {
                    // start or end of a span of the node
                    let c = self.cover(&x[..x.len() - 1]);
                    if matches!(x.last(), Some(Step::F(_, 0))) {
                        C::Pos { lo: c, hi: Set::new() }
                    } else {
                        C::Pos { lo: Set::new(), hi: c }
                    }
                } else if let TyKind::Ref { .. } = pg().pr.types[t].kind {
                    C::Unknown
                } else {
                    C::Part(x.clone())
                }
            }
            _ => C::Unknown,
        }
    }
    fn operand(&self, s: &S, base: usize, fun: &Func, o: &Operand) -> C {
        match o {
            Operand::Copy(pl) | Operand::Move(pl) => {
                let l = self.place(s, base, fun, pl);
                self.load(s, &l)
            }
            Operand::Const(k) => self.konst(k.ty, &k.val),
            Operand::RuntimeCheck(_) => C::Int(0),
        }
    }
    fn konst(&self, t: TyId, v: &CVal) -> C {
        match v {
            CVal::Int(i) => C::Int(*i),
            CVal::Bool(b) => C::Int(*b as i128),
            CVal::Adt(v, f) => match pg().adt(t) {
                Some(a) => C::Adt(t, *v as u32, f.iter().enumerate().map(|(i, x)| self.konst(a.variants[*v].fields.get(i).map(|f| f.ty).unwrap_or(t), x)).collect()),
                None => C::Unknown,
            },
            CVal::Fn(Some(f)) => C::Fn(*f),
            CVal::Zst => match &pg().pr.types[t].kind {
                TyKind::FnDef(Some(f)) => C::Fn(*f),
                TyKind::Closure { .. } => C::Tup(vec![]),
                _ => C::Unit,
            },
            _ => C::Unknown,
        }
    }
    fn discr(&self, v: C, at: &C) -> C {
        match (&v, at) {
            (C::Adt(t, i, _), _) => pg().adt(*t).map(|a| C::Int(a.variants[*i as usize].discr)).unwrap_or(C::Unknown),
            (C::Part(x), _) => {
                let t = self.ty_at(x);
                if x.is_empty() {
                    C::Int(pg().adt(t).unwrap().variants[self.var as usize].discr)
                } else {
                    C::Discr(x.clone(), t)
                }
            }
            (C::Opt(..), C::Cell(i, q)) => C::DiscrCell(*i, q.clone()),
            _ => C::Bool2,
        }
    }
    fn rvalue(&self, s: &S, base: usize, fun: &Func, r: &Rvalue) -> C {
        match r {
            Rvalue::Use(o) => self.operand(s, base, fun, o),
            Rvalue::Ref { place, .. } | Rvalue::AddrOf { place, .. } => match self.place(s, base, fun, place) {
                C::Part(x) => C::Ref(x),
                C::Cell(i, q) => match self.load(s, &C::Cell(i, q.clone())) {
                    C::Part(x) => C::Ref(x),
                    _ => C::Cell(i, q),
                },
                _ => C::Unknown,
            },
            Rvalue::Agg(k, ops) => {
                let v: Vec<C> = ops.iter().map(|o| self.operand(s, base, fun, o)).collect();
                match k {
                    AggKind::Tuple | AggKind::Closure(_) => C::Tup(v),
                    AggKind::Adt { ty, variant, .. } => C::Adt(*ty, *variant as u32, v),
                    _ => C::Unknown,
                }
            }
            Rvalue::Discr(pl) => {
                let at = self.place(s, base, fun, pl);
                let v = self.load(s, &at);
                self.discr(v, &at)
            }
            Rvalue::Cast(k, o, _) => {
                if k == "BoxDerefTransmute" {
                    if let Operand::Copy(pl) | Operand::Move(pl) = o {
                        let mut p2 = pl.clone();
                        if let Some(Proj::Field(0, _)) = p2.proj.last() {
                            p2.proj.pop();
                        }
                        let at = self.place(s, base, fun, &p2);
                        let v = match &at {
                            C::Cell(..) => self.load(s, &at),
                            v => v.clone(),
                        };
                        if let C::Part(mut x) = v {
                            x.push(Step::Box);
                            return C::Ref(x);
                        }
                        return C::Unknown;
                    }
                }
                self.operand(s, base, fun, o)
            }
            Rvalue::Un(op, o) if op == "Not" => match self.operand(s, base, fun, o) {
                C::Int(i) => C::Int(1 - i),
                _ => C::Bool2,
            },
            Rvalue::Bin(op, a, b) | Rvalue::CheckedBin(op, a, b) => match (self.operand(s, base, fun, a), self.operand(s, base, fun, b)) {
                (C::Int(a), C::Int(b)) => match op.as_str() {
                    "Eq" => C::Int((a == b) as i128),
                    "Ne" => C::Int((a != b) as i128),
                    "Lt" => C::Int((a < b) as i128),
                    _ => C::Unknown,
                },
                _ if matches!(op.as_str(), "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge") => C::Bool2,
                _ => C::Unknown,
            },
            _ => C::Unknown,
        }
    }

    // ---- list iteration ----
    /// (leaf, level) under a list
    fn under(&self, list: &[Step]) -> Vec<(u16, usize)> {
        let mut e = list.to_vec();
        e.push(Step::Elem);
        let n = elems(list);
        self.leaves.iter().enumerate().filter(|(_, l)| l.0.starts_with(&e)).map(|(i, _)| (i as u16, n)).collect()
    }
    fn items(&self, leaf: u16, lvl: usize, st: u8) -> Item {
        let n = elems(&self.leaves[leaf as usize].0);
        let mut v = vec![CUR; lvl];
        v.push(st);
        v.resize(n, ALL);
        (leaf, v)
    }
    fn iter_start(&self, mut s: S, list: &[Step]) -> S {
        for (l, k) in self.under(list) {
            s.vac.insert(self.items(l, k, YIELDED));
            s.vac.insert(self.items(l, k, CUR));
        }
        s
    }
    /// next element: Some(..)
    fn iter_some(&self, s: &S, list: &[Step]) -> S {
        let us = self.under(list);
        let n = elems(list);
        let ids: BTreeSet<u16> = us.iter().map(|u| u.0).collect();
        let vac = s.vac.clone();
        let tr = |c: &Set, v: &Set| -> Set {
            let eff = union(c, v);
            let mut r: Set = c.iter().filter(|i| !(ids.contains(&i.0) && i.1.len() > n && i.1[..n].iter().all(|x| *x == CUR) && i.1[n] != ALL)).cloned().collect();
            for (l, k) in &us {
                let y = self.items(*l, *k, YIELDED);
                let c = self.items(*l, *k, CUR);
                if eff.contains(&y) && eff.contains(&c) {
                    r.insert(y);
                }
            }
            r
        };
        let none = Set::new();
        S { cells: s.cells.iter().map(|c| Ev::map_sets(c, &|x| tr(x, &vac))).collect(), vac: tr(&vac, &none) }
    }
    fn iter_none(&self, s: &S, list: &[Step]) -> Option<S> {
        let us = self.under(list);
        let vac = s.vac.clone();
        let tr = |c: &Set, v: &Set| -> Set {
            let eff = union(c, v);
            let mut r = c.clone();
            for (l, k) in &us {
                let y = self.items(*l, *k, YIELDED);
                let cu = self.items(*l, *k, CUR);
                if eff.contains(&y) && eff.contains(&cu) {
                    r.insert(self.items(*l, *k, ALL));
                }
                r.remove(&y);
                r.remove(&cu);
            }
            r
        };
        let none = Set::new();
        Some(S { cells: s.cells.iter().map(|c| Ev::map_sets(c, &|x| tr(x, &vac))).collect(), vac: tr(&vac, &none) })
    }

    // ---- calls ----
    fn run(&mut self, f: FnId, args: Vec<C>, s: S, depth: usize, stack: &mut Vec<String>) -> Vec<(S, C)> {
        let p = pg();
        let fun = p.f(f);
        self.calls += 1;
        if depth > 40 || self.fuel == 0 {
            self.notes.insert(format!("evaluation too deep in {}", p.short(f)));
            return vec![(s, C::Unknown)];
        }
        let base = s.cells.len();
        let mut s = s;
        s.cells.resize(base + fun.locals.len(), C::Unknown);
        for (i, a) in args.into_iter().enumerate() {
            if i + 1 < fun.locals.len() {
                s.cells[base + 1 + i] = a
            }
        }
        let mut out: Vec<(S, C)> = vec![];
        let mut at: BTreeMap<Bb, Vec<S>> = BTreeMap::new();
        let mut work: BTreeSet<(usize, Bb)> = BTreeSet::new();
        let info = p.info(f);
        let rpo = &info.rpo;
        at.insert(0, vec![s]);
        work.insert((0, 0));
        let mut done: BTreeMap<Bb, BTreeSet<S>> = BTreeMap::new();
        while let Some(w) = work.iter().next().cloned() {
            work.remove(&w);
            let bb = w.1;
            let states = at.remove(&bb).unwrap_or_default();
            for s in states {
                if !done.entry(bb).or_default().insert(s.clone()) {
                    continue;
                }
                if self.fuel == 0 {
                    break;
                }
                self.fuel -= 1;
                for (t, s2) in self.block(f, base, bb, s, depth, stack, &mut out) {
                    let l = at.entry(t).or_default();
                    if !l.contains(&s2) {
                        l.push(s2);
                        if l.len() + done.get(&t).map(|d| d.len()).unwrap_or(0) > 24 {
                            let mut it = l.drain(..).collect::<Vec<_>>().into_iter();
                            let mut j = it.next().unwrap();
                            for x in it {
                                j = self.join_state(&j, &x)
                            }
                            if let Some(d) = done.get(&t) {
                                if let Some(x) = d.iter().next_back() {
                                    j = self.join_state(&j, x)
                                }
                            }
                            l.push(j)
                        }
                    }
                    work.insert((rpo[t], t));
                }
            }
        }
        for (s, _) in out.iter_mut() {
            s.cells.truncate(base)
        }
        out.sort();
        out.dedup();
        if out.len() > 12 {
            let mut it = out.drain(..).collect::<Vec<_>>().into_iter();
            let (mut s, mut c) = it.next().unwrap();
            for (s2, c2) in it {
                c = self.join(&c, &s.vac, &c2, &s2.vac);
                s = self.join_state(&s, &s2);
            }
            out.push((s, c))
        }
        out
    }

    fn block(&mut self, f: FnId, base: usize, bb: Bb, mut s: S, depth: usize, stack: &mut Vec<String>, out: &mut Vec<(S, C)>) -> Vec<(Bb, S)> {
        let p = pg();
        let fun = p.f(f);
        let b = &fun.blocks[bb];
        for (st, _) in &b.stmts {
            if let Stmt::Assign(d, r) = st {
                let v = self.rvalue(&s, base, fun, r);
                self.store(&mut s, base, fun, d, v)
            }
        }
        match &b.term {
            Term::Goto(t) => vec![(*t, s)],
            Term::Drop { target, .. } => vec![(*target, s)],
            Term::Return => {
                let v = s.cells[base].clone();
                // references into this frame do not leave it
                let v = match v {
                    C::Cell(i, _) if i >= base => C::Unknown,
                    v => v,
                };
                out.push((s, v));
                vec![]
            }
            Term::Switch { discr, arms, otherwise, .. } => {
                let v = self.operand(&s, base, fun, discr);
                let mut r = vec![];
                match v {
                    C::Int(i) => {
                        let t = arms.iter().find(|a| a.0 as i128 == i).map(|a| a.1).unwrap_or(*otherwise);
                        r.push((t, s))
                    }
                    C::Discr(x, t) => {
                        let vars: Vec<i128> = p.adt(t).map(|a| a.variants.iter().map(|v| v.discr).collect()).unwrap_or_default();
                        for (vi, d) in vars.iter().enumerate() {
                            let t = arms.iter().find(|a| a.0 as i128 == *d).map(|a| a.1).unwrap_or(*otherwise);
                            // the components of the other variants are absent
                            let mut add = Set::new();
                            for wi in 0..vars.len() {
                                if wi != vi {
                                    for q in 0..p.adt(self.ty_at(&x)).unwrap().variants[wi].fields.len() {
                                        let mut y = x.clone();
                                        y.push(Step::F(wi as u32, q as u32));
                                        add.extend(self.below(&y));
                                    }
                                }
                            }
                            if let Some(s2) = self.vac(s.clone(), add) {
                                r.push((t, s2))
                            }
                        }
                    }
                    C::DiscrCell(i, q) => {
                        let cell = self.load(&s, &C::Cell(i, q.clone()));
                        if let C::Opt(t, lo, hi) = cell {
                            for d in 0..2i128 {
                                let to = arms.iter().find(|a| a.0 as i128 == d).map(|a| a.1).unwrap_or(*otherwise);
                                let mut s2 = s.clone();
                                let v = if d == 0 {
                                    match self.vac(s2, inter(&lo, &hi)) {
                                        Some(x) => s2 = x,
                                        None => continue,
                                    }
                                    C::Adt(t, 0, vec![])
                                } else {
                                    C::Adt(t, 1, vec![C::Adt(p.range, 0, vec![C::Pos { lo: lo.clone(), hi: Set::new() }, C::Pos { lo: Set::new(), hi: hi.clone() }])])
                                };
                                if let Some(c) = s2.cells.get_mut(i) {
                                    Ev::write_proj(c, &q, v)
                                }
                                r.push((to, s2))
                            }
                        }
                    }
                    _ => {
                        let cmp = compared(b, discr);
                        let mut ts: BTreeSet<(Bb, Option<bool>)> = arms.iter().map(|a| (a.1, Some(a.0 != 0))).collect();
                        ts.insert((*otherwise, if arms.len() == 1 { Some(arms[0].0 == 0) } else { None }));
                        for (t, yes) in ts {
                            let mut s2 = s.clone();
                            if let (Some((op, x, y)), Some(yes)) = (&cmp, yes) {
                                // x <= y or y <= x
                                let less = op.starts_with('L') == yes;
                                let (x, y) = if less { (x, y) } else { (y, x) };
                                self.not_after(&mut s2, base, fun, x, y)
                            }
                            r.push((t, s2))
                        }
                    }
                }
                r.into_iter().filter(|(t, _)| !matches!(fun.blocks[*t].term, Term::Unreachable)).collect()
            }
            Term::Assert { cond, expected, msg, target, .. } => {
                match self.operand(&s, base, fun, cond) {
                    C::Int(i) if (i != 0) == *expected => {}
                    _ => self.panic_at(f, msg, &s, stack),
                }
                vec![(*target, s)]
            }
            Term::Call { callee, args, dest, target, .. } => {
                let vals: Vec<C> = args.iter().map(|o| self.operand(&s, base, fun, o)).collect();
                let g = match callee {
                    Callee::Fn(g) => Some(*g),
                    Callee::Ptr(o) => match self.operand(&s, base, fun, o) {
                        C::Fn(g) => Some(g),
                        _ => None,
                    },
                };
                let t = match target {
                    Some(t) => *t,
                    None => {
                        let n = g.map(|g| p.short(g)).unwrap_or_default();
                        self.panic_at(f, &n, &s, stack);
                        return vec![];
                    }
                };
                let rs = match g {
                    Some(g) => {
                        stack.push(p.short(f));
                        let r = self.call(g, vals, s, depth, stack);
                        stack.pop();
                        r
                    }
                    None => vec![(s, C::Unknown)],
                };
                rs.into_iter()
                    .map(|(mut s, v)| {
                        self.store(&mut s, base, fun, dest, v);
                        (t, s)
                    })
                    .collect()
            }
            _ => vec![],
        }
    }
    /// x is not after y: the copies of one position, the copies of another
    fn not_after(&self, s: &mut S, base: usize, fun: &Func, x: &[Place], y: &[Place]) {
        let get = |s: &S, p: &[Place]| p.first().map(|p| self.load(s, &self.place(s, base, fun, p)));
        if let (Some(C::Pos { lo: xl, hi: xh }), Some(C::Pos { lo: yl, hi: yh })) = (get(s, x), get(s, y)) {
            for p in x {
                self.store(s, base, fun, p, C::Pos { lo: union(&xl, &yl), hi: xh.clone() })
            }
            for p in y {
                self.store(s, base, fun, p, C::Pos { lo: yl.clone(), hi: union(&yh, &xh) })
            }
        }
    }
    fn panic_at(&mut self, f: FnId, what: &str, s: &S, stack: &[String]) {
        // what must be absent for this to happen
        let mut any = vec![];
        for i in &s.vac {
            let (path, t) = &self.leaves[i.0 as usize];
            if i.1.iter().all(|x| *x == ALL) && (*t == pg().range || self.spanned.contains(t)) && elems(path) == 1 {
                // a list of things that all have a span, directly in a field of the node
                if let [Step::F(v, q), rest @ ..] = &path[..] {
                    if rest.first() == Some(&Step::Elem) && !rest[1..].iter().any(|x| matches!(x, Step::F(..))) {
                        any.push(format!("{}.{}", crate::facts::node_name(self.root, *v as usize), pg().adt(self.root).unwrap().variants[*v as usize].fields[*q as usize].name))
                    }
                }
            }
        }
        any.sort();
        any.dedup();
        let mut fname = pg().short(f);
        if !pg().f(f).local {
            if let Some(x) = stack.iter().rev().find(|n| pg().pr.fns.iter().any(|g| g.local && pg().short_of(g) == **n)) {
                fname = x.clone()
            }
        }
        self.panics.insert((fname, what.to_string(), any));
    }
    fn store(&self, s: &mut S, base: usize, fun: &Func, d: &Place, v: C) {
        match self.place(s, base, fun, d) {
            C::Cell(i, q) => {
                if i >= s.cells.len() {
                    s.cells.resize(i + 1, C::Unknown)
                }
                Ev::write_proj(&mut s.cells[i], &q, v)
            }
            _ => {}
        }
    }
    /// the part of the node a reference (to a reference ...) leads to
    fn part(&self, s: &S, v: &C) -> Option<Path> {
        match v {
            C::Ref(x) | C::Part(x) => Some(x.clone()),
            C::Cell(..) => {
                let w = self.load(s, v);
                match w {
                    C::Ref(_) | C::Part(_) | C::Cell(..) => self.part(s, &w),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn call(&mut self, g: FnId, vals: Vec<C>, s: S, depth: usize, stack: &mut Vec<String>) -> Vec<(S, C)> {
        let p = pg();
        let gf = p.f(g);
        let path = gf.path.as_str();
        let ti = gf.trait_item.as_deref().unwrap_or("");
        let out_ty = gf.output;
        // spans of other nodes
        if matches!(ti, "span::Spanned::span" | "span::OptSpanned::opt_span") {
            if let (Some(t), Some(x)) = (gf.self_ty, vals.first().and_then(|v| self.part(&s, v))) {
                if p.ast[t] && !x.is_empty() && self.ty_at(&x) == t {
                    if ti == "span::Spanned::span" {
                        let c = self.span_of(&x);
                        return vec![(s, c)];
                    }
                    let c = self.cover(&x);
                    if self.spanned.contains(&t) {
                        let c = self.span_of(&x);
                        return vec![(s, C::Adt(out_ty, 1, vec![c]))];
                    }
                    return vec![(s, C::Opt(out_ty, c.clone(), c))];
                }
            }
        }
        if ti == "core::clone::Clone::clone" {
            if let Some(v) = vals.first() {
                if let Some(x) = self.part(&s, v) {
                    let c = self.load(&s, &C::Part(x));
                    return vec![(s, c)];
                }
                let c = self.load(&s, v);
                return vec![(s, c)];
            }
        }
        if matches!(ti, "core::ops::Deref::deref" | "core::convert::AsRef::as_ref" | "core::borrow::Borrow::borrow") && !gf.local {
            if let Some(mut x) = vals.first().and_then(|v| self.part(&s, v)) {
                if p.adt(self.ty_at(&x)).map(|a| a.kind == AdtKind::Box).unwrap_or(false) {
                    x.push(Step::Box)
                }
                return vec![(s, C::Ref(x))];
            }
        }
        if path.ends_with("::as_slice") || path.ends_with("::iter") || (ti == "core::iter::IntoIterator::into_iter" && matches!(vals.first(), Some(C::Ref(_)))) {
            if let Some(x) = vals.first().and_then(|v| self.part(&s, v)) {
                if path.ends_with("::as_slice") {
                    return vec![(s, C::Ref(x))];
                }
                let t = self.ty_at(&x);
                if matches!(p.pr.types[t].kind, TyKind::Slice(_) | TyKind::Array(..)) || p.path(t) == "alloc::vec::Vec" {
                    let s = self.iter_start(s, &x);
                    return vec![(s, C::Iter(x))];
                }
            }
        }
        if ti == "core::iter::IntoIterator::into_iter" {
            if let Some(C::Iter(_)) = vals.first() {
                return vec![(s, vals[0].clone())];
            }
        }
        let is_empty = path.ends_with("::is_empty");
        if is_empty {
            if let Some(x) = vals.first().and_then(|v| self.part(&s, v)) {
                let mut y = x.clone();
                y.push(Step::Elem);
                let mut r = vec![(s.clone(), C::Int(0))];
                let all: Set = self.below(&x);
                if let Some(s2) = self.vac(s, all) {
                    r.push((s2, C::Int(1)))
                }
                return r;
            }
        }
        if ti == "core::iter::Iterator::next" {
            let v = vals.first().map(|v| self.load(&s, v));
            if let Some(C::Iter(x)) = v {
                return self.next(s, &x, out_ty);
            }
        }
        if ti == "core::iter::Iterator::fold" && !gf.local && gf.self_ty.map(|t| p.path(t).contains("slice::Iter")).unwrap_or(false) {
            if let Some(C::Iter(x)) = vals.first().cloned() {
                return self.fold(s, &x, vals[1].clone(), vals[2].clone(), gf, depth, stack);
            }
        }
        let minmax = if path.ends_with("::min") || ti == "core::cmp::Ord::min" {
            1
        } else if path.ends_with("::max") || ti == "core::cmp::Ord::max" {
            2
        } else {
            0
        };
        if minmax > 0 && vals.len() == 2 {
            if let (C::Pos { lo: a, hi: b }, C::Pos { lo: c, hi: d }) = (&vals[0], &vals[1]) {
                let v = [&s.vac];
                let i = |x: &Set, y: &Set| inter(&union(x, v[0]), &union(y, v[0]));
                let r = if minmax == 1 { C::Pos { lo: union(a, c), hi: i(b, d) } } else { C::Pos { lo: i(a, c), hi: union(b, d) } };
                return vec![(s, r)];
            }
            return vec![(s, C::Unknown)];
        }
        if matches!(ti, "core::ops::FnOnce::call_once" | "core::ops::FnMut::call_mut" | "core::ops::Fn::call") && gf.has_body && !gf.is_closure {
            // shim: run it
        }
        if gf.has_body && (gf.local || p.pr.fns[g].blocks.len() < 40) {
            return self.run(g, vals, s, depth + 1, stack);
        }
        self.notes.insert(format!("not evaluated: {}", p.short(g)));
        vec![(s, C::Unknown)]
    }
    fn next(&mut self, s: S, list: &[Step], out_ty: TyId) -> Vec<(S, C)> {
        let mut r = vec![];
        let mut e = list.to_vec();
        e.push(Step::Elem);
        r.push((self.iter_some(&s, list), C::Adt(out_ty, 1, vec![C::Ref(e)])));
        if let Some(n) = self.iter_none(&s, list) {
            r.push((n, C::Adt(out_ty, 0, vec![])))
        }
        r
    }
    fn fold(&mut self, s: S, list: &[Step], init: C, clo: C, gf: &Func, depth: usize, stack: &mut Vec<String>) -> Vec<(S, C)> {
        // the closure of this fold
        let body = gf.args.iter().chain(gf.inputs.iter()).find_map(|t| match &pg().pr.types[*t].kind {
            TyKind::Closure { body, .. } => *body,
            TyKind::FnDef(f) => *f,
            _ => None,
        });
        let body = match body {
            Some(b) => b,
            None => {
                self.notes.insert("fold with an unknown function".into());
                return vec![(s, C::Unknown)];
            }
        };
        let mut out = vec![];
        let mut work = vec![(s, init)];
        let mut seen: BTreeSet<(S, C)> = BTreeSet::new();
        let mut e = list.to_vec();
        e.push(Step::Elem);
        while let Some((mut s, acc)) = work.pop() {
            if !seen.insert((s.clone(), acc.clone())) || seen.len() > 200 {
                continue;
            }
            // the accumulator lives in a cell so that iteration updates what it covers
            let cell = s.cells.len();
            s.cells.push(acc);
            s.cells.push(clo.clone());
            if let Some(mut n) = self.iter_none(&s, list) {
                let acc = n.cells[cell].clone();
                n.cells.truncate(cell);
                out.push((n, acc));
            }
            let mut t = self.iter_some(&s, list);
            let acc = t.cells[cell].clone();
            t.cells[cell] = C::Unknown;
            let is_clo = pg().f(body).is_closure;
            let args = if is_clo { vec![C::Cell(cell + 1, vec![]), acc, C::Ref(e.clone())] } else { vec![acc, C::Ref(e.clone())] };
            let args = if is_clo && pg().f(body).spread { vec![args[0].clone(), C::Tup(args[1..].to_vec())] } else { args };
            for (mut s2, acc) in self.run(body, args, t, depth + 1, stack) {
                s2.cells.truncate(cell);
                work.push((s2, acc));
            }
        }
        out.sort();
        out.dedup();
        out
    }
}

/// the comparison a block branches on: its operator and, for each side, the places that hold the value
fn compared(b: &Block, discr: &Operand) -> Option<(String, Vec<Place>, Vec<Place>)> {
    let (Operand::Copy(d) | Operand::Move(d)) = discr else { return None };
    let assigned = |from: usize, l: Local| b.stmts[from..].iter().any(|(s, _)| matches!(s, Stmt::Assign(p, _) if p.local == l || p.proj.iter().any(|x| matches!(x, Proj::Deref))));
    let (at, (op, x, y)) = b.stmts.iter().enumerate().rev().find_map(|(i, (s, _))| match s {
        Stmt::Assign(p, Rvalue::Bin(op, x, y)) if p.local == d.local && d.proj.is_empty() && p.proj.is_empty() && ["Lt", "Le", "Gt", "Ge"].contains(&op.as_str()) => Some((i, (op.clone(), x, y))),
        _ => None,
    })?;
    let holders = |o: &Operand| {
        let mut r = vec![];
        let (Operand::Copy(p) | Operand::Move(p)) = o else { return r };
        let (mut p, mut before) = (p.clone(), at);
        while !assigned(before, p.local) {
            r.push(p.clone());
            if !p.proj.is_empty() {
                break;
            }
            let Some((i, q)) = b.stmts[..before].iter().enumerate().rev().find_map(|(i, (s, _))| match s {
                Stmt::Assign(w, r) if w.local == p.local => Some((i, if w.proj.is_empty() { r.clone() } else { Rvalue::Use(Operand::RuntimeCheck("".into())) })),
                _ => None,
            }) else {
                break;
            };
            let Rvalue::Use(Operand::Copy(q) | Operand::Move(q)) = q else { break };
            (p, before) = (q, i + 1);
        }
        r
    };
    let (x, y) = (holders(x), holders(y));
    Some((op, x, y))
}
pub fn all() -> CoverR {
    let p = pg();
    let mut r = CoverR::default();
    let mut impls: BTreeMap<TyId, (Option<FnId>, Option<FnId>)> = BTreeMap::new();
    for (i, f) in p.pr.fns.iter().enumerate() {
        if !f.has_body {
            continue;
        }
        if let Some(t) = f.self_ty {
            if p.ast[t] {
                match f.trait_item.as_deref() {
                    Some("span::Spanned::span") => impls.entry(t).or_default().0 = Some(i),
                    Some("span::OptSpanned::opt_span") => impls.entry(t).or_default().1 = Some(i),
                    _ => {}
                }
            }
        }
    }
    let spanned: BTreeSet<TyId> = impls.iter().filter(|x| x.1 .0.is_some()).map(|x| *x.0).collect();
    let opt_spanned: BTreeSet<TyId> = impls.iter().filter(|x| x.1 .0.is_none()).map(|x| *x.0).collect();
    r.shortened = shortened();
    for t in 0..p.pr.types.len() {
        if !p.ast[t] {
            continue;
        }
        let a = p.adt(t).unwrap();
        let f = match impls.get(&t) {
            Some((Some(f), _)) => *f,
            Some((None, Some(f))) => *f,
            _ => {
                let mut l = vec![];
                leaves(t, &mut vec![], &spanned, &opt_spanned, &mut l, 0);
                if !l.is_empty() {
                    r.no_span.insert(p.path(t).to_string());
                }
                continue;
            }
        };
        let mut lv = vec![];
        leaves(t, &mut vec![], &spanned, &opt_spanned, &mut lv, 0);
        for (vi, _) in a.variants.iter().enumerate() {
            let name = crate::facts::node_name(t, vi);
            let own: Vec<(Path, TyId)> = lv.iter().filter(|l| matches!(l.0.first(), Some(Step::F(v, _)) if *v as usize == vi)).cloned().collect();
            r.nodes.insert(name.clone(), own.len());
            r.leaves.insert(name.clone(), own.iter().map(|l| path_name(t, &l.0)).collect());
            let mut ev = Ev {
                root: t,
                var: vi as u32,
                leaves: own.clone(),
                spanned: spanned.clone(),
                opt_spanned: opt_spanned.clone(),
                panics: BTreeSet::new(),
                notes: BTreeSet::new(),
                calls: 0,
                fuel: 200_000,
            };
            let s = S { cells: vec![C::Part(vec![])], vac: Set::new() };
            let exits = ev.run(f, vec![C::Ref(vec![])], s, 0, &mut vec![]);
            r.evaluated += ev.calls;
            let mut missing: BTreeSet<usize> = BTreeSet::new();
            if exits.is_empty() && !own.is_empty() {
                missing.extend(0..own.len())
            }
            for (s, v) in &exits {
                let (lo, hi) = match v {
                    C::Adt(_, _, x) if x.len() == 2 => match (&x[0], &x[1]) {
                        (C::Pos { lo, .. }, C::Pos { hi, .. }) => (lo.clone(), hi.clone()),
                        _ => Default::default(),
                    },
                    C::Adt(_, 1, y) => match y.first() {
                        Some(C::Adt(_, _, x)) if x.len() == 2 => match (&x[0], &x[1]) {
                            (C::Pos { lo, .. }, C::Pos { hi, .. }) => (lo.clone(), hi.clone()),
                            _ => Default::default(),
                        },
                        _ => Default::default(),
                    },
                    C::Opt(_, lo, hi) => (lo.clone(), hi.clone()),
                    _ => Default::default(),
                };
                for (i, l) in own.iter().enumerate() {
                    let it: Item = (i as u16, vec![ALL; elems(&l.0)]);
                    if !(s.vac.contains(&it) || (lo.contains(&it) && hi.contains(&it))) {
                        missing.insert(i);
                    }
                }
            }
            for i in missing {
                r.uncovered.push((name.clone(), path_name(t, &own[i].0)))
            }
            for (f, w, any) in ev.panics {
                r.panics.push((name.clone(), f, w, any))
            }
            r.notes.extend(ev.notes);
        }
    }
    r
}

/// list fields of tree nodes that are written to, or lent mutably to anything but push and the like
fn shortened() -> BTreeSet<String> {
    let p = pg();
    let mut out = BTreeSet::new();
    for f in p.pr.fns.iter().filter(|f| f.local && f.has_body) {
        // the list field a place names, if any
        let field = |pl: &Place| -> Option<String> {
            let mut ty = f.locals[pl.local].ty;
            let mut var = 0;
            let mut r = None;
            for pr in &pl.proj {
                match pr {
                    Proj::Deref => {
                        ty = match &p.pr.types[ty].kind {
                            TyKind::Ref { to, .. } | TyKind::Ptr { to, .. } => *to,
                            TyKind::Adt(a) if a.kind == AdtKind::Box => a.args[0],
                            _ => return None,
                        }
                    }
                    Proj::Downcast(v) => var = *v,
                    Proj::Field(i, t) => {
                        r = match p.adt(ty) {
                            Some(a) if p.ast[ty] && p.path(*t) == "alloc::vec::Vec" => Some(format!("{}.{}", crate::facts::node_name(ty, var), a.variants[var].fields[*i].name)),
                            _ => None,
                        };
                        ty = *t;
                        var = 0
                    }
                    _ => return None,
                }
            }
            r
        };
        // locals that hold a mutable borrow of such a field
        let mut lent: BTreeMap<usize, String> = BTreeMap::new();
        for b in &f.blocks {
            for (s, _) in &b.stmts {
                if let Stmt::Assign(d, r) = s {
                    if let Some(n) = field(d) {
                        out.insert(n);
                    }
                    if let Rvalue::Ref { place, mutable: true } = r {
                        if let Some(n) = field(place) {
                            if d.proj.is_empty() {
                                lent.insert(d.local, n);
                            } else {
                                out.insert(n);
                            }
                        }
                    }
                }
            }
        }
        for b in &f.blocks {
            for (s, _) in &b.stmts {
                if let Stmt::Assign(_, Rvalue::Use(Operand::Move(q) | Operand::Copy(q))) = s {
                    if let Some(n) = lent.get(&q.local) {
                        out.insert(n.clone());
                    }
                }
            }
            if let Term::Call { callee, args, dest, .. } = &b.term {
                if let Some(n) = field(dest) {
                    out.insert(n);
                }
                let grows = matches!(callee, Callee::Fn(g) if ["push", "extend", "append", "insert", "extend_from_slice", "reserve", "iter_mut", "last_mut", "first_mut", "deref_mut", "as_mut_slice"].iter().any(|n| p.f(*g).path.ends_with(&format!("::{n}"))));
                for (i, a) in args.iter().enumerate() {
                    if let Operand::Move(q) | Operand::Copy(q) = a {
                        if let (Some(n), false) = (lent.get(&q.local), grows && i == 0) {
                            out.insert(n.clone());
                        }
                    }
                }
            }
        }
    }
    out
}

//! Scans of everything the entry points can reach: what parsing may depend on besides text and
//! options, and what it does to the list of issues.
use crate::prog::*;
use ir::*;
use serde::Serialize;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Default)]
pub struct ScanR {
    /// state, identity or environment that takes part in parsing
    pub pure: BTreeSet<String>,
    /// changes of recorded issues
    pub issues: BTreeSet<String>,
    pub functions: usize,
    pub local_functions: usize,
    pub calls_out: usize,
    pub crates: BTreeMap<String, usize>,
    pub statics: Vec<String>,
    pub types_of_the_interface: usize,
    /// places where the list of issues or its members are borrowed for change
    pub issue_writes: BTreeMap<String, usize>,
    /// functions that record an issue: each path of them does so once
    pub recorders: Vec<String>,
    pub attrs: Vec<String>,
}

pub fn reach(from: &[FnId]) -> BTreeSet<FnId> {
    let p = pg();
    let mut seen = BTreeSet::new();
    let mut st = from.to_vec();
    let by_ty = |t: TyId, st: &mut Vec<FnId>| match &p.pr.types[t].kind {
        TyKind::FnDef(Some(f)) => st.push(*f),
        TyKind::Closure { body: Some(f), .. } => st.push(*f),
        _ => {}
    };
    while let Some(f) = st.pop() {
        if !seen.insert(f) {
            continue;
        }
        st.extend(p.info(f).callees.iter().copied());
        let fun = p.f(f);
        for t in fun.args.iter().copied().chain(fun.locals.iter().map(|l| l.ty)) {
            by_ty(t, &mut st)
        }
    }
    seen
}

struct Scan {
    r: ScanR,
    issues: TyId,
    issue: TyId,
    list: Option<TyId>,
    frags: Option<TyId>,
    /// types that hold issues: Issues, Vec<Issue>, [Issue], Issue, Vec<Fragment>, Fragment
    held: BTreeSet<TyId>,
    handle: BTreeSet<TyId>,
}

fn pointee(t: TyId) -> Option<(bool, TyId)> {
    match &pg().pr.types[t].kind {
        TyKind::Ref { mutable, to } => Some((*mutable, *to)),
        _ => None,
    }
}
/// the type at each step of a projection
fn steps(fun: &Func, pl: &Place) -> Vec<TyId> {
    let p = pg();
    let mut v = vec![fun.locals[pl.local].ty];
    for i in 0..pl.proj.len() {
        let q = Place { local: pl.local, proj: pl.proj[..=i].to_vec() };
        v.push(p.type_of_place(fun, &q))
    }
    v
}

impl Scan {
    fn pure(&mut self, s: String) {
        self.r.pure.insert(s);
    }
    fn iss(&mut self, s: String) {
        self.r.issues.insert(s);
    }
    /// what may be called out of the crate
    fn call_out(&mut self, f: &str, g: &Func) {
        self.r.calls_out += 1;
        *self.r.crates.entry(g.krate.clone()).or_default() += 1;
        if !matches!(g.krate.as_str(), "core" | "alloc" | "") {
            self.pure(format!("{f} calls {} of the crate {}", g.path, g.krate));
            return;
        }
        let path = &g.path;
        const BAD: [&str; 12] = ["core::ptr::", "::as_ptr", "::as_mut_ptr", "::as_ptr_range", "sync::atomic", "core::cell", "new_pointer", "::ptr_eq", "align_offset", "core::arch", "strong_count", "::addr"];
        for b in BAD {
            if path.contains(b) && !path.contains("drop_in_place") {
                self.pure(format!("{f} calls {path}"));
                return;
            }
        }
        let ti = g.trait_item.as_deref().unwrap_or("");
        let self_ptr = g.args.first().or(g.self_ty.as_ref()).map(|t| matches!(pg().pr.types[*t].kind, TyKind::Ptr { .. } | TyKind::FnPtr)).unwrap_or(false);
        if ti.starts_with("core::fmt::Pointer") || (self_ptr && (ti.starts_with("core::cmp") || ti.starts_with("core::hash") || ti.starts_with("core::fmt"))) {
            self.pure(format!("{f} uses the value of a pointer ({ti})"))
        }
    }
    fn body(&mut self, f: FnId) {
        let p = pg();
        let fun = p.f(f);
        let name = p.short(f);
        let isptr = |t: TyId| matches!(p.pr.types[t].kind, TyKind::Ptr { .. } | TyKind::FnPtr);
        let oty = |o: &Operand| match o {
            Operand::Copy(q) | Operand::Move(q) => Some(p.type_of_place(fun, q)),
            Operand::Const(k) => Some(k.ty),
            _ => None,
        };
        for l in &fun.locals {
            if l.ty == self.issues || Some(l.ty) == self.list {
                let w = format!("{name} makes or takes away a list of issues");
                self.iss(w)
            }
        }
        for (bi, b) in fun.blocks.iter().enumerate() {
            if b.cleanup || p.info(f).rpo[bi] == usize::MAX {
                continue;
            }
            for (s, _) in &b.stmts {
                let (d, r) = match s {
                    Stmt::Assign(d, r) => (d, r),
                    _ => continue,
                };
                self.written(&name, fun, d);
                match r {
                    Rvalue::ThreadLocal(n) => self.pure(format!("{name} uses the thread local {n}")),
                    Rvalue::Cast(k, o, to) => {
                        if k.contains("Expose") || k.contains("PtrToInt") || (oty(o).map(isptr).unwrap_or(false) && matches!(p.pr.types[*to].kind, TyKind::Int { .. })) {
                            self.pure(format!("{name} uses an address as a number"))
                        }
                    }
                    Rvalue::Bin(op, a, b2) => {
                        if matches!(op.as_str(), "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge" | "Cmp" | "Offset") && (oty(a).map(isptr).unwrap_or(false) || oty(b2).map(isptr).unwrap_or(false)) {
                            self.pure(format!("{name} compares addresses"))
                        }
                    }
                    Rvalue::Use(Operand::Copy(q) | Operand::Move(q)) | Rvalue::Ref { mutable: false, place: q } | Rvalue::Discr(q) | Rvalue::Len(q) => self.read(&name, fun, q, matches!(r, Rvalue::Ref { .. })),
                    Rvalue::Ref { mutable: true, place: q } => {
                        let t = p.type_of_place(fun, q);
                        if self.held.contains(&t) {
                            *self.r.issue_writes.entry(format!("{name}: &mut {}", p.tyname(t))).or_default() += 1
                        }
                    }
                    _ => {}
                }
            }
            if let Term::Call { callee, args, dest, .. } = &b.term {
                self.written(&name, fun, dest);
                let g = match callee {
                    Callee::Fn(g) => p.f(*g),
                    Callee::Ptr(_) => continue,
                };
                if g.local {
                    continue;
                }
                self.call_out(&name, g);
                let gn = g.path.rsplit("::").next().unwrap_or("");
                for (i, a) in args.iter().enumerate() {
                    let t = match oty(a) {
                        Some(t) => t,
                        None => continue,
                    };
                    if let Some((m, to)) = pointee(t) {
                        if !self.held.contains(&to) {
                            continue;
                        }
                        let what = format!("{name} calls {} on {}", g.path, p.tyname(to));
                        if m {
                            let ok = match gn {
                                "push" => i == 0,
                                "last_mut" | "deref_mut" | "as_mut_slice" | "as_mut" | "reserve" | "by_ref" => true,
                                "index_mut" | "get_mut" => args.get(1).map(|x| self.from_len(f, x)).unwrap_or(false),
                                _ => false,
                            };
                            if !ok {
                                self.iss(what)
                            }
                        } else {
                            let ok = match gn {
                                "len" => Some(dest).map(|d| d.proj.is_empty() && self.only_index(f, d.local)).unwrap_or(false),
                                "deref" | "as_ref" | "as_slice" => true,
                                _ => false,
                            };
                            if !ok {
                                self.pure(what)
                            }
                        }
                    }
                }
            }
        }
    }
    /// a place is given a new value
    fn written(&mut self, name: &str, fun: &Func, d: &Place) {
        let p = pg();
        let st = steps(fun, d);
        let mut deref = false;
        let mut owner = false;
        for (i, pr) in d.proj.iter().enumerate() {
            if matches!(pr, Proj::Deref) {
                deref = true
            }
            if deref && self.held.contains(&st[i + 1]) {
                owner = true
            }
        }
        let last = *st.last().unwrap();
        let swapped = deref && pointee(last).map(|(m, t)| m && self.held.contains(&t)).unwrap_or(false);
        if owner || swapped {
            self.iss(format!("{name} gives a recorded issue or the list of issues a new value ({})", p.tyname(last)))
        }
    }
    /// a place is read: contents of the issues must not take part
    fn read(&mut self, name: &str, fun: &Func, q: &Place, by_ref: bool) {
        let p = pg();
        let st = steps(fun, q);
        for (i, t) in st.iter().enumerate() {
            if *t == self.issue && i < q.proj.len() && q.proj[..i].iter().any(|x| matches!(x, Proj::Deref)) {
                // a field of a recorded issue
                if by_ref || !q.proj[i..].is_empty() {
                    self.pure(format!("{name} reads a recorded issue ({})", p.tyname(*st.last().unwrap())))
                }
            }
        }
    }
    /// is the local only used to index
    fn only_index(&self, f: FnId, l: Local) -> bool {
        let p = pg();
        let fun = p.f(f);
        let mut set: BTreeSet<Local> = [l].into();
        loop {
            let n = set.len();
            let uses = |o: &Operand, set: &BTreeSet<Local>| matches!(o, Operand::Copy(q) | Operand::Move(q) if set.contains(&q.local));
            for b in &fun.blocks {
                if b.cleanup {
                    continue;
                }
                for (s, _) in &b.stmts {
                    if let Stmt::Assign(d, r) = s {
                        let (hit, ok) = match r {
                            Rvalue::Use(o) | Rvalue::Cast(_, o, _) => (uses(o, &set), true),
                            Rvalue::Bin(op, a, c) | Rvalue::CheckedBin(op, a, c) => (uses(a, &set) || uses(c, &set), op.starts_with("Sub") || op.starts_with("Add")),
                            Rvalue::Ref { place, .. } | Rvalue::AddrOf { place, .. } => (set.contains(&place.local), false),
                            Rvalue::Agg(_, v) => (v.iter().any(|o| uses(o, &set)), false),
                            Rvalue::Un(_, o) | Rvalue::Repeat(o, _) => (uses(o, &set), false),
                            _ => (false, true),
                        };
                        if hit {
                            if !ok || !d.proj.is_empty() {
                                return false;
                            }
                            set.insert(d.local);
                        }
                    }
                }
                match &b.term {
                    Term::Call { callee, args, .. } => {
                        if args.iter().any(|a| uses(a, &set)) {
                            let n = match callee {
                                Callee::Fn(g) => p.f(*g).path.rsplit("::").next().unwrap_or(""),
                                _ => "",
                            };
                            if !matches!(n, "index" | "index_mut" | "get_mut") {
                                return false;
                            }
                        }
                    }
                    Term::Switch { discr, .. } if uses(discr, &set) => return false,
                    Term::Return if set.contains(&0) => return false,
                    _ => {}
                }
            }
            if set.len() == n {
                return true;
            }
        }
    }
    /// does the operand stem from the length of the list
    fn from_len(&self, f: FnId, o: &Operand) -> bool {
        let p = pg();
        let fun = p.f(f);
        let mut want: BTreeSet<Local> = match o {
            Operand::Copy(q) | Operand::Move(q) => [q.local].into(),
            _ => return false,
        };
        let mut found = false;
        loop {
            let n = want.len();
            for b in &fun.blocks {
                for (s, _) in &b.stmts {
                    if let Stmt::Assign(d, r) = s {
                        if want.contains(&d.local) {
                            match r {
                                Rvalue::Use(Operand::Copy(q) | Operand::Move(q)) => {
                                    want.insert(q.local);
                                }
                                Rvalue::Bin(_, a, c) | Rvalue::CheckedBin(_, a, c) => {
                                    for o in [a, c] {
                                        if let Operand::Copy(q) | Operand::Move(q) = o {
                                            want.insert(q.local);
                                        }
                                    }
                                }
                                _ => return false,
                            }
                        }
                    }
                }
                if let Term::Call { callee: Callee::Fn(g), dest, args, .. } = &b.term {
                    if want.contains(&dest.local) {
                        let ok = p.f(*g).path.ends_with("::len") && args.first().map(|a| matches!(a, Operand::Copy(q) | Operand::Move(q) if pointee(p.type_of_place(fun, q)).map(|x| self.held.contains(&x.1)).unwrap_or(false))).unwrap_or(false);
                        if !ok {
                            return false;
                        }
                        found = true
                    }
                }
            }
            if want.len() == n {
                return found;
            }
        }
    }
    /// each path of a function that gives a handle to a new issue records exactly one
    fn recorder(&mut self, f: FnId) {
        let p = pg();
        let fun = p.f(f);
        let n = fun.blocks.len();
        // least and greatest number of issues recorded before a block
        let mut at: Vec<Option<(u8, u8)>> = vec![None; n];
        at[0] = Some((0, 0));
        let mut work = vec![0];
        let mut at_end: Option<(u8, u8)> = None;
        while let Some(b) = work.pop() {
            let (mut lo, mut hi) = at[b].unwrap();
            if let Term::Call { callee: Callee::Fn(g), args, .. } = &fun.blocks[b].term {
                let gf = p.f(*g);
                let list = args.first().and_then(|a| match a {
                    Operand::Copy(q) | Operand::Move(q) => pointee(p.type_of_place(fun, q)),
                    _ => None,
                });
                let push = !gf.local && gf.path.ends_with("::push") && list.map(|x| Some(x.1) == self.list).unwrap_or(false);
                if push || (gf.local && self.handle.contains(&gf.output)) {
                    lo = (lo + 1).min(2);
                    hi = (hi + 1).min(2)
                }
            }
            if matches!(fun.blocks[b].term, Term::Return) {
                at_end = Some(match at_end {
                    None => (lo, hi),
                    Some((a, c)) => (a.min(lo), c.max(hi)),
                });
            }
            for s in &p.info(f).succs[b] {
                if fun.blocks[*s].cleanup {
                    continue;
                }
                let new = match at[*s] {
                    None => (lo, hi),
                    Some((a, c)) => (a.min(lo), c.max(hi)),
                };
                if at[*s] != Some(new) {
                    at[*s] = Some(new);
                    work.push(*s)
                }
            }
        }
        let name = p.short(f);
        match at_end {
            Some((1, 1)) | None => self.r.recorders.push(name),
            Some((0, _)) => self.iss(format!("{name} can return without recording the issue")),
            _ => self.iss(format!("{name} can record more than one issue")),
        }
    }
    /// types reachable from the options and the list of issues hold no hidden state
    fn deep(&mut self, root: TyId) {
        let p = pg();
        let mut seen = BTreeSet::new();
        let mut st = vec![root];
        while let Some(t) = st.pop() {
            if !seen.insert(t) {
                continue;
            }
            if !p.pr.types[t].freeze {
                self.pure(format!("{} reachable from {} has interior mutability", p.tyname(t), p.tyname(root)))
            }
            match &p.pr.types[t].kind {
                TyKind::Adt(a) => {
                    if a.path.starts_with("alloc::rc") || a.path.starts_with("alloc::sync") || a.path.contains("::cell::") || a.path.contains("atomic") {
                        self.pure(format!("{} reachable from {} can be shared state", p.tyname(t), p.tyname(root)))
                    }
                    if a.local {
                        a.variants.iter().for_each(|v| st.extend(v.fields.iter().map(|f| f.ty)))
                    }
                    st.extend(a.args.iter().copied())
                }
                TyKind::Tuple(v) => st.extend(v.iter().copied()),
                TyKind::Ref { to, .. } | TyKind::Ptr { to, .. } => st.push(*to),
                TyKind::Slice(x) | TyKind::Array(x, _) => st.push(*x),
                TyKind::FnPtr => self.pure(format!("{} holds a function pointer", p.tyname(root))),
                _ => {}
            }
        }
        self.r.types_of_the_interface += seen.len()
    }
}

pub fn all() -> ScanR {
    let p = pg();
    let mut s = Scan { r: ScanR::default(), issues: p.issues, issue: p.issue, list: None, frags: None, held: BTreeSet::new(), handle: BTreeSet::new() };
    let roots = match crate::root::entries() {
        Ok(v) => v,
        Err(e) => {
            s.r.pure.insert(e.clone());
            s.r.issues.insert(e);
            return s.r;
        }
    };
    let frag = p.find_ty("issue::Fragment");
    s.held.extend([p.issues, p.issue]);
    s.held.extend(frag);
    for t in 0..p.pr.types.len() {
        let of = match &p.pr.types[t].kind {
            TyKind::Adt(a) if a.path == "alloc::vec::Vec" => a.args.first().copied(),
            TyKind::Slice(x) => Some(*x),
            _ => None,
        };
        if of == Some(p.issue) {
            s.held.insert(t);
            if p.path(t) == "alloc::vec::Vec" {
                s.list = Some(t)
            }
        }
        if of.is_some() && of == frag {
            s.held.insert(t);
            if p.path(t) == "alloc::vec::Vec" {
                s.frags = Some(t)
            }
        }
        if p.path(t) == "issue::IssueHandle" {
            s.handle.insert(t);
        }
    }
    if s.list.is_none() || s.handle.is_empty() {
        s.iss("anchor missing: the list of issues or the handle to a recorded issue".into())
    }
    for st in &p.pr.statics {
        s.r.statics.push(format!("{}: {}", st.name, st.ty));
        if st.mutable || st.interior {
            s.pure(format!("static {} can change", st.name))
        }
    }
    for i in &p.pr.impls {
        // written by derive(Clone), not by hand
        if i.unsafe_ && !i.trait_.ends_with("TrivialClone") {
            s.pure(format!("unsafe impl {} for {}", i.trait_, i.self_ty))
        }
    }
    s.r.attrs = p.pr.crate_attrs.clone();
    s.deep(p.opts);
    s.deep(p.issues);
    let all = reach(&roots);
    s.r.functions = all.len();
    for f in &all {
        let fun = p.f(*f);
        if !fun.local || !fun.has_body {
            continue;
        }
        s.r.local_functions += 1;
        s.body(*f);
        if s.handle.contains(&fun.output) && !fun.is_closure {
            s.recorder(*f)
        }
    }
    s.r
}

//! An error stays within its statement.
//!
//! The token analysis again, for one delimiter at a time. Where the statements of a text are
//! collected, the state also says whether the delimiter was read since the last statement, whether
//! a statement read still has to be put into the result, and whether an Error is due.
use crate::interp::*;
use crate::prog::*;
use crate::report::*;
use crate::state::*;
use crate::val::*;
use ir::*;
use serde::Serialize;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const CONF: u8 = 1;
/// nothing was read, or the delimiter after the last statement was
pub const SEP: u8 = 2;
/// the last statement was read, no delimiter after it and no Error yet
pub const OWED: u8 = 4;
/// the last statement was not put into the result yet
pub const HELD: u8 = 8;
/// the list was made
pub const LIST: u8 = 16;
/// between $$ and $$
pub const QUOTE: u8 = 32;

fn is_statement(t: TyId) -> bool {
    pg().path(t) == "statement::Statement"
}
/// a statement, perhaps, or an error: not a list
pub fn one_statement(t: TyId) -> bool {
    is_statement(t)
        || match &pg().pr.types[t].kind {
            TyKind::Adt(a) => matches!(pg().path(t), "core::option::Option" | "core::result::Result") && a.args.iter().any(|t| one_statement(*t)),
            _ => false,
        }
}
fn statement_list(t: TyId) -> bool {
    match &pg().pr.types[t].kind {
        TyKind::Adt(a) => pg().path(t) == "alloc::vec::Vec" && a.args.first().map(|t| is_statement(*t)).unwrap_or(false),
        TyKind::Ref { to, .. } => statement_list(*to),
        _ => false,
    }
}
/// the value, taken apart by whether it has a statement
pub fn statement_or_not(v: &V, t: TyId) -> Vec<(V, bool)> {
    let p = pg();
    if is_statement(t) {
        return vec![(v.clone(), true)];
    }
    if !one_statement(t) {
        return vec![(v.clone(), false)];
    }
    match v {
        V::Adt(a) => {
            let mut r: Vec<(V, bool)> = vec![];
            for (i, f) in &a.vars {
                let fl = &p.adt(t).unwrap().variants[*i as usize].fields;
                let one = |f: Vec<V>| V::Adt(Rc::new(AdtV { ty: a.ty, vars: vec![(*i, f)] }));
                match (f.len(), fl.first()) {
                    (1, Some(x)) => r.extend(statement_or_not(&f[0], x.ty).into_iter().map(|(v, b)| (one(vec![v]), b))),
                    _ => r.push((one(f.clone()), false)),
                }
            }
            r
        }
        v => vec![(v.clone(), true), (v.clone(), false)],
    }
}

impl Eng {
    /// the delimiter stays what it is
    pub fn pin(&self, st: &mut St) -> bool {
        let p = pg();
        let d = match self.cfg.delim {
            Some(d) => d,
            None => return true,
        };
        for i in (0..p.roles.len()).filter(|i| matches!(p.roles[*i], "delimiter" | "outer")) {
        for c in 0..st.cells.len() {
            let t = match &st.cells[c] {
                V::Adt(a) if a.ty == p.parser && a.vars.len() == 1 => match a.vars[0].1[i] {
                    V::Tok(t) => t,
                    _ => continue,
                },
                _ => continue,
            };
            if !st.refine(t, &KS::one(d)) {
                return false;
            }
            if let V::Adt(a) = &mut st.cells[c] {
                Rc::make_mut(a).vars[0].1[i] = V::TokC(d as u32)
            }
        }
        }
        true
    }
    pub fn confined_call(&mut self, g: FnId, vals: &[V], st: &mut St) {
        let p = pg();
        if st.g.conf & CONF == 0 {
            return;
        }
        let gf = p.f(g);
        let w = self.local_fn(self.cur);
        if gf.local && one_statement(gf.output) && gf.inputs.iter().any(|t| matches!(p.pr.types[*t].kind, TyKind::Ref { to, .. } if to == p.parser)) {
            return;
        }
        if gf.local || !gf.inputs.first().map(|t| statement_list(*t)).unwrap_or(false) && !(vals.is_empty() && statement_list(gf.output)) {
            return;
        }
        match gf.path.rsplit("::").next().unwrap_or("") {
            "new" | "with_capacity" => {
                if st.g.conf & LIST != 0 {
                    self.finding("C18", &w, "makes a second list of statements", "")
                }
                st.g.conf |= LIST
            }
            "push" => {
                let stdin = match vals.get(1) {
                    Some(V::Node(n)) if !n.vars.is_empty() => n.vars.iter().all(|v| p.adt(n.ty).unwrap().variants[*v as usize].name == "Stdin"),
                    Some(V::Adt(a)) => a.vars.iter().all(|v| p.adt(a.ty).unwrap().variants[v.0 as usize].name == "Stdin"),
                    _ => false,
                };
                *self.seen.c18.entry(format!("{} adds {}", w, if stdin { "data" } else { "a statement" })).or_insert(0) += 1;
                let held = st.g.conf & HELD != 0;
                if !stdin {
                    st.g.conf &= !HELD
                }
                if !stdin && !held {
                    self.finding("C18", &w, "can put a statement into the result that is not the one just read, or that is there already", "")
                }
            }
            "extend" => st.g.conf &= !HELD,
            "len" | "is_empty" | "reserve" | "capacity" | "last" | "first" | "iter" | "deref" | "as_slice" | "get" | "shrink_to_fit" | "drop_in_place" | "drop" => {}
            n => self.finding("C18", &w, &format!("can change the list of statements by {}", n), ""),
        }
    }
    /// a statement was read, in this state
    pub fn confined_statement(&mut self, g: FnId, st: &St) {
        let p = pg();
        let w = self.local_fn(self.cur);
        {
            *self.seen.c18.entry(format!("{} calls {}", w, p.short(g))).or_insert(0) += 1;
            if st.g.conf & SEP == 0 {
                self.finding("C18", &w, "can go on with a statement although no delimiter was read after the last one", "")
            }
            if st.g.conf & OWED != 0 {
                self.finding("C18", &w, "can go on with a statement although the last one was followed by no delimiter, without an Error", "")
            }
            if st.g.conf & HELD != 0 {
                self.finding("C18", &w, "can go on with a statement without having put the last one into the result", "")
            }
        }
    }
    /// one token was read past
    pub fn quote(&self, t: &V, d: usize, s: &mut St) {
        let ks = match t {
            V::Tok(x) => s.ks(*x),
            V::TokC(k) => KS::one(*k as usize),
            _ => return,
        };
        match (ks.single(), pg().kind_named("DoubleDollar")) {
            (Some(k), Some(q)) if k == q && k != d => s.g.conf ^= QUOTE,
            _ => {}
        }
    }
    /// one token was read past: the delimiter within a statement?
    pub fn confined_single(&mut self, me: CtxId, t: &V, d: usize, s: &St) {
        let p = pg();
        let ks = match t {
            V::Tok(x) => s.ks(*x),
            V::TokC(k) => KS::one(*k as usize),
            _ => return,
        };
        if ks.single() != Some(d) || d != p.semi || s.g.conf & CONF != 0 {
            return;
        }
        let n = self.local_fn(me);
        let n = n.split("::{closure").next().unwrap_or(&n).to_string();
        let f = match (0..p.pr.fns.len()).find(|f| p.f(*f).local && p.short(*f) == n) {
            Some(f) => f,
            None => return,
        };
        let list = |t: TyId| statement_list(t);
        let gf = p.f(f);
        let holds = gf.locals.iter().any(|l| list(l.ty));
        if holds {
            *self.seen.c18.entry(format!("{} reads the delimiter within a list of statements", n)).or_insert(0) += 1
        } else if p.returns_tree(f) {
            self.finding("C18", &n, "can read the delimiter as a part of a statement", "")
        }
    }
    /// the current token was read past
    pub fn confined_read(&mut self, me: CtxId, t0: &V, s: &mut St) {
        let p = pg();
        let d = self.cfg.delim.unwrap();
        if cur_token(s).as_ref() == Some(t0) {
            return;
        }
        let ks = match t0 {
            V::Tok(x) => s.ks(*x),
            V::TokC(k) => KS::one(*k as usize),
            _ => p.all(),
        };
        if s.g.conf & QUOTE != 0 {
            return;
        }
        // what was read between the delimiter and a statement must be a DELIMITER statement of its own
        if !ks.has(d) {
            s.g.conf &= !SEP;
            return;
        }
        let w = self.local_fn(me);
        if ks.single() == Some(d) {
            *self.seen.c18.entry(format!("{} reads the delimiter", w)).or_insert(0) += 1;
            if s.g.conf & CONF != 0 {
                s.g.conf = s.g.conf & !OWED | SEP
            }
        } else {
            self.finding("C18", &w, "can skip the delimiter along with other tokens", &p.ks_names(&ks))
        }
    }
    pub fn confined_exit(&mut self, c: CtxId, st: &St) {
        let f = self.ctxs[c].f;
        let gf = pg().f(f);
        if st.g.conf & CONF == 0 || !statement_list(gf.output) {
            return;
        }
        let w = pg().short(f);
        *self.seen.c18.entry(format!("{} returns", w)).or_insert(0) += 1;
        if st.g.conf & HELD != 0 {
            self.finding("C18", &w, "can return without having put the last statement into the result", "")
        }
        if st.g.conf & OWED != 0 {
            self.finding("C18", &w, "can return although the last statement was followed by no delimiter, without an Error", "")
        }
        if cur_token(st).is_some() && !at_end(st).1 {
            self.finding("C18", &w, "can return before the end of the text", "")
        }
    }
}
#[derive(Default, Serialize, Clone)]
pub struct ConfR {
    pub dialect: String,
    pub delimiter: String,
    pub findings: Vec<Found>,
    pub contexts: usize,
    pub functions: usize,
    pub exhausted: bool,
    pub unmodelled: BTreeMap<String, usize>,
    pub seen: BTreeMap<String, u64>,
}
/// for each dialect and delimiter
pub fn all() -> Vec<ConfR> {
    let p = pg();
    let names: Vec<String> = p.find_ty("SQLDialect").map(|t| p.adt(t).unwrap().variants.iter().map(|v| v.name.clone()).collect()).unwrap_or_default();
    let mut jobs = vec![];
    for (i, n) in names.iter().enumerate() {
        for d in ["SemiColon", "DoubleDollar"] {
            jobs.push((i, n.clone(), d))
        }
    }
    let jobs = std::sync::Mutex::new(jobs);
    let out = std::sync::Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..6 {
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(sc, || {
                    loop {
                        let j = jobs.lock().unwrap().pop();
                        match j {
                            Some((i, n, d)) => {
                                let r = one(i, &n, d);
                                out.lock().unwrap().push(r)
                            }
                            None => break,
                        }
                    }
                })
                .unwrap();
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by(|a: &ConfR, b| (&a.dialect, &a.delimiter).cmp(&(&b.dialect, &b.delimiter)));
    v
}
fn one(dialect: usize, name: &str, delim: &str) -> ConfR {
    let p = pg();
    let mut r = ConfR { dialect: name.into(), delimiter: delim.into(), ..Default::default() };
    let add = |r: &mut ConfR, func: &str, what: &str, detail: &str| r.findings.push(Found { prop: "C18".into(), func: func.into(), what: what.into(), detail: detail.into() });
    let d = match p.kind_named(delim) {
        Some(d) => d,
        None => {
            add(&mut r, "", &format!("anchor missing: Token::{}", delim), "");
            return r;
        }
    };
    let opts = [("dialect".to_string(), dialect as i128)].into_iter().collect();
    let mut e = Eng::new(Cfg { mode: Mode::Token, opts, delim: Some(d), nest: false });
    match crate::root::entries() {
        Ok(l) => {
            for f in l {
                if statement_list(p.f(f).output) {
                    e.root_with(f, CONF | SEP);
                    e.solve()
                }
            }
        }
        Err(m) => add(&mut r, "", &m, ""),
    }
    r.contexts = e.ctxs.len();
    r.functions = e.obs.fns.len();
    r.exhausted = e.exhausted;
    r.unmodelled = e.obs.unmodelled.clone();
    r.seen = e.seen.c18.clone();
    for (k, d) in &e.obs.rules {
        if k.rule == "C18" {
            add(&mut r, &k.func, &k.what, d)
        }
    }
    r.findings.sort();
    r.findings.dedup();
    r
}

//! Brackets and commas of accepted text.
//!
//! The token analysis again; the state also says which brackets were read since the function was
//! entered and have no counterpart yet, and whether a comma or an opening bracket was read last.
use crate::interp::*;
use crate::prog::*;
use crate::report::*;
use crate::state::*;
use crate::val::*;
use serde::Serialize;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default, PartialOrd, Ord)]
pub enum Last {
    /// nothing was read since entry
    #[default]
    Nothing,
    /// only the token that was current at entry
    First,
    Comma,
    Open,
    Other,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Nest {
    pub on: bool,
    /// kinds of the first token read since entry
    pub first: Option<KS>,
    /// whether that is a bracket is left to the caller
    pub open: bool,
    /// closing brackets, then opening ones, without counterpart
    pub br: Vec<u8>,
    pub last: Last,
    /// types of list elements added since the last comma
    pub since: BTreeSet<ir::TyId>,
    /// kinds read after a comma
    pub after: RawKS,
    pub ev: BTreeSet<String>,
}
const OPEN: [&str; 3] = ["LParen", "LBracket", "LBrace"];
const CLOSE: [&str; 3] = ["RParen", "RBracket", "RBrace"];
const DEEP: usize = 2;
/// brackets without counterpart in more functions than this are not the work of helpers
pub const SPREAD: usize = 6;
pub struct Kinds {
    open: Vec<usize>,
    close: Vec<usize>,
    comma: usize,
    /// what stands between the elements of a list, or of a name
    apart: RawKS,
    all: RawKS,
    /// what no comma stands before
    stop: RawKS,
}
pub fn kinds() -> &'static Kinds {
    static K: std::sync::OnceLock<Kinds> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        let p = pg();
        let g = |n: &str| p.kind_named(n).unwrap_or_else(|| { eprintln!("anchor missing: Token::{}", n); std::process::exit(2) });
        let open: Vec<usize> = OPEN.iter().map(|n| g(n)).collect();
        let close: Vec<usize> = CLOSE.iter().map(|n| g(n)).collect();
        let comma = g("Comma");
        let mut all = RawKS::empty();
        let mut stop = RawKS::empty();
        open.iter().chain(&close).for_each(|k| all.add(*k));
        close.iter().for_each(|k| stop.add(*k));
        stop.add(comma);
        stop.add(p.semi);
        stop.add(p.eof);
        for i in 0..p.kinds.len() {
            if STOP.get().map(|s| s.contains(&p.kind_name(i))).unwrap_or(false) {
                stop.add(i)
            }
        }
        let mut apart = RawKS::empty();
        apart.add(comma);
        apart.add(g("Period"));
        Kinds { open, close, comma, apart, all, stop }
    })
}
pub static SPACED: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
pub static STOP: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
/// are elements of this type written with commas between them?
pub fn listed(t: ir::TyId) -> bool {
    fn tree(t: ir::TyId) -> bool {
        let p = pg();
        p.ast[t]
            || match &p.pr.types[t].kind {
                ir::TyKind::Tuple(v) => v.iter().any(|t| tree(*t)),
                ir::TyKind::Adt(a) if !a.local => a.args.iter().any(|t| tree(*t)),
                _ => false,
            }
    }
    let p = pg();
    tree(t) && !SPACED.get().map(|s| s.iter().any(|n| n == p.path(t))).unwrap_or(false)
}
impl Nest {
    fn say(&mut self, s: &str) {
        self.ev.insert(s.to_string());
    }
    fn bracket(&mut self, b: u8) {
        if !self.on {
            return;
        }
        if b < 4 {
            match self.br.last().copied() {
                Some(o) if o >= 4 => {
                    self.br.pop();
                    if o - 4 != b {
                        self.say(&format!("closes {} by {}", OPEN[o as usize - 4], CLOSE[b as usize]))
                    }
                    return;
                }
                _ => {}
            }
        }
        self.br.push(b);
        if self.br.len() > DEEP {
            // no need to follow them further
            self.say("reads ever more brackets without counterpart");
            self.br.clear();
            self.on = false
        }
    }
    /// the effect of a token
    fn effect(&mut self, k: KS, first: bool) {
        let kn = kinds();
        let b = k.and(&kn.all.ks());
        if b.empty() {
            return;
        }
        if let Some(i) = k.single() {
            let n = kn.open.iter().position(|x| *x == i).map(|x| x as u8 + 4).or(kn.close.iter().position(|x| *x == i).map(|x| x as u8)).unwrap();
            return self.bracket(n);
        }
        if first {
            self.open = true
        } else if k.count() <= 200 {
            self.say(&format!("reads a bracket like any of {}", pg().ks_names(&k)))
        }
    }
    fn beside(&mut self, k: KS) {
        let kn = kinds();
        let before = match (self.last, self.first) {
            (Last::First, Some(f)) if f.single() == Some(kn.comma) => Last::Comma,
            (Last::First, Some(f)) if f.single().map(|i| kn.open.contains(&i)).unwrap_or(false) => Last::Open,
            (l, _) => l,
        };
        if before == Last::Comma {
            k.iter().for_each(|k| self.after.add(k))
        }
        if before == Last::Comma && k.subset(&kn.stop.ks()) {
            self.say(&format!("accepts a comma before {}", pg().ks_names(&k)))
        }
        if before == Last::Open && k.single() == Some(kn.comma) {
            self.say("accepts a comma after an opening bracket")
        }
    }
    /// the token was read
    pub fn read(&mut self, k: KS) {
        self.step(k, true)
    }
    fn step(&mut self, k: KS, effect: bool) {
        if k.empty() || !self.on {
            return;
        }
        let first = self.first.is_none();
        if first {
            self.first = Some(k);
            self.last = Last::First;
            if k.subset(&kinds().apart.ks()) {
                self.since.clear()
            }
        } else {
            self.beside(k);
            let kn = kinds();
            if k.subset(&kn.apart.ks()) {
                self.since.clear()
            }
            self.last = match k.single() {
                Some(i) if i == kn.comma => Last::Comma,
                Some(i) if kn.open.contains(&i) => Last::Open,
                _ => Last::Other,
            }
        }
        if effect {
            self.effect(k, first)
        }
    }
    /// a function that did `o` was called; `k`: the token at hand before
    pub fn called(&mut self, o: &Nest, k: KS) {
        let f = match o.first {
            Some(f) => f,
            None => return,
        };
        let k = k.and(&f);
        self.step(k, o.open);
        for b in &o.br {
            self.bracket(*b)
        }
        if o.last != Last::First {
            if o.last == Last::Comma {
                self.since.clear()
            }
            self.last = o.last
        }
        self.ev.extend(o.ev.iter().cloned());
        self.after.join(&o.after)
    }
    pub fn join(&mut self, o: &Nest) {
        if let (Some(a), Some(b)) = (self.first, o.first) {
            self.first = Some(a.or(&b))
        }
        self.ev.extend(o.ev.iter().cloned());
        self.after.join(&o.after);
        self.since.extend(o.since.iter().cloned())
    }
    pub fn hash(&self, h: &mut Vec<u64>) {
        if self.on {
            h.push(1 << 50 | (self.first.is_some() as u64) << 8 | (self.open as u64) << 9 | self.last as u64);
            self.br.iter().for_each(|b| h.push(*b as u64 + 77))
        }
    }
    pub fn reset(&mut self) {
        *self = Nest::default()
    }
    pub fn show(&self) -> String {
        self.br.iter().map(|b| if *b < 4 { CLOSE[*b as usize] } else { OPEN[*b as usize - 4] }).collect::<Vec<_>>().join(" ")
    }
}

impl Eng {
    pub fn nest_exit(&mut self, c: CtxId, st: &mut St) {
        if st.g.iss {
            st.g.nest.reset();
            return;
        }
        let (p, f) = (pg(), self.ctxs[c].f);
        if !st.g.nest.br.is_empty() && p.f(f).local && p.returns_tree(f) && !p.f(f).is_closure && !self.odd.iter().any(|x| x.0 == f) {
            self.odd.push((f, st.g.nest.show()))
        }
        let w = self.local_fn(c);
        for e in std::mem::take(&mut st.g.nest.ev) {
            self.event(st, &format!("C25:{} {}", module(&w), e))
        }
    }
}

#[derive(Default, Serialize, Clone)]
pub struct NestR {
    pub dialect: String,
    pub findings: Vec<Found>,
    pub contexts: usize,
    pub functions: usize,
    pub exhausted: bool,
    pub unmodelled: BTreeMap<String, usize>,
    /// parsing functions -> ways out without Error
    pub seen: BTreeMap<String, u64>,
    pub after_comma: BTreeSet<String>,
    pub pushes: BTreeMap<String, (u64, u64)>,
}
pub fn all(spaced: Vec<String>, stop: Vec<String>) -> Vec<NestR> {
    let _ = STOP.set(stop);
    let _ = SPACED.set(spaced);
    let p = pg();
    let names: Vec<String> = p.find_ty("SQLDialect").map(|t| p.adt(t).unwrap().variants.iter().map(|v| v.name.clone()).collect()).unwrap_or_default();
    let jobs = std::sync::Mutex::new(names.into_iter().enumerate().collect::<Vec<_>>());
    let out = std::sync::Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..6 {
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(sc, || {
                    loop {
                        let j = jobs.lock().unwrap().pop();
                        match j {
                            Some((i, n)) => {
                                let r = one(i, &n);
                                out.lock().unwrap().push(r)
                            }
                            None => break,
                        }
                    }
                })
                .unwrap();
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by(|a: &NestR, b| a.dialect.cmp(&b.dialect));
    v
}
fn one(dialect: usize, name: &str) -> NestR {
    let p = pg();
    let mut r = NestR { dialect: name.into(), ..Default::default() };
    let mut add = |func: &str, what: &str, detail: &str, l: &mut Vec<Found>| l.push(Found { prop: "C25".into(), func: func.into(), what: what.into(), detail: detail.into() });
    let opts = [("dialect".to_string(), dialect as i128)].into_iter().collect();
    let mut e = Eng::new(Cfg { mode: Mode::Token, opts, delim: None, nest: true });
    let mut roots = vec![];
    match crate::root::entries() {
        Ok(l) => {
            for f in l {
                roots.push(e.root(f));
                e.solve()
            }
        }
        Err(m) => add("", &m, "", &mut r.findings),
    }
    r.contexts = e.ctxs.len();
    r.functions = e.obs.fns.len();
    r.exhausted = e.exhausted;
    r.unmodelled = e.obs.unmodelled.clone();
    let mut odd: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for c in 0..e.ctxs.len() {
        let f = e.ctxs[c].f;
        if !p.f(f).local || !p.returns_tree(f) || p.f(f).is_closure {
            continue;
        }
        for (_, s) in &e.ctxs[c].exits {
            if !s.g.iss {
                *r.seen.entry(p.short(f)).or_insert(0) += 1;
                if !s.g.nest.br.is_empty() {
                    odd.entry(p.short(f)).or_default().insert(s.g.nest.show());
                }
            }
        }
    }
    if e.odd.len() > SPREAD {
        let d: Vec<String> = e.odd.iter().map(|(f, b)| format!("{}: {}", p.short(*f), b)).collect();
        add(&p.short(e.odd[0].0), "and what calls it can leave brackets without counterpart", &d.join("; "), &mut r.findings)
    }
    for root in roots {
        let rn = p.short(e.ctxs[root].f);
        for (_, s) in &e.ctxs[root].exits {
            if s.g.iss {
                continue;
            }
            if !s.g.nest.br.is_empty() {
                let d: Vec<String> = odd.iter().map(|(f, b)| format!("{}: {}", f, b.iter().cloned().collect::<Vec<_>>().join(" | "))).collect();
                add(&rn, "can accept text whose brackets do not balance", &d.join("; "), &mut r.findings)
            }
            if s.g.nest.last == Last::Comma {
                add(&rn, "can accept text that ends with a comma", "", &mut r.findings)
            }
            for k in s.g.nest.after.ks().iter() {
                r.after_comma.insert(p.kind_name(k));
            }
            for i in s.g.bad.iter() {
                if let Some(w) = e.tag_name(i).strip_prefix("C25:") {
                    add("", w, "", &mut r.findings)
                }
            }
        }
    }
    for ((w, t), x) in &e.obs.pushes {
        r.pushes.insert(format!("{} {}{}", w, p.tyname(*t), if listed(*t) { "" } else { " (spaced)" }), *x);
    }
    r.findings.sort();
    r.findings.dedup();
    r
}

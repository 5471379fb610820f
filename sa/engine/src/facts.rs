//! What is learnt and checked when tree nodes are built.
use crate::interp::*;
use crate::prog::*;
use crate::state::*;
use crate::val::*;
use ir::{AdtKind, TyKind};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

/// reviewed expectations, by kind names
#[derive(Default, Serialize, Deserialize, Clone)]
pub struct RawSpec {
    /// field -> [start, end] of the spans stored in it
    pub spans: BTreeMap<String, [EndSpec; 2]>,
    /// enum variant -> groups of alternative keywords that select it
    pub variants: BTreeMap<String, Vec<Vec<String>>>,
    /// enum variant -> the tokens read last when it is built
    #[serde(default)]
    pub seqs: BTreeMap<String, Vec<Vec<String>>>,
    /// node -> parts it cannot have together: "name+" present, "name-" absent; per dialect
    #[serde(default)]
    pub parts: BTreeMap<String, Vec<(Vec<String>, Vec<u8>)>>,
    /// field -> variants it may hold
    #[serde(default)]
    pub nested: BTreeMap<String, Vec<String>>,
    /// construct -> dialects under which it can be part of a result without Error
    pub tags: BTreeMap<String, Vec<u8>>,
}
#[derive(Default, Serialize, Deserialize, Clone, PartialEq)]
pub struct EndSpec {
    /// kinds of tokens it may start / end at; empty: any
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub kinds: Vec<String>,
    /// may be the start / end of a nested node
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub node: bool,
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub eoi: bool,
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub shifted: bool,
}

#[derive(Default)]
pub struct Spec {
    pub spans: BTreeMap<String, [(KS, EndSpec); 2]>,
    pub variants: BTreeMap<String, Vec<KS>>,
    pub seqs: BTreeMap<String, Vec<KS>>,
    pub parts: BTreeMap<String, Vec<Vec<String>>>,
    pub nested: BTreeMap<String, Vec<String>>,
    pub missing: BTreeSet<String>,
}
impl Spec {
    pub fn new(r: &RawSpec, dialect: usize) -> Spec {
        let mut missing = BTreeSet::new();
        let names: BTreeMap<String, usize> = (0..pg().kinds.len()).map(|i| (pg().kind_name(i), i)).collect();
        let mut ks = |v: &[String]| -> KS {
            let mut r = KS::EMPTY;
            for n in v {
                match names.get(n) {
                    Some(i) => r.add(*i),
                    None => {
                        missing.insert(n.clone());
                    }
                }
            }
            r
        };
        let spans = r
            .spans
            .iter()
            .map(|(n, [a, b])| {
                let f = (ks(&a.kinds), a.clone());
                let g = (ks(&b.kinds), b.clone());
                (n.clone(), [f, g])
            })
            .collect();
        let variants = r.variants.iter().map(|(n, g)| (n.clone(), g.iter().map(|g| ks(g)).collect())).collect();
        let seqs = r.seqs.iter().map(|(n, g)| (n.clone(), g.iter().map(|g| ks(g)).collect())).collect();
        let parts = r.parts.iter().map(|(n, l)| (n.clone(), l.iter().filter(|x| x.1.contains(&(dialect as u8))).map(|x| x.0.clone()).collect())).collect();
        Spec { spans, variants, seqs, parts, nested: r.nested.clone(), missing }
    }
}

/// what is known about one end of a span stored in a field
#[derive(Default, Clone)]
pub struct EndFact {
    /// kinds when the token is exactly known
    pub exact: KS,
    /// kinds when only a set of tokens is known
    pub loose: KS,
    pub node: bool,
    pub eoi: bool,
    pub wrong_side: bool,
    pub shifted: bool,
    pub unknown: bool,
    pub n: u64,
}
impl EndFact {
    pub fn show(&self) -> String {
        let mut s = String::new();
        if !self.exact.empty() {
            s += &pg().ks_names(&self.exact)
        }
        if !self.loose.empty() {
            s += &format!("~{}", pg().ks_names(&self.loose))
        }
        for (f, n) in [(self.node, "node"), (self.eoi, "eoi"), (self.wrong_side, "WRONGSIDE"), (self.shifted, "SHIFTED"), (self.unknown, "unknown")] {
            if f {
                s += " ";
                s += n
            }
        }
        s
    }
    pub fn spec(&self) -> EndSpec {
        let k = self.exact.or(&self.loose);
        let kinds = if k.count() > WIDE_SPAN { vec![] } else { k.iter().map(|k| pg().kind_name(k)).collect() };
        EndSpec { kinds, node: self.node, eoi: self.eoi, shifted: self.shifted }
    }
}
/// spans that may lie at more kinds of tokens than this are not tied to keywords
pub const WIDE_SPAN: usize = 40;

#[derive(Default)]
pub struct Learn {
    pub on: bool,
    /// field -> facts about (start, end)
    pub spans: BTreeMap<String, (EndFact, EndFact)>,
    pub pairs: BTreeMap<String, BTreeSet<(String, String)>>,
    /// enum variant -> sets of tokens definitely at hand when it is built
    pub variants: BTreeMap<String, BTreeSet<Vec<String>>>,
}

/// what the checks looked at
#[derive(Default)]
pub struct Seen {
    pub c08: BTreeMap<String, u64>,
    pub c09: BTreeMap<String, u64>,
    pub c09_sure: BTreeSet<String>,
    pub c11: BTreeMap<String, u64>,
    pub c20: BTreeMap<String, u64>,
    pub c24: BTreeMap<String, u64>,
    pub c18: BTreeMap<String, u64>,
    pub c26: BTreeMap<String, u64>,
    /// warnings recorded depending on an option
    pub c04: BTreeMap<String, u64>,
    pub c04_branches: BTreeSet<String>,
    pub c12: BTreeSet<String>,
    /// functions that decode the text of a literal: instance, other arguments, which argument, quote
    pub decoders: BTreeSet<(String, Vec<Option<String>>, usize, char)>,
    pub c07: BTreeMap<String, u64>,
    pub c13: BTreeMap<String, u64>,
    pub c11_exits: BTreeSet<String>,
}

pub fn node_name(ty: usize, var: usize) -> String {
    let a = pg().adt(ty).unwrap();
    if a.kind == ir::AdtKind::Enum {
        format!("{}::{}", a.path, a.variants[var].name)
    } else {
        a.path.clone()
    }
}

/// the spans inside a field value that do not belong to a nested node
pub fn spans_in(v: &V, name: &str, out: &mut Vec<(String, V, V)>) {
    match v {
        V::Adt(a) if a.ty == pg().range => {
            if a.vars.len() == 1 {
                out.push((name.to_string(), a.vars[0].1[0].clone(), a.vars[0].1[1].clone()))
            }
        }
        V::Adt(a) => {
            for (_, f) in &a.vars {
                for x in f {
                    spans_in(x, name, out)
                }
            }
        }
        V::Tup(t) => {
            for (i, x) in t.iter().enumerate() {
                spans_in(x, &format!("{}.{}", name, i), out)
            }
        }
        V::Box(x) => spans_in(x, name, out),
        V::Vec(x) => {
            if let Some(e) = &x.exact {
                for y in e {
                    spans_in(y, &format!("{}[]", name), out)
                }
            }
            if let Some(y) = &x.elem {
                spans_in(y, &format!("{}[]", name), out)
            }
        }
        _ => {}
    }
}
/// token texts and payloads directly inside a value
fn texts_in(v: &V, out: &mut Vec<Sym>) {
    match v {
        V::Str(s) => {
            if let (Some(x), false) = (s.sym, s.other) {
                out.push(x)
            }
        }
        V::Pay(s, _) => out.push(*s),
        V::Tup(t) => t.iter().for_each(|x| texts_in(x, out)),
        V::Adt(a) if a.ty != pg().range && a.vars.len() == 1 => a.vars[0].1.iter().for_each(|x| texts_in(x, out)),
        _ => {}
    }
}

/// what a field may hold: present or absent, or one of few variants
fn states_of(v: &V, name: &str) -> Vec<String> {
    let mut r = vec![];
    match v {
        V::Box(x) => return states_of(x, name),
        V::Adt(a) if pg().path(a.ty) == "core::option::Option" => {
            if present(v) {
                r.push(format!("{}+", name))
            }
            if absent(v) {
                r.push(format!("{}-", name))
            }
        }
        V::Vec(_) => {
            if present(v) {
                r.push(format!("{}+", name))
            }
            if absent(v) {
                r.push(format!("{}-", name))
            }
        }
        V::Adt(a) if pg().is_enum(a.ty) => {
            for x in &a.vars {
                r.push(format!("{}={}", name, pg().adt(a.ty).unwrap().variants[x.0 as usize].name))
            }
        }
        V::Node(a) if pg().is_enum(a.ty) => {
            for x in a.vars.iter() {
                r.push(format!("{}={}", name, pg().adt(a.ty).unwrap().variants[*x as usize].name))
            }
        }
        _ => {}
    }
    r
}
/// is it the range of the token t
fn span_of(st: &St, t: Sym, from: &V, to: &V) -> bool {
    let at = |v: &V, side: Side| matches!(v, V::Pos(p) if p.side == side && p.add.iter().all(|a| *a == 0) && p.sym.map(|x| st.known_same(t, x)).unwrap_or(false));
    at(from, Side::Start) && at(to, Side::End)
}

impl Eng {
    pub fn end_fact(&self, st: &St, v: &V, side: Side) -> EndFact {
        let mut f = EndFact { n: 1, ..Default::default() };
        match v {
            V::Pos(p) => {
                if let Some(s) = p.sym {
                    f.exact = st.ks(s)
                }
                f.loose = p.ks;
                f.node = p.node;
                f.unknown = p.zero;
                f.wrong_side = p.side != side;
                f.shifted = p.add.iter().any(|a| *a != 0);
            }
            _ => f.unknown = true,
        }
        f
    }
    /// a tree node is built
    pub fn agg_facts(&mut self, _at: &At, st: &mut St, ty: usize, var: usize, fields: &[V]) -> Vec<String> {
        let mut r = vec![];
        let a = pg().adt(ty).unwrap();
        let n = node_name(ty, var);
        let where_ = self.local_fn(self.cur);
        self.arg_built(st, &n, fields, &where_);
        if st.g.iss {
            return r;
        }
        if st.g.copy == 1 && a.variants[var].fields.iter().any(|f| pg().path(unwrapped(f.ty)) == "statement::Statement") {
            // part of another statement, not one of a list
            st.g.copy = 0
        }
        if n == "statement::Statement::Copy" {
            st.g.copy = 1;
            *self.seen.c24.entry(n.clone()).or_insert(0) += 1
        }
        if n == "statement::Statement::Stdin" {
            if st.g.copy < 2 {
                r.push(format!("C24:{} built in {} although no data was read", n, where_))
            } else if st.cells.iter().any(|c| crate::interp::loses_token(st, c)) {
                r.push(format!("C24:the token behind the data of COPY FROM STDIN is lost before {} is built in {}", n, where_))
            }
            st.g.copy = 0;
            *self.seen.c24.entry(n.clone()).or_insert(0) += 1
        }
        if self.learn.on {
            let pr: Vec<Vec<String>> = fields.iter().enumerate().map(|(i, v)| states_of(v, &a.variants[var].fields[i].name)).collect();
            for (i, x) in pr.iter().enumerate() {
                for p in x {
                    for y in &pr[i + 1..] {
                        for q in y {
                            self.learn.pairs.entry(n.clone()).or_default().insert((p.clone(), q.clone()));
                        }
                    }
                }
            }
            for p in pr.iter().flatten() {
                self.learn.pairs.entry(n.clone()).or_default().insert((p.clone(), String::new()));
            }
        }
        // C26: parts that must be there, or not together
        if let Some(l) = self.spec.parts.get(&n).cloned() {
            *self.seen.c26.entry(n.clone()).or_insert(0) += 1;
            let holds = |c: &str| -> bool {
                let p = &c[..c.len() - 1];
                let (p, rest) = p.split_once('.').map(|(x, y)| (x, Some(y))).unwrap_or((p, None));
                let mut f = match a.variants[var].fields.iter().position(|f| f.name == p) {
                    Some(i) => fields[i].clone(),
                    None => return false,
                };
                if let Some(q) = rest {
                    f = match &f {
                        V::Adt(x) if x.vars.len() == 1 => match pg().adt(x.ty).and_then(|d| d.variants[x.vars[0].0 as usize].fields.iter().position(|f| f.name == q)) {
                            Some(i) => x.vars[0].1[i].clone(),
                            None => return false,
                        },
                        _ => return false,
                    }
                }
                states_of(&f, "").iter().any(|s| s == &c[c.len() - 1..])
            };
            let say = |c: &str| format!("{} {}", if c.ends_with('+') { "with" } else { "without" }, &c[..c.len() - 1]);
            for c in l {
                if c.iter().all(|c| holds(c)) {
                    let w: Vec<String> = c.iter().map(|c| say(c)).collect();
                    r.push(format!("C26:{} built {} is accepted", n, w.join(" and ")))
                }
            }
        }
        for (i, f) in a.variants[var].fields.iter().enumerate() {
            if let Some(l) = self.spec.nested.get(&format!("{}.{}", n, f.name)).cloned() {
                *self.seen.c26.entry(format!("{}.{}", n, f.name)).or_insert(0) += 1;
                let s = states_of(&fields[i], "");
                if s.is_empty() {
                    self.finding("C26", &where_, &format!("puts a value the analysis cannot follow into {}.{}", n, f.name), &format!("{:?}", fields[i]))
                }
                let bad: Vec<&str> = s.iter().map(|x| &x[1..]).filter(|x| !l.iter().any(|y| y == x)).collect();
                if !bad.is_empty() {
                    r.push(format!("C26:{} as {} is accepted", if bad.len() < 5 { bad.join(", ") } else { format!("{} kinds other than {}", bad.len(), l.join(", ")) }, format!("{}.{}", n, f.name)))
                }
            }
        }
        let mut spans = vec![];
        for (i, v) in fields.iter().enumerate() {
            spans_in(v, &format!("{}.{}", n, a.variants[var].fields[i].name), &mut spans);
        }
        // C20: text and span come from the same token
        let mut texts = vec![];
        fields.iter().for_each(|f| texts_in(f, &mut texts));
        if texts.len() == 1 && spans.len() == 1 {
            *self.seen.c20.entry(n.clone()).or_insert(0) += 1;
            if !span_of(st, texts[0], &spans[0].1, &spans[0].2) {
                r.push(format!("C20:{} built in {} stores the text of one token and the span of something else", n, where_));
                if n == "statement::Statement::Stdin" {
                    r.push(format!("C24:{} built in {} stores one text and the span of another", n, where_))
                }
            }
        }
        // C13: the text of string literals
        if let (Some(i), 1) = (a.variants[var].fields.iter().position(|f| pg().path(f.ty) == "alloc::borrow::Cow"), spans.len()) {
            *self.seen.c13.entry(n.clone()).or_insert(0) += 1;
            let mut s = self.text_of(st, &fields[i]);
            if let V::Adt(c) = &s {
                s = c.vars[0].1[0].clone()
            }
            match &s {
                V::Str(t) if t.lit.is_some() => {
                    let (x, y) = t.lit.unwrap();
                    let at = |v: &V, s: Sym| matches!(v, V::Pos(p) if p.sym.map(|q| st.known_same(q, s)).unwrap_or(false));
                    if !at(&spans[0].1, x) || !at(&spans[0].2, y) {
                        r.push(format!("C13:{} built in {} has the span of other tokens than its text", n, where_))
                    }
                }
                _ => r.push(format!("C13:{} built in {} holds a text that is not the decoded text of the literals read, in their order", n, where_)),
            }
        }
        // C08
        for (name, s, e) in &spans {
            let fs = self.end_fact(st, s, Side::Start);
            let fe = self.end_fact(st, e, Side::End);
            if self.learn.on {
                let x = self.learn.spans.entry(name.clone()).or_default();
                merge(&mut x.0, &fs);
                merge(&mut x.1, &fe);
            }
            if let Some([ss, se]) = self.spec.spans.get(name) {
                *self.seen.c08.entry(name.clone()).or_insert(0) += 1;
                for (f, (k, sp), end) in [(&fs, ss, "starts"), (&fe, se, "ends")] {
                    if let Some(w) = mismatch(f, k, sp) {
                        r.push(format!("C08:{} built in {} {} at {}", name, where_, end, w))
                    }
                }
            }
        }
        // C09
        if a.kind == ir::AdtKind::Enum {
            let ev = evidence(st, fields);
            if self.learn.on {
                let mut v: Vec<String> = ev.iter().filter(|k| k.count() == 1).map(|k| pg().ks_names(k)).collect();
                v.sort();
                v.push("/".into());
                let nm = |k: &KS| if k.count() > 8 { "*".to_string() } else { pg().ks_names(k).replace(' ', "|") };
                v.extend(st.g.recent.iter().map(|k| if k.node() { "#".to_string() } else { nm(&k.ks) } + if k.opt { "?" } else { "" }));
                v.push("/".into());
                v.push(match cur_token(st) {
                    Some(V::Tok(s)) => nm(&st.ks(s)),
                    Some(V::TokC(k)) => nm(&KS::one(k as usize)),
                    _ => "*".into(),
                });
                self.learn.variants.entry(n.clone()).or_default().insert(v);
            }
            let mut bad = None;
            if let Some(own) = self.spec.variants.get(&n) {
                *self.seen.c09.entry(n.clone()).or_insert(0) += 1;
                let rec = &st.g.recent;
                let held_sure = |g: &KS| ev.iter().any(|e| e.subset(g));
                let sure = |g: &KS| held_sure(g) || rec.iter().any(|e| !e.opt && !e.node() && e.ks.subset(g));
                let maybe = |g: &KS| ev.iter().any(|e| !e.and(g).empty()) || rec.iter().any(|e| !e.node() && e.ks.count() <= WIDE_SPAN && !e.ks.and(g).empty());
                if !own.is_empty() && own.iter().all(|g| sure(g)) {
                    self.seen.c09_sure.insert(n.clone());
                }
                let lacks = own.iter().any(|g| !maybe(g));
                for (i, w) in a.variants.iter().enumerate() {
                    if i == var {
                        continue;
                    }
                    let wn = format!("{}::{}", a.path, w.name);
                    if let Some(wg) = self.spec.variants.get(&wn) {
                        if wg.is_empty() {
                            continue;
                        }
                        let sub = wg.iter().all(|g| own.contains(g));
                        let sup = own.iter().all(|g| wg.contains(g)) && wg.len() > own.len();
                        let tail = rec.len() >= wg.len() && wg.iter().zip(&rec[rec.len() - wg.len()..]).all(|(g, e)| !e.opt && !e.node() && e.ks.subset(g));
                        if (lacks && !sub && wg.iter().all(|g| sure(g))) || (sup && (tail || wg.iter().all(|g| held_sure(g)))) {
                            bad = Some(wg);
                            break;
                        }
                    }
                }
            }
            if let (None, Some(own)) = (bad, self.spec.seqs.get(&n)) {
                let look = match cur_token(st) {
                    Some(V::Tok(s)) => st.ks(s),
                    Some(V::TokC(k)) => KS::one(k as usize),
                    _ => pg().full(),
                };
                let line: Vec<Rec> = st.g.recent.iter().cloned().chain([Rec { ks: look, opt: false }]).collect();
                let may = |q: &[KS], n: usize| may_end(&line[..n], q);
                let l = line.len();
                if !may(own, l) && !may(own, l - 1) {
                    for (i, w) in a.variants.iter().enumerate() {
                        let wn = format!("{}::{}", a.path, w.name);
                        if let (true, Some(wq)) = (i != var, self.spec.seqs.get(&wn)) {
                            let must = |n: usize| n >= wq.len() && wq.iter().zip(&line[n - wq.len()..n]).all(|(g, e)| !e.opt && !e.node() && e.ks.subset(g));
                            if must(l) || must(l - 1) {
                                bad = Some(wq);
                                break;
                            }
                        }
                    }
                }
            }
            if let Some(wg) = bad {
                r.push(format!("C09:{} is built in {} where {} was read", n, where_, wg.iter().map(|g| pg().ks_names(g)).collect::<Vec<_>>().join(" ")))
            }
        }
        r
    }
    /// C07: spans stored in the tree or in issues start and end where tokens do
    pub fn span_facts(&mut self, ty: usize, var: usize, fields: &[V]) {
        if self.cfg.mode != Mode::Token {
            return;
        }
        let p = pg();
        let a = match p.adt(ty) {
            Some(a) if a.variants.len() > var => a,
            _ => return,
        };
        let ast = p.ast[ty];
        if !a.local {
            return;
        }
        if !ast && !a.variants[var].fields.iter().any(|f| f.ty == p.range) {
            return;
        }
        let n = node_name(ty, var);
        let where_ = self.local_fn(self.cur);
        for (i, v) in fields.iter().enumerate() {
            if i >= a.variants[var].fields.len() {
                continue;
            }
            let name = format!("{}.{}", n, a.variants[var].fields[i].name);
            let mut spans = vec![];
            spans_in(v, &name, &mut spans);
            if a.variants[var].fields[i].ty == p.range && spans.is_empty() {
                self.finding("C07", &where_, &format!("puts a range the analysis cannot follow into {}", name), &format!("{:?}", v))
            }
            for (name, s, e) in spans {
                *self.seen.c07.entry(name.clone()).or_insert(0) += 1;
                for (v, side, w) in [(&s, Side::Start, "start where a token starts"), (&e, Side::End, "end where a token ends, not before it starts")] {
                    let ok = match v {
                        V::Pos(p) => p.side == side && p.add.iter().all(|a| *a == 0),
                        V::Int(i) => i.len() == 1 && i[0] == 0,
                        _ => false,
                    };
                    if !ok {
                        self.finding("C07", &where_, &format!("builds a range for {} that need not {}", name, w), &format!("{:?}", v))
                    }
                }
            }
        }
    }
    /// text and span are put together in a tuple
    pub fn tuple_facts(&mut self, st: &mut St, vals: &[V]) {
        if st.g.iss || vals.len() != 2 {
            return;
        }
        let mut spans = vec![];
        let mut texts = vec![];
        texts_in(&vals[0], &mut texts);
        spans_in(&vals[1], "", &mut spans);
        if texts.len() == 1 && spans.len() == 1 && !spans[0].0.contains('[') {
            let w = self.local_fn(self.cur);
            *self.seen.c20.entry(format!("pair built in {}", w)).or_insert(0) += 1;
            if !span_of(st, texts[0], &spans[0].1, &spans[0].2) {
                self.event(st, &format!("C20:a pair built in {} holds the text of one token and the span of something else", w))
            }
        }
    }
    /// C11: positional arguments
    fn arg_built(&mut self, st: &mut St, n: &str, fields: &[V], where_: &str) {
        if !matches!(n, "expression::Expression::Arg" | "expression::Expression::ListHack") {
            return;
        }
        let fl = match fields.first() {
            Some(V::Tup(t)) if t.len() == 2 => t.clone(),
            _ => {
                self.finding("C11", where_, "builds an argument in an unknown way", "");
                return;
            }
        };
        let mut sp = vec![];
        spans_in(&fl[1], "", &mut sp);
        let tok = match sp.first() {
            Some((_, V::Pos(p), _)) => p.sym,
            _ => None,
        };
        let kind = tok.map(|s| pg().ks_names(&st.ks(s))).unwrap_or_default();
        let mode = opt_name(st, "arguments");
        let want = match kind.as_str() {
            "<QuestionMark>" => "QuestionMark",
            "<PercentS>" => "Percent",
            "<DollarArg>" => "Dollar",
            "_LIST_" => "",
            _ => {
                self.finding("C11", where_, "builds an argument from a token that is no placeholder", &kind);
                return;
            }
        };
        *self.seen.c11.entry(format!("{} as {} under {}", kind, n, mode.clone().unwrap_or_default())).or_insert(0) += 1;
        if n.ends_with("Arg") && mode.as_deref() != Some(want) {
            self.finding("C11", where_, &format!("builds an argument from {} when the configured style is {}", kind, mode.unwrap_or("unknown".into())), "");
        }
        if want == "Dollar" {
            match (&fl[0], tok) {
                (V::Pay(s, -1), Some(t)) if st.known_same(*s, t) => {}
                _ => self.finding("C11", where_, "gives a $n argument an index that is not n - 1", &format!("{:?}", fl[0])),
            }
            return;
        }
        match &fl[0] {
            V::Lin(0, 0) => {}
            x => self.finding("C11", where_, &format!("gives a {} argument an index that is not the number of arguments before it", kind), &format!("{:?}", x)),
        }
        // from here on count relative to the arguments built
        st.g.built = true;
        st.map_vals(&|v| v.map_lin(&|k| V::Lin(0, k - 1), true));
    }
    pub fn finding(&mut self, rule: &'static str, func: &str, what: &str, detail: &str) {
        let fi = Finding { rule, func: func.to_string(), what: what.to_string() };
        self.obs.rules.entry(fi).or_insert(detail.to_string());
    }
    /// the state in which a function is left
    pub fn exit_facts(&mut self, c: CtxId, st: &St) {
        let f = self.ctxs[c].f;
        let p = pg();
        let gf = p.f(f);
        if self.cfg.mode != Mode::Token || !gf.local || gf.is_closure || !p.returns_tree(f) {
            return;
        }
        let (entry, cells) = (self.ctxs[c].entry.clone(), &st.cells);
        for (i, v) in cells.iter().enumerate() {
            let (a, e) = match (v, &entry.cells[i]) {
                (V::Adt(a), V::Adt(e)) if a.ty == p.parser && a.vars.len() == 1 && e.vars.len() == 1 => (a.clone(), e.clone()),
                _ => continue,
            };
            let n = p.short(f);
            for (j, role) in p.roles.iter().enumerate() {
                let (x, y) = (&a.vars[0].1[j], &e.vars[0].1[j]);
                match *role {
                    "delimiter" | "outer" | "permit_compound_statements" => {
                        self.seen.c12.insert(n.clone());
                        let same = match (x, y) {
                            (V::Tok(s), V::Tok(t)) => st.known_same(*s, *t),
                            _ => x == y,
                        };
                        if !same && n != "statement::parse_statements" {
                            self.finding("C12", &n, &format!("can return with another {} than it was called with", role), "")
                        }
                    }
                    "arg" => {
                        self.seen.c11_exits.insert(n.clone());
                        if x != y && *x != V::Lin(0, 0) {
                            self.finding("C11", &n, "can return with the argument counter off the number of arguments built", "")
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    /// C11: the counter at a call is the number of arguments built so far
    pub fn counter_at_call(&mut self, ov: &V, g: usize) {
        if !pg().returns_tree(g) {
            return;
        }
        match ov {
            V::Lin(0, 0) => {}
            V::Int(i) if i.len() == 1 && i[0] == 0 => {}
            x => {
                let w = self.local_fn(self.cur);
                self.finding("C11", &w, "calls a parsing function while the argument counter is off the number of arguments built", &format!("{:?}", x))
            }
        }
    }
}
/// does the fact contradict the expectation?
/// the type without boxes and options
fn unwrapped(t: usize) -> usize {
    match &pg().pr.types[t].kind {
        TyKind::Adt(a) if a.kind == AdtKind::Box || a.path == "core::option::Option" => unwrapped(a.args[0]),
        _ => t,
    }
}
fn mismatch(f: &EndFact, k: &KS, sp: &EndSpec) -> Option<String> {
    if f.unknown {
        return None;
    }
    if f.wrong_side {
        return Some("the wrong end of a token".into());
    }
    if f.shifted && !sp.shifted {
        return Some("a place beside a token boundary".into());
    }
    if f.node && !sp.node {
        return Some("an end of a nested construct".into());
    }
    if f.eoi && !sp.eoi {
        return Some("the end of input".into());
    }
    if k.empty() {
        return None;
    }
    if !f.exact.empty() && !f.exact.subset(k) {
        return Some(pg().ks_names(&f.exact.minus(k)));
    }
    if !f.loose.empty() && f.loose.count() <= 8 && !f.loose.subset(k) {
        return Some(pg().ks_names(&f.loose.minus(k)));
    }
    None
}
fn merge(a: &mut EndFact, b: &EndFact) {
    a.exact = a.exact.or(&b.exact);
    a.loose = a.loose.or(&b.loose);
    a.node |= b.node;
    a.eoi |= b.eoi;
    a.wrong_side |= b.wrong_side;
    a.shifted |= b.shifted;
    a.unknown |= b.unknown;
    a.n += 1
}
/// the one value an option is known to have here
pub fn opt_name(st: &St, name: &str) -> Option<String> {
    let p = pg();
    for v in st.cells.iter().chain(st.locals.iter()) {
        if let V::Adt(a) = v {
            if a.ty == p.opts && a.vars.len() == 1 {
                let fl = &p.adt(a.ty).unwrap().variants[0].fields;
                let i = *crate::opts::fields().get(name)?;
                let _ = fl;
                if let V::Adt(o) = &a.vars[0].1[i] {
                    if o.vars.len() == 1 {
                        return Some(p.adt(o.ty)?.variants[o.vars[0].0 as usize].name.clone());
                    }
                }
            }
        }
    }
    None
}

/// narrow sets of kinds of the tokens at hand
pub fn evidence(st: &St, fields: &[V]) -> Vec<KS> {
    let mut v: Vec<Sym> = vec![];
    st.each_val(&mut |x| x.each_sym(&mut |s| v.push(s)));
    for f in fields {
        f.each_sym(&mut |s| v.push(s))
    }
    v.sort();
    v.dedup();
    let mut r: Vec<KS> = v.into_iter().map(|s| st.ks(s)).filter(|k| k.count() <= 8 && !k.has(pg().eof)).collect();
    r.sort();
    r.dedup();
    r
}

/// can the consumed tokens end with this sequence? (tokens before the known ones are not known)
fn may_end(line: &[Rec], q: &[KS]) -> bool {
    if q.is_empty() || line.is_empty() {
        return true;
    }
    let e = line[line.len() - 1];
    (e.opt && may_end(&line[..line.len() - 1], q)) || (!e.node() && !e.ks.and(&q[q.len() - 1]).empty() && may_end(&line[..line.len() - 1], &q[..q.len() - 1]))
}

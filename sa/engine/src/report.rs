//! Running the token-level analysis and writing down what it found.
use crate::facts::*;
use crate::interp::*;
use crate::prog::*;
use crate::val::*;
use serde::Serialize;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Found {
    pub prop: String,
    pub func: String,
    pub what: String,
    pub detail: String,
}
#[derive(Serialize, Default)]
pub struct ExitR {
    pub root: String,
    pub with_error: bool,
    pub none: bool,
}
#[derive(Serialize, Default)]
pub struct RunR {
    pub decoders: std::collections::BTreeSet<(String, Vec<Option<String>>, usize, char)>,
    pub dialect: String,
    /// placeholder style, if fixed
    pub arguments: String,
    pub findings: Vec<Found>,
    pub contexts: usize,
    pub functions: usize,
    pub blocks: u64,
    pub calls: u64,
    pub exhausted: bool,
    pub unmodelled: BTreeMap<String, usize>,
    pub panic_sites_discharged: u64,
    pub loop_backedges: usize,
    pub exits: Vec<ExitR>,
    /// constructs in results without Error
    pub tags: BTreeSet<String>,
    pub seen: BTreeMap<String, BTreeMap<String, u64>>,
    pub learn_spans: BTreeMap<String, [EndSpec; 2]>,
    pub learn_pairs: BTreeMap<String, BTreeSet<(String, String)>>,
    pub learn_variants: BTreeMap<String, BTreeSet<Vec<String>>>,
    pub left_edges: usize,
    /// list field of a tree node -> builds seen, may be empty
    pub lists: BTreeMap<String, (u64, bool)>,
}

/// is the value surely Option::None / possibly None
fn may_none(v: &V) -> bool {
    match v {
        V::Adt(a) if pg().path(a.ty) == "core::option::Option" => a.vars.iter().any(|x| x.0 == 0),
        V::Adt(_) | V::Node(_) | V::Vec(_) => false,
        _ => true,
    }
}

pub fn token_run(dialect: usize, name: &str, args: Option<(usize, &str)>, spec: &RawSpec, nohack: bool) -> RunR {
    let p = pg();
    let mut opts = std::collections::HashMap::new();
    opts.insert("dialect".to_string(), dialect as i128);
    if let Some((i, _)) = args {
        opts.insert("arguments".to_string(), i as i128);
    }
    if nohack {
        opts.insert("list_hack".to_string(), 0);
    }
    let mut e = Eng::new(Cfg { mode: Mode::Token, opts, delim: None, nest: false });
    e.learn.on = true;
    e.spec = Spec::new(spec, dialect);
    let mut r = RunR { dialect: name.to_string(), arguments: args.map(|a| a.1.to_string()).unwrap_or_default(), ..Default::default() };
    let mut add = |prop: &str, func: &str, what: &str, detail: &str, l: &mut Vec<Found>| l.push(Found { prop: prop.into(), func: func.into(), what: what.into(), detail: detail.into() });
    let mut roots = vec![];
    match crate::root::entries() {
        Ok(l) => {
            for f in l {
                roots.push(e.root(f));
                e.solve();
            }
        }
        Err(m) => add("ALL", "", &m, "", &mut r.findings),
    }
    r.contexts = e.ctxs.len();
    r.functions = e.obs.fns.len();
    r.blocks = e.obs.blocks_run;
    r.calls = e.obs.calls;
    r.exhausted = e.exhausted;
    r.unmodelled = e.obs.unmodelled.clone();
    r.panic_sites_discharged = e.obs.discharged;
    r.loop_backedges = e.obs.backedges.len();
    for (k, d) in &e.obs.panics {
        add("C01", &k.func, &format!("may panic: {}", k.what), d, &mut r.findings)
    }
    for (k, d) in &e.obs.noprogress {
        add("C02", &k.func, &k.what, d, &mut r.findings)
    }
    for (k, d) in &e.obs.rules {
        add(k.rule, &k.func, &k.what, d, &mut r.findings)
    }
    // functions that re-enter themselves without having consumed anything
    let n = e.ctxs.len();
    let mut color = vec![0u8; n];
    for s in 0..n {
        if color[s] != 0 {
            continue;
        }
        let mut stack: Vec<(usize, Vec<usize>)> = vec![(s, e.ctxs[s].left.iter().cloned().collect())];
        color[s] = 1;
        r.left_edges += e.ctxs[s].left.len();
        while let Some((c, l)) = stack.last_mut() {
            match l.pop() {
                None => {
                    color[*c] = 2;
                    stack.pop();
                }
                Some(x) => match color[x] {
                    0 => {
                        color[x] = 1;
                        r.left_edges += e.ctxs[x].left.len();
                        let l = e.ctxs[x].left.iter().cloned().collect();
                        stack.push((x, l))
                    }
                    1 => {
                        let i = stack.iter().position(|y| y.0 == x).unwrap();
                        let names: Vec<String> = stack[i..].iter().map(|y| p.short(e.ctxs[y.0].f)).collect();
                        add("C02", &names[0], &format!("can re-enter itself without having consumed a token, via {}", names.join(" -> ")), "", &mut r.findings)
                    }
                    _ => {}
                },
            }
        }
    }
    for root in roots {
        let rn = p.short(e.ctxs[root].f);
        if e.ctxs[root].exits.is_empty() {
            add("C02", &rn, "never returns", "", &mut r.findings)
        }
        let mut clean_some = false;
        for (_, s) in &e.ctxs[root].exits {
            let v = &s.locals[0];
            let none = may_none(v);
            r.exits.push(ExitR { root: rn.clone(), with_error: s.g.iss, none });
            if s.g.iss {
                continue;
            }
            if none {
                add("C03", &rn, "can return None although no Error issue was recorded", "", &mut r.findings)
            }
            clean_some = true;
            let last = match s.g.trace.last() {
                Some(V::Tok(t)) => p.ks_names(&s.ks(*t)),
                _ => "an unknown token".into(),
            };
            if last != "<Eof>" {
                add("C03", &rn, "can return without an Error issue before the end of input is reached", &last, &mut r.findings)
            }
            if s.g.copy > 1 {
                add("C24", &rn, "can return although the data of COPY FROM STDIN was not kept", "", &mut r.findings)
            }
            for i in s.g.bad.iter() {
                let t = e.tag_name(i);
                let (prop, what) = t.split_once(':').unwrap_or(("C19", &t));
                add(prop, "", what, "", &mut r.findings)
            }
            let mut t = Tags::new();
            v.tags(&mut t);
            for i in t.iter() {
                let n = e.tag_name(i);
                if let Some((prop, what)) = n.split_once(':').filter(|x| x.0.len() == 3 && x.0.starts_with('C')) {
                    add(prop, "", what, "", &mut r.findings);
                    continue;
                }
                if n.ends_with("::Invalid") {
                    add("C03", "", &format!("a result without an Error issue can contain the placeholder {}", n), "", &mut r.findings)
                }
                r.tags.insert(n);
            }
        }
        if !clean_some {
            add("C05", &rn, "accepts nothing", "", &mut r.findings)
        }
    }
    for m in &e.spec.missing {
        add("ALL", "", &format!("anchor missing: token or keyword {}", m), "", &mut r.findings)
    }
    r.findings.sort();
    r.findings.dedup();
    for (k, m) in [("C08", &e.seen.c08), ("C09", &e.seen.c09), ("C11", &e.seen.c11), ("C20", &e.seen.c20), ("C24", &e.seen.c24), ("C04", &e.seen.c04), ("C13", &e.seen.c13), ("C07", &e.seen.c07), ("C26", &e.seen.c26)] {
        r.seen.insert(k.into(), m.clone());
    }
    for (k, m) in [("C09sure", &e.seen.c09_sure), ("C12", &e.seen.c12), ("C11exits", &e.seen.c11_exits), ("C04branches", &e.seen.c04_branches)] {
        r.seen.insert(k.into(), m.iter().map(|x| (x.clone(), 1)).collect());
    }
    for (k, (s, t)) in &e.learn.spans {
        r.learn_spans.insert(k.clone(), [s.spec(), t.spec()]);
    }
    for ((t, v, f), x) in &e.obs.lists {
        r.lists.insert(format!("{}.{}", node_name(*t, *v), p.adt(*t).unwrap().variants[*v].fields[*f].name), *x);
    }
    r.learn_pairs = e.learn.pairs.clone();
    r.learn_variants = e.learn.variants.clone();
    r.decoders = e.seen.decoders.clone();
    r
}

/// all dialects; thorough: and all placeholder styles apart
pub fn token_all(spec: &RawSpec, tier: &str) -> Vec<RunR> {
    let p = pg();
    let names = |t: &str| -> Vec<String> { p.find_ty(t).map(|t| p.adt(t).unwrap().variants.iter().map(|v| v.name.clone()).collect()).unwrap_or_default() };
    let mut jobs: Vec<(usize, String, Option<(usize, String)>)> = vec![];
    for (i, n) in names("SQLDialect").into_iter().enumerate() {
        if tier == "thorough" {
            for (j, a) in names("SQLArguments").into_iter().enumerate() {
                jobs.push((i, n.clone(), Some((j, a))))
            }
        } else {
            jobs.push((i, n, None))
        }
    }
    let jobs = std::sync::Mutex::new(jobs);
    let out = std::sync::Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..6 {
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(sc, || {
                    loop {
                        let j = jobs.lock().unwrap().pop();
                        match j {
                            Some((i, n, a)) => {
                                let r = token_run(i, &n, a.as_ref().map(|a| (a.0, a.1.as_str())), spec, tier == "nohack");
                                out.lock().unwrap().push(r)
                            }
                            None => break,
                        }
                    }
                })
                .unwrap();
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by(|a, b| (&a.dialect, &a.arguments).cmp(&(&b.dialect, &b.arguments)));
    v
}

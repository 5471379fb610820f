//! What the methods of ParseOptions do, by symbolic evaluation of their MIR.
use crate::prog::*;
use ir::*;
use serde::Serialize;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::OnceLock;

/// symbolic value
#[derive(Clone, PartialEq, Debug)]
enum S {
    /// field of the options given
    Old(usize),
    /// the argument
    Arg,
    Const(String),
    Adt(TyId, usize, Vec<S>),
    Ref(Local, Vec<usize>),
    /// reference to a value
    RefTo(Box<S>),
    /// which variant it is
    Disc(Box<S>),
    Top,
}
type Env = HashMap<Local, S>;

fn place(env: &Env, p: &Place) -> S {
    let mut v = env.get(&p.local).cloned().unwrap_or(S::Top);
    for e in &p.proj {
        v = match (e, v) {
            (Proj::Deref, S::Ref(l, path)) => {
                let mut v = env.get(&l).cloned().unwrap_or(S::Top);
                for i in path {
                    v = match v {
                        S::Adt(_, _, f) => f.get(i).cloned().unwrap_or(S::Top),
                        _ => S::Top,
                    }
                }
                v
            }
            (Proj::Deref, S::RefTo(v)) => *v,
            (Proj::Field(i, _), S::Adt(_, _, f)) => f.get(*i).cloned().unwrap_or(S::Top),
            (Proj::Downcast(_), v) => v,
            _ => S::Top,
        }
    }
    v
}
fn konst(c: &CVal, ty: TyId) -> S {
    match c {
        CVal::Int(i) => S::Const(i.to_string()),
        CVal::Bool(b) => S::Const(b.to_string()),
        CVal::Adt(v, f) => {
            let n = pg().adt(ty).map(|a| a.variants[*v].fields.iter().map(|f| f.ty).collect::<Vec<_>>()).unwrap_or_default();
            S::Adt(ty, *v, f.iter().enumerate().map(|(i, x)| konst(x, n.get(i).copied().unwrap_or(ty))).collect())
        }
        CVal::Ref(x) => match &pg().pr.types[ty].kind {
            TyKind::Ref { to, .. } => S::RefTo(Box::new(konst(x, *to))),
            _ => S::Top,
        },
        _ => S::Top,
    }
}
fn operand(env: &Env, o: &Operand) -> S {
    match o {
        Operand::Copy(p) | Operand::Move(p) => place(env, p),
        Operand::Const(c) => konst(&c.val, c.ty),
        _ => S::Top,
    }
}
fn store(env: &mut Env, p: &Place, v: S) {
    if p.proj.is_empty() {
        env.insert(p.local, v);
        return;
    }
    // through a reference to a local: give up on what it points to
    let mut base = p.local;
    let mut path = vec![];
    for e in &p.proj {
        match e {
            Proj::Field(i, _) => path.push(*i),
            Proj::Deref if path.is_empty() => match env.get(&base) {
                Some(S::Ref(l, q)) => {
                    path = q.clone();
                    base = *l
                }
                _ => return,
            },
            _ => {
                env.insert(base, S::Top);
                return;
            }
        }
    }
    let mut cur = match env.get_mut(&base) {
        Some(c) => c,
        None => return,
    };
    for i in path {
        if !matches!(cur, S::Adt(_, _, f) if i < f.len()) {
            *cur = S::Top;
            return;
        }
        if let S::Adt(_, _, f) = cur {
            cur = &mut f[i]
        } else {
            return;
        }
    }
    *cur = v
}

/// what a path has found out about fields and the argument
type Known = BTreeMap<Sym, i128>;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Sym {
    Old(usize),
    Arg,
}
fn sym(v: &S) -> Option<Sym> {
    match v {
        S::Old(i) => Some(Sym::Old(*i)),
        S::Arg => Some(Sym::Arg),
        S::Disc(v) => sym(v),
        _ => None,
    }
}
/// the values a symbol of this type can have
fn domain(ty: TyId) -> Option<Vec<i128>> {
    match &pg().pr.types[ty].kind {
        TyKind::Bool => Some(vec![0, 1]),
        TyKind::Adt(a) if a.variants.len() > 1 && a.variants.iter().all(|v| v.fields.is_empty()) => Some(a.variants.iter().map(|v| v.discr).collect()),
        _ => None,
    }
}
fn number(v: &S) -> Option<i128> {
    match v {
        S::Const(c) if c == "true" => Some(1),
        S::Const(c) if c == "false" => Some(0),
        S::Const(c) => c.parse().ok(),
        S::Adt(t, i, f) if f.is_empty() => pg().adt(*t).map(|a| a.variants[*i].discr),
        S::Disc(v) => number(v),
        _ => None,
    }
}
/// the value, as far as the path knows it
fn known(v: &S, k: &Known) -> Option<i128> {
    number(v).or_else(|| sym(v).and_then(|s| k.get(&s).copied()))
}
/// is it, on this path, the value the symbol stands for
fn is(v: &S, s: Sym, k: &Known) -> bool {
    !matches!(v, S::Disc(_)) && (sym(v) == Some(s) || (number(v).is_some() && number(v) == k.get(&s).copied()))
}

/// results on all paths, None when too complex
fn eval(f: FnId, args: Vec<S>, argty: TyId, known0: Known, depth: usize) -> Option<Vec<(Known, S)>> {
    let p = pg();
    let fun = p.f(f);
    if depth > 6 || !fun.has_body || args.len() != fun.argc {
        return None;
    }
    let oldty = |i: usize| p.adt(p.opts).map(|a| a.variants[0].fields[i].ty);
    let dom = |v: &S| match sym(v)? {
        Sym::Old(i) => domain(oldty(i)?),
        Sym::Arg => domain(argty),
    };
    let mut env = Env::new();
    for (i, a) in args.into_iter().enumerate() {
        env.insert(i + 1, a);
    }
    let mut out: Vec<(Known, S)> = vec![];
    let mut todo = vec![(0usize, 0usize, env, known0)];
    let mut steps = 0;
    'paths: while let Some((b, from, mut env, kn)) = todo.pop() {
        steps += 1;
        if steps > 3000 {
            return None;
        }
        let blk = &fun.blocks[b];
        for (si, (s, _)) in blk.stmts.iter().enumerate().skip(from) {
            // split the path on an unknown value that is computed with
            let split = |vs: &[&S]| -> Option<(Sym, Vec<i128>)> { vs.iter().find(|v| known(v, &kn).is_none() && sym(v).is_some()).and_then(|v| Some((sym(v)?, dom(v)?))) };
            if let Stmt::Assign(d, r) = s {
                let v = match r {
                    Rvalue::Use(o) => operand(&env, o),
                    Rvalue::Ref { place: q, .. } => {
                        if q.proj.is_empty() {
                            S::Ref(q.local, vec![])
                        } else if q.proj.iter().all(|e| matches!(e, Proj::Field(..))) {
                            S::Ref(q.local, q.proj.iter().map(|e| if let Proj::Field(i, _) = e { *i } else { 0 }).collect())
                        } else {
                            S::RefTo(Box::new(place(&env, q)))
                        }
                    }
                    Rvalue::Agg(AggKind::Adt { ty, variant, .. }, ops) => S::Adt(*ty, *variant, ops.iter().map(|o| operand(&env, o)).collect()),
                    Rvalue::Discr(q) => S::Disc(Box::new(place(&env, q))),
                    Rvalue::Un(op, o) if op == "Not" => {
                        let x = operand(&env, o);
                        if let Some((s, ds)) = split(&[&x]) {
                            for d in ds {
                                let mut k = kn.clone();
                                k.insert(s, d);
                                todo.push((b, si, env.clone(), k))
                            }
                            continue 'paths;
                        }
                        match known(&x, &kn) {
                            Some(0) => S::Const("true".into()),
                            Some(1) => S::Const("false".into()),
                            _ => S::Top,
                        }
                    }
                    Rvalue::Bin(op, x, y) => {
                        let (x, y) = (operand(&env, x), operand(&env, y));
                        if let Some((s, ds)) = split(&[&x, &y]) {
                            for d in ds {
                                let mut k = kn.clone();
                                k.insert(s, d);
                                todo.push((b, si, env.clone(), k))
                            }
                            continue 'paths;
                        }
                        match (known(&x, &kn), known(&y, &kn)) {
                            (Some(x), Some(y)) => {
                                let r = match op.as_str() {
                                    "Eq" => Some(x == y),
                                    "Ne" | "BitXor" => Some(x != y),
                                    "BitAnd" if x | y <= 1 => Some(x & y == 1),
                                    "BitOr" if x | y <= 1 => Some(x | y == 1),
                                    _ => None,
                                };
                                r.map(|r| S::Const(r.to_string())).unwrap_or(S::Top)
                            }
                            _ => S::Top,
                        }
                    }
                    _ => S::Top,
                };
                store(&mut env, d, v)
            }
        }
        match &blk.term {
            Term::Goto(t) | Term::Drop { target: t, .. } | Term::Assert { target: t, .. } => todo.push((*t, 0, env, kn)),
            Term::Return => {
                let v = (kn, env.get(&0).cloned().unwrap_or(S::Top));
                if !out.contains(&v) {
                    out.push(v)
                }
            }
            Term::Switch { discr, arms, otherwise, .. } => {
                let v = operand(&env, discr);
                let go = |i: i128| arms.iter().find(|a| a.0 as i128 == i).map(|a| a.1).unwrap_or(*otherwise);
                match (known(&v, &kn), sym(&v), dom(&v)) {
                    (Some(i), _, _) => todo.push((go(i), 0, env, kn)),
                    (None, Some(s), Some(ds)) => {
                        for d in ds {
                            let mut k = kn.clone();
                            k.insert(s, d);
                            todo.push((go(d), 0, env.clone(), k))
                        }
                    }
                    _ => {
                        for (_, t) in arms {
                            todo.push((*t, 0, env.clone(), kn.clone()))
                        }
                        todo.push((*otherwise, 0, env, kn))
                    }
                }
            }
            Term::Call { callee: Callee::Fn(g), args, dest, target, .. } => {
                let vals: Vec<S> = args.iter().map(|a| operand(&env, a)).collect();
                let gf = p.f(*g);
                let ti = gf.trait_item.as_deref().unwrap_or("");
                let rs = if ti == "core::clone::Clone::clone" && (gf.derived || !gf.local) {
                    vec![(
                        kn.clone(),
                        match &vals[0] {
                            S::Ref(l, q) => place(&env, &Place { local: *l, proj: q.iter().map(|i| Proj::Field(*i, 0)).collect() }),
                            S::RefTo(v) => (**v).clone(),
                            _ => S::Top,
                        },
                    )]
                } else if matches!(ti, "core::convert::Into::into" | "core::convert::From::from") && !gf.local && gf.inputs.first() == Some(&gf.output) {
                    vec![(kn.clone(), vals[0].clone())]
                } else if !gf.local && gf.path == "core::mem::replace" && vals.len() == 2 {
                    match &vals[0] {
                        S::Ref(l, q) => {
                            let pl = Place { local: *l, proj: q.iter().map(|i| Proj::Field(*i, 0)).collect() };
                            let o = place(&env, &pl);
                            store(&mut env, &pl, vals[1].clone());
                            vec![(kn.clone(), o)]
                        }
                        _ => return None,
                    }
                } else {
                    // references into this frame do not survive the call
                    let flat: Vec<S> = vals
                        .iter()
                        .map(|v| match v {
                            S::Ref(l, q) => S::RefTo(Box::new(place(&env, &Place { local: *l, proj: q.iter().map(|i| Proj::Field(*i, 0)).collect() }))),
                            v => v.clone(),
                        })
                        .collect();
                    for (i, v) in vals.iter().enumerate() {
                        let m = gf.inputs.get(i).map(|t| matches!(p.pr.types[*t].kind, TyKind::Ref { mutable: true, .. })).unwrap_or(false);
                        if let (S::Ref(l, q), true) = (v, m) {
                            let pl = Place { local: *l, proj: q.iter().map(|i| Proj::Field(*i, 0)).collect() };
                            store(&mut env, &pl, S::Top)
                        }
                    }
                    eval(*g, flat, argty, kn.clone(), depth + 1).unwrap_or(vec![(kn.clone(), S::Top)])
                };
                if let Some(t) = target {
                    for (k, v) in rs {
                        let mut e = env.clone();
                        store(&mut e, dest, v);
                        todo.push((*t, 0, e, k))
                    }
                }
            }
            Term::Call { .. } => return None,
            _ => {}
        }
    }
    Some(out)
}
/// the fields of the options that are not, on every path, what they were, and those that are the argument
fn effect(r: &[(Known, S)]) -> Option<(BTreeSet<usize>, BTreeSet<usize>)> {
    let p = pg();
    let n = p.adt(p.opts)?.variants[0].fields.len();
    let (mut new, mut arg): (BTreeSet<usize>, BTreeSet<usize>) = (BTreeSet::new(), (0..n).collect());
    for (k, v) in r {
        match v {
            S::Adt(t, 0, f) if *t == p.opts => {
                for i in 0..n {
                    if !is(&f[i], Sym::Old(i), k) {
                        new.insert(i);
                    }
                    if !is(&f[i], Sym::Arg, k) {
                        arg.remove(&i);
                    }
                }
            }
            _ => return None,
        }
    }
    if r.is_empty() {
        return None;
    }
    Some((new, arg))
}

#[derive(Serialize, Default, Clone)]
pub struct OptsR {
    pub findings: BTreeSet<String>,
    /// setter -> field
    pub setters: BTreeMap<String, String>,
    pub getters: BTreeMap<String, String>,
    pub defaults: BTreeMap<String, String>,
}

/// option (name of its setter) -> index of the field that holds it
pub fn fields() -> &'static HashMap<String, usize> {
    static F: OnceLock<HashMap<String, usize>> = OnceLock::new();
    F.get_or_init(|| {
        let p = pg();
        let mut m = HashMap::new();
        for (n, r) in setters() {
            if let Some((new, arg)) = r.as_deref().and_then(effect) {
                if let (1, Some(i)) = (new.len(), new.intersection(&arg).next()) {
                    m.insert(n, *i);
                }
            }
        }
        if let Some(a) = p.adt(p.opts) {
            for (i, f) in a.variants[0].fields.iter().enumerate() {
                m.entry(f.name.clone()).or_insert(i);
            }
        }
        m
    })
}
/// the option a field holds
pub fn option_of(field: usize) -> Option<&'static str> {
    let mut v: Vec<&str> = fields().iter().filter(|x| *x.1 == field).map(|x| x.0.as_str()).collect();
    v.sort();
    v.into_iter().next()
}
fn setters() -> Vec<(String, Option<Vec<(Known, S)>>)> {
    let p = pg();
    let n = p.adt(p.opts).map(|a| a.variants[0].fields.len()).unwrap_or(0);
    let old = S::Adt(p.opts, 0, (0..n).map(S::Old).collect());
    let mut v = vec![];
    for f in 0..p.pr.fns.len() {
        let fun = p.f(f);
        if fun.local && fun.trait_item.is_none() && !fun.is_closure && fun.output == p.opts && fun.inputs.len() == 2 && fun.inputs[0] == p.opts {
            v.push((fun.path.rsplit("::").next().unwrap_or("").to_string(), eval(f, vec![old.clone(), S::Arg], fun.inputs[1], Known::new(), 0)))
        }
    }
    v
}
fn show(v: &S) -> String {
    match v {
        S::Const(c) => match c.as_str() {
            "0" => "false".into(),
            "1" => "true".into(),
            c => c.into(),
        },
        S::Adt(t, i, f) if f.is_empty() => pg().adt(*t).map(|a| a.variants[*i].name.clone()).unwrap_or_default(),
        v => format!("{:?}", v),
    }
}

pub fn all() -> OptsR {
    let p = pg();
    let mut r = OptsR::default();
    let a = match p.adt(p.opts) {
        Some(a) => a,
        None => {
            r.findings.insert("anchor missing: struct ParseOptions".into());
            return r;
        }
    };
    let names: Vec<String> = a.variants[0].fields.iter().map(|f| f.name.clone()).collect();
    let mut holders: BTreeMap<usize, String> = BTreeMap::new();
    for (n, res) in setters() {
        let (new, arg) = match res.as_deref().and_then(effect) {
            Some(x) => x,
            None => {
                r.findings.insert(format!("ParseOptions::{} could not be evaluated", n));
                continue;
            }
        };
        // the option it is named after, if there is one
        let mine = names.iter().position(|x| *x == n);
        let got: Vec<usize> = arg.iter().copied().filter(|i| new.contains(i) && (mine == Some(*i) || !mine.map(|m| arg.contains(&m)).unwrap_or(false))).collect();
        for i in &new {
            if got.len() == 1 && *i != got[0] {
                r.findings.insert(format!("ParseOptions::{} does not leave the option {} as it was", n, names[*i]));
            }
        }
        match &got[..] {
            [] => {
                r.findings.insert(format!("ParseOptions::{} does not store its argument", n));
            }
            [i] => {
                r.setters.insert(n.clone(), names[*i].clone());
                if names.contains(&n) && names[*i] != n {
                    r.findings.insert(format!("ParseOptions::{} sets the option {}", n, names[*i]));
                } else if let Some(o) = holders.insert(*i, n.clone()) {
                    r.findings.insert(format!("ParseOptions::{} and ParseOptions::{} set the same option", o, n));
                }
            }
            _ => {
                r.findings.insert(format!("ParseOptions::{} sets more than one option", n));
            }
        }
    }
    let old = S::Adt(p.opts, 0, (0..names.len()).map(S::Old).collect());
    let mut made = 0;
    for f in 0..p.pr.fns.len() {
        let fun = p.f(f);
        if !fun.local || fun.is_closure {
            continue;
        }
        let n = fun.path.rsplit("::").next().unwrap_or("").to_string();
        // getters
        if let (Some(o), [t]) = (n.strip_prefix("get_"), &fun.inputs[..]) {
            if matches!(p.pr.types[*t].kind, TyKind::Ref { to, .. } if to == p.opts) {
                let want = fields().get(o).copied();
                match eval(f, vec![S::RefTo(Box::new(old.clone()))], 0, Known::new(), 0).as_deref() {
                    Some(vs) if !vs.is_empty() => {
                        let ok = |w: usize| vs.iter().all(|(k, v)| is(if let S::RefTo(v) = v { v } else { v }, Sym::Old(w), k));
                        match want {
                            Some(w) if ok(w) => {
                                r.getters.insert(n, names[w].clone());
                            }
                            _ => {
                                r.findings.insert(format!("ParseOptions::{} does not give the option {}", n, o));
                            }
                        }
                    }
                    _ => {
                        r.findings.insert(format!("ParseOptions::{} could not be evaluated", n));
                    }
                }
            }
        }
        // constructors
        if fun.output == p.opts && fun.inputs.is_empty() {
            made += 1;
            match eval(f, vec![], 0, Known::new(), 0).as_deref() {
                Some([(_, S::Adt(t, 0, v))]) if *t == p.opts => {
                    for (i, x) in v.iter().enumerate() {
                        let o = option_of(i).unwrap_or(&names[i]).to_string();
                        let s = show(x);
                        if let Some(q) = r.defaults.insert(o.clone(), s.clone()) {
                            if q != s {
                                r.findings.insert(format!("constructors of ParseOptions disagree on the default of {}", o));
                            }
                        }
                    }
                }
                _ => {
                    r.findings.insert(format!("{} could not be evaluated", p.short(f)));
                }
            }
        }
    }
    if made == 0 {
        r.findings.insert("anchor missing: constructor of ParseOptions".into());
    }
    r
}

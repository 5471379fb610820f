//! Ranges put together by hand: is the start not after the end on every path of the function?
use crate::prog::*;
use ir::*;
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, PartialEq, Debug)]
enum E {
    At(String),
    /// not after any of these, not before any of those
    Between(Vec<String>, Vec<String>),
    Cmp(String, Box<E>, Box<E>),
}
impl E {
    fn low(&self) -> Vec<String> {
        match self {
            E::At(s) => vec![s.clone()],
            E::Between(l, _) => l.clone(),
            _ => vec![],
        }
    }
    fn high(&self) -> Vec<String> {
        match self {
            E::At(s) => vec![s.clone()],
            E::Between(_, h) => h.clone(),
            _ => vec![],
        }
    }
}
#[derive(Clone)]
struct Path {
    env: HashMap<Local, E>,
    ver: HashMap<Local, usize>,
    /// left is not after right
    le: Vec<(String, String)>,
    seen: BTreeSet<Bb>,
}
impl Path {
    fn place(&self, fun: &Func, p: &Place) -> Option<String> {
        let mut s = match self.env.get(&p.local) {
            Some(E::At(s)) => s.clone(),
            Some(_) if p.proj.is_empty() => return None,
            _ => match self.ver.get(&p.local) {
                Some(v) => format!("_{}#{}", p.local, v),
                None => format!("_{}", p.local),
            },
        };
        for (i, e) in p.proj.iter().enumerate() {
            match e {
                Proj::Deref => {
                    if let Some(r) = s.strip_prefix('&') {
                        s = r.to_string()
                    } else {
                        s.push('*')
                    }
                }
                Proj::Field(n, _) => {
                    let of = pg().type_of_place(fun, &Place { local: p.local, proj: p.proj[..i].to_vec() });
                    s.push_str(&if of == pg().range { [".start", ".end"][*n.min(&1)].to_string() } else { format!(".{}", n) })
                }
                Proj::Downcast(v) => s.push_str(&format!("@{:?}", v)),
                _ => return None,
            }
        }
        Some(s)
    }
    fn op(&self, fun: &Func, o: &Operand) -> E {
        match o {
            Operand::Copy(p) | Operand::Move(p) => match self.env.get(&p.local) {
                Some(e) if p.proj.is_empty() => e.clone(),
                _ => self.place(fun, p).map(E::At).unwrap_or(E::Between(vec![], vec![])),
            },
            Operand::Const(c) => match &c.val {
                CVal::Int(i) => E::At(format!("const{}", i)),
                _ => E::Between(vec![], vec![]),
            },
            _ => E::Between(vec![], vec![]),
        }
    }
    /// everything known not to be before one of these
    fn up(&self, from: Vec<String>) -> BTreeSet<String> {
        let mut r: BTreeSet<String> = from.into_iter().collect();
        loop {
            let n = r.len();
            for (a, b) in &self.le {
                if r.contains(a) {
                    r.insert(b.clone());
                }
            }
            for a in r.clone() {
                // a range starts before it ends
                if let Some(b) = a.strip_suffix(".start") {
                    r.insert(format!("{}.end", b));
                }
            }
            if r.len() == n {
                return r;
            }
        }
    }
    fn ordered(&self, s: &E, e: &E) -> bool {
        let up = self.up(s.low());
        e.high().iter().any(|h| up.contains(h))
    }
    fn fact(&mut self, a: &E, b: &E) {
        for x in a.high() {
            for y in b.low() {
                self.le.push((x.clone(), y))
            }
        }
    }
    fn forget(&mut self, l: Local) {
        self.env.remove(&l);
        *self.ver.entry(l).or_insert(0) += 1
    }
}

/// the blocks of a function in which every range that is made is ordered
pub fn ordered(f: FnId) -> HashMap<Bb, bool> {
    let p = pg();
    let fun = p.f(f);
    let mut ok: HashMap<Bb, bool> = HashMap::new();
    if fun.blocks.is_empty() {
        return ok;
    }
    let mut todo = vec![(0usize, Path { env: HashMap::new(), ver: HashMap::new(), le: vec![], seen: BTreeSet::new() })];
    let mut fuel = 4000;
    while let Some((b, mut t)) = todo.pop() {
        fuel -= 1;
        if fuel == 0 {
            return HashMap::new();
        }
        if !t.seen.insert(b) {
            continue;
        }
        let blk = &fun.blocks[b];
        for (s, _) in &blk.stmts {
            let (d, r) = match s {
                Stmt::Assign(d, r) => (d, r),
                _ => continue,
            };
            let v = match r {
                Rvalue::Use(o) | Rvalue::Cast(_, o, _) => t.op(fun, o),
                Rvalue::Ref { place, .. } => t.place(fun, place).map(|s| E::At(format!("&{}", s))).unwrap_or(E::Between(vec![], vec![])),
                Rvalue::Bin(op, x, y) if ["Lt", "Le", "Gt", "Ge"].contains(&op.as_str()) => {
                    let (x, y) = (t.op(fun, x), t.op(fun, y));
                    let (x, y, op) = if op.starts_with('G') { (y, x, if op == "Gt" { "Lt" } else { "Le" }) } else { (x, y, op.as_str()) };
                    E::Cmp(op.to_string(), Box::new(x), Box::new(y))
                }
                Rvalue::Agg(AggKind::Adt { ty, .. }, ops) if *ty == p.range && ops.len() == 2 => {
                    let o = t.ordered(&t.op(fun, &ops[0]), &t.op(fun, &ops[1]));
                    *ok.entry(b).or_insert(true) &= o;
                    E::At(format!("range{}", b))
                }
                _ => E::At(format!("v{}.{}", b, d.local)),
            };
            if let [.., Proj::Field(i, _)] = &d.proj[..] {
                // one end of a range is changed
                let mut q = d.clone();
                q.proj.pop();
                if p.type_of_place(fun, &q) == p.range {
                    let other = |j: usize| {
                        let mut w = q.clone();
                        w.proj.push(Proj::Field(j, fun.locals[0].ty));
                        t.place(fun, &w).map(E::At).unwrap_or(E::Between(vec![], vec![]))
                    };
                    let o = if *i == 0 { t.ordered(&v, &other(1)) } else { t.ordered(&other(0), &v) };
                    *ok.entry(b).or_insert(true) &= o
                }
            }
            t.forget(d.local);
            if d.proj.is_empty() {
                t.env.insert(d.local, v);
            }
        }
        match &blk.term {
            Term::Goto(n) | Term::Drop { target: n, .. } | Term::Assert { target: n, .. } => todo.push((*n, t)),
            Term::Switch { discr, arms, otherwise, .. } => {
                let c = t.op(fun, discr);
                let mut to: Vec<(Bb, Option<bool>)> = arms.iter().map(|a| (a.1, Some(a.0 != 0))).collect();
                to.push((*otherwise, if arms.len() == 1 { Some(arms[0].0 == 0) } else { None }));
                for (n, yes) in to {
                    let mut u = t.clone();
                    if let (E::Cmp(_, x, y), Some(yes)) = (&c, yes) {
                        if yes {
                            u.fact(x, y)
                        } else {
                            u.fact(y, x)
                        }
                    }
                    todo.push((n, u))
                }
            }
            Term::Call { callee, args, dest, target: Some(n), .. } => {
                let v: Vec<E> = args.iter().map(|a| t.op(fun, a)).collect();
                let mut e = E::At(format!("call{}", b));
                if let Callee::Fn(g) = callee {
                    let gf = p.f(*g);
                    let ti = gf.trait_item.as_deref().unwrap_or("");
                    let m = gf.path.rsplit("::").next().unwrap_or("");
                    if v.len() == 2 && (m == "min" || m == "max") && (ti.starts_with("core::cmp::Ord") || gf.path.starts_with("core::cmp")) {
                        let (x, y) = (&v[0], &v[1]);
                        let both = |a: Vec<String>, b: Vec<String>| a.into_iter().chain(b).collect::<Vec<_>>();
                        e = if m == "min" { E::Between(both(x.low(), y.low()), vec![]) } else { E::Between(vec![], both(x.high(), y.high())) }
                    }
                    if ti == "core::clone::Clone::clone" {
                        if let Some(E::At(s)) = v.first() {
                            if let Some(s) = s.strip_prefix('&') {
                                e = E::At(s.to_string())
                            }
                        }
                    }
                }
                t.forget(dest.local);
                if dest.proj.is_empty() {
                    t.env.insert(dest.local, e);
                }
                todo.push((*n, t))
            }
            _ => {}
        }
    }
    ok
}

//! The abstract interpreter: interprocedural fixpoint over monomorphic MIR.
use crate::confine::*;
use crate::facts::node_name;
use crate::prog::*;
use crate::state::*;
use crate::val::*;
use ir::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type CtxId = usize;
/// kind sets larger than this are not distinguished between calls
pub const WIDE: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// tokens are symbols, the lexer is a boundary
    Token,
    /// characters are symbols
    Char,
}

pub struct Ctx {
    pub f: FnId,
    pub entry: Rc<St>,
    pub exits: Vec<(u64, St)>,
    pub blocks: HashMap<(Bb, u64), St>,
    pub nkeys: HashMap<Bb, usize>,
    pub deps: BTreeSet<(CtxId, Bb, u64)>,
    /// contexts entered before anything was lexed
    pub left: BTreeSet<CtxId>,
    pub callees: BTreeSet<CtxId>,
    pub from: Option<CtxId>,
}

/// One thing worth reporting, keyed without line numbers.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Finding {
    pub rule: &'static str,
    pub func: String,
    pub what: String,
}

#[derive(Default)]
pub struct Obs {
    /// where, type -> elements added after a comma, without
    pub pushes: BTreeMap<(String, TyId), (u64, u64)>,
    pub panics: BTreeMap<Finding, String>,
    pub noprogress: BTreeMap<Finding, String>,
    pub discharged: u64,
    pub backedges: BTreeSet<(FnId, Bb)>,
    pub unmodelled: BTreeMap<String, usize>,
    pub calls: u64,
    pub rules: BTreeMap<Finding, String>,
    pub blocks_run: u64,
    pub agg: BTreeMap<(TyId, usize), u64>,
    /// list fields of tree nodes: builds seen, may be empty
    pub lists: BTreeMap<(TyId, usize, usize), (u64, bool)>,
    /// functions analysed
    pub fns: BTreeSet<FnId>,
}

pub struct Cfg {
    pub mode: Mode,
    /// fixed values for fields of ParseOptions: name -> variant / bool
    pub opts: HashMap<String, i128>,
    /// the delimiter is always this token (where errors may spread is decided for one delimiter at a time)
    pub delim: Option<usize>,
    /// follow brackets and commas
    pub nest: bool,
}

pub struct Eng {
    pub cfg: Cfg,
    pub ctxs: Vec<Ctx>,
    pub memo: HashMap<(FnId, Rc<St>), CtxId>,
    /// wide sets of kinds a function is called with
    pub apart: HashMap<FnId, Vec<KS>>,
    pub work: BTreeMap<CtxId, BTreeSet<(usize, Bb, u64)>>,
    pub obs: Obs,
    pub dyn_tags: Vec<String>,
    pub dyn_ids: HashMap<String, usize>,
    /// tags of stand-in nodes
    pub invented: BTreeSet<usize>,
    /// context being run
    pub cur: CtxId,
    pub spec: crate::facts::Spec,
    pub learn: crate::facts::Learn,
    pub seen: crate::facts::Seen,
    pub trace: bool,
    pub budget: u64,
    pub exhausted: bool,
    /// parsing functions that leave brackets without counterpart, and which
    pub odd: Vec<(FnId, String)>,
    /// per function: blocks whose hand-made ranges are ordered
    pub order: HashMap<FnId, HashMap<Bb, bool>>,
}

pub struct At {
    pub ctx: CtxId,
    pub bb: Bb,
    pub key: u64,
}

/// a method of one of the standard library's iterators over finitely many
/// elements: its own loops end
fn finite_iter(f: &Func) -> bool {
    static OWN: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let ti = f.trait_item.as_deref().unwrap_or("");
    if f.local || f.is_closure || !(ti.starts_with("core::iter::Iterator::") || ti.starts_with("core::iter::DoubleEndedIterator::")) {
        return false;
    }
    // nothing is known about iterators of the crate's own
    let own = OWN.get_or_init(|| {
        let next = |f: &&Func| f.local && f.trait_item.as_deref().map(|t| t.starts_with("core::iter::") && t.contains("Iterator::next")).unwrap_or(false);
        pg().pr.fns.iter().filter(next).map(|f| f.inst.split(" as ").next().unwrap_or("").trim_start_matches('<').split('<').next().unwrap_or("").to_string()).collect()
    });
    let ty = f.inst.split(" as core::iter::").next().unwrap_or("");
    let endless = ["Repeat", "Cycle", "FromFn", "Successors", "RangeFrom", "dyn "];
    (ty.starts_with("<core::") || ty.starts_with("<alloc::")) && !endless.iter().any(|e| ty.contains(e)) && !own.iter().any(|o| ty.contains(o.as_str()))
}

/// a function that does nothing but put its arguments into a variant
fn constructor(f: &Func) -> Option<(TyId, usize)> {
    if !f.local || f.is_closure || f.blocks.len() != 1 || f.blocks[0].stmts.len() != 1 || !matches!(f.blocks[0].term, Term::Return) {
        return None;
    }
    if let Stmt::Assign(p, Rvalue::Agg(AggKind::Adt { ty, variant, union_field: None, .. }, ops)) = &f.blocks[0].stmts[0].0 {
        let plain = |(i, o): (usize, &Operand)| matches!(o, Operand::Move(q) | Operand::Copy(q) if q.local == i + 1 && q.proj.is_empty());
        if p.local == 0 && p.proj.is_empty() && ops.len() == f.argc && ops.iter().enumerate().all(plain) {
            return Some((*ty, *variant));
        }
    }
    None
}

fn opt_range(t: TyId) -> bool {
    let p = pg();
    p.path(t) == "core::option::Option" && p.adt(t).and_then(|a| a.args.first().copied()) == Some(p.range)
}

/// a function that only computes a span from what it is given
fn spans_of(f: FnId) -> bool {
    let p = pg();
    p.kindless[f] && (p.f(f).output == p.range || opt_range(p.f(f).output))
}

/// the caller's tokens a span is made of
fn which(v: &V, k: u32, h: &mut Vec<u64>) {
    match v {
        V::Adt(a) if a.ty == pg().range => v.each_sym(&mut |s| h.push(300 + s.min(k) as u64)),
        V::Adt(a) => a.vars.iter().for_each(|x| x.1.iter().for_each(|v| which(v, k, h))),
        _ => {}
    }
}

/// is the value certainly not the "absent" one?
pub fn present(v: &V) -> bool {
    match v {
        V::Adt(a) => {
            if pg().path(a.ty) == "core::option::Option" {
                a.vars.iter().any(|x| x.0 == 1)
            } else {
                true
            }
        }
        V::Vec(x) => !x.surely_empty(),
        V::Int(x) => x.iter().any(|i| *i != 0),
        V::Dead => false,
        _ => true,
    }
}

/// may the value be the "absent" one?
pub fn absent(v: &V) -> bool {
    match v {
        V::Adt(a) => pg().path(a.ty) == "core::option::Option" && a.vars.iter().any(|x| x.0 == 0),
        V::Vec(x) => !x.nonempty(),
        V::Int(x) => x.iter().any(|i| *i == 0),
        V::Any(_) => true,
        _ => false,
    }
}

impl Eng {
    pub fn new(cfg: Cfg) -> Eng {
        Eng {
            cfg,
            ctxs: vec![],
            memo: HashMap::new(),
            apart: HashMap::new(),
            work: BTreeMap::new(),
            obs: Obs::default(),
            dyn_tags: vec![],
            dyn_ids: HashMap::new(),
            invented: BTreeSet::new(),
            cur: 0,
            spec: Default::default(),
            learn: Default::default(),
            seen: Default::default(),
            trace: std::env::var("SA_TRACE").is_ok(),
            budget: 60_000_000,
            exhausted: false,
            odd: vec![],
            order: HashMap::new(),
        }
    }
    pub fn dyn_tag(&mut self, s: &str) -> usize {
        if let Some(i) = self.dyn_ids.get(s) {
            return *i;
        }
        let i = pg().tag_names.len() + self.dyn_tags.len();
        self.dyn_tags.push(s.to_string());
        self.dyn_ids.insert(s.to_string(), i);
        i
    }
    pub fn tag_name(&self, i: usize) -> String {
        if i < pg().tag_names.len() {
            pg().tag_names[i].clone()
        } else {
            self.dyn_tags[i - pg().tag_names.len()].clone()
        }
    }

    pub fn ctx_for(&mut self, f: FnId, mut entry: St, from: Option<CtxId>) -> CtxId {
        norm_issues(&mut entry);
        let key = (f, Rc::new(entry));
        if let Some(c) = self.memo.get(&key) {
            return *c;
        }
        let id = self.ctxs.len();
        let entry = key.1.clone();
        self.memo.insert(key, id);
        self.obs.fns.insert(f);
        let mut st = (*entry).clone();
        st.g.peek0 = peeked(&st);
        st.g.ne0 = at_end(&st).0;
        self.ctxs.push(Ctx { f, entry, exits: vec![], blocks: HashMap::new(), nkeys: HashMap::new(), deps: BTreeSet::new(), left: BTreeSet::new(), callees: BTreeSet::new(), from });
        self.enter(id, None, 0, st);
        id
    }

    pub fn solve(&mut self) {
        while let Some((&c, _)) = self.work.iter().next_back() {
            let set = self.work.get_mut(&c).unwrap();
            let it = set.pop_first();
            if set.is_empty() {
                self.work.remove(&c);
            }
            if let Some((_, bb, key)) = it {
                self.obs.blocks_run += 1;
                if self.obs.blocks_run > self.budget {
                    self.exhausted = true;
                    return;
                }
                self.run_block(c, bb, key);
                if self.odd.len() > crate::nest::SPREAD {
                    self.work.clear()
                }
            }
        }
    }

    fn key(&self, f: FnId, bb: Bb, st: &St, coarse: bool) -> u64 {
        let info = pg().info(f);
        let mut h: Vec<u64> = vec![st.g.conf as u64, st.g.adv as u64, st.g.iss as u64, st.g.copy as u64, st.g.peek0 as u64, st.g.ne0 as u64];
        st.g.nest.hash(&mut h);
        for l in &st.g.loops {
            h.push(l.head as u64);
            h.push(l.adv as u64);
            h.push(l.peek0 as u64);
            h.push(l.ne0 as u64);
            h.push(l.dec as u64);
        }
        h.push(st.g.lits.len() as u64);
        if self.cfg.mode == Mode::Char {
            h.push(st.g.trace.len() as u64)
        }
        if let Some((a, b)) = st.g.warn {
            h.push(1 << 40 | a as u64);
            h.push(b as u64)
        }
        for c in &st.cells {
            always(c, &mut h)
        }
        for (i, l) in st.locals.0.iter() {
            let i = *i as usize;
            if matches!(l, V::Dead) {
                continue;
            }
            always(l, &mut h);
            if !coarse {
                match l {
                    V::Adt(a) if a.ty == pg().range => which(l, st.k, &mut h),
                    V::Adt(a) if opt_range(a.ty) => {
                        h.push(400 + a.vars.len() as u64 * 2 + a.vars[0].0 as u64);
                        which(l, st.k, &mut h)
                    }
                    _ => {}
                }
            }
            if !coarse && info.shape_in[bb][i] {
                h.push(i as u64);
                shape(l, 3, &mut h)
            }
        }
        hash(&h)
    }

    /// control enters block `to`
    pub fn enter(&mut self, c: CtxId, from: Option<Bb>, to: Bb, mut st: St) {
        let f = self.ctxs[c].f;
        let fun = pg().f(f);
        let info = pg().info(f);
        if fun.blocks[to].cleanup || matches!(fun.blocks[to].term, Term::Unreachable) && fun.blocks[to].stmts.is_empty() {
            return;
        }
        if matches!(st.g.warn, Some((_, e)) if e as usize == to) {
            st.g.warn = None
        }
        let pk = peeked(&st);
        let (ne, eof) = at_end(&st);
        if ne && !st.g.adv {
            st.g.ne0 = true
        }
        for l in st.g.loops.iter_mut() {
            l.ne0 |= ne && !l.adv
        }
        while let Some(l) = st.g.loops.last() {
            if info.loops.get(&l.head).map(|b| b[to]).unwrap_or(false) {
                break;
            }
            st.g.loops.pop();
        }
        if let Some(body) = info.loops.get(&to) {
            let back = from.map(|b| body[b]).unwrap_or(false) && st.g.loops.last().map(|l| l.head == to).unwrap_or(false);
            if back {
                self.obs.backedges.insert((f, to));
                if st.g.recent.len() > 3 || pg().returns_tree(f) {
                    st.g.recent.clear();
                    st.g.cut = true;
                }
                let l = st.g.loops.last_mut().unwrap();
                let progress = l.adv || (l.peek0 && !pk) || (l.ne0 && eof) || l.dec > 0 || finite_iter(fun);
                if !progress {
                    let fi = Finding { rule: "loop-without-progress", func: pg().short(f), what: self.loop_desc(f, to) };
                    let d = format!("a turn of the loop at {}:{} can complete without consuming anything; {}", fun.file, line_of(fun, to), self.describe(&st));
                    self.obs.noprogress.entry(fi).or_insert(d);
                }
                let l = st.g.loops.last_mut().unwrap();
                *l = LoopG { head: to, adv: false, peek0: pk, ne0: ne, dec: 0 };
            } else {
                st.g.loops.push(LoopG { head: to, adv: false, peek0: pk, ne0: ne, dec: 0 });
            }
        }
        st.locals.0.retain(|x| info.live_in[to][x.0 as usize] || info.addr[x.0 as usize]);
        st.compact();
        let n = self.ctxs[c].nkeys.get(&to).copied().unwrap_or(0);
        let mut key = self.key(f, to, &st, false);
        if n > 128 && !self.ctxs[c].blocks.contains_key(&(to, key)) {
            key = self.key(f, to, &st, true);
        }
        let ctx = &mut self.ctxs[c];
        let ch = match ctx.blocks.get_mut(&(to, key)) {
            None => {
                ctx.blocks.insert((to, key), st);
                *ctx.nkeys.entry(to).or_insert(0) += 1;
                true
            }
            Some(old) => {
                if *old == st {
                    false
                } else {
                    let j = join(old, &st);
                    if j != *old {
                        *old = j;
                        true
                    } else {
                        false
                    }
                }
            }
        };
        if ch {
            let r = info.rpo[to];
            self.work.entry(c).or_default().insert((r, to, key));
        }
    }
    pub fn loop_desc(&self, f: FnId, head: Bb) -> String {
        let info = pg().info(f);
        let mut heads: Vec<Bb> = info.loops.keys().copied().collect();
        heads.sort_by_key(|h| info.rpo[*h]);
        let i = heads.iter().position(|h| *h == head).unwrap_or(0);
        format!("loop {} of {}", i + 1, heads.len())
    }
    pub fn describe(&self, st: &St) -> String {
        let mut s = String::new();
        for c in st.cells.iter().chain(st.locals.iter()) {
            if let V::Adt(a) = c {
                if a.ty == pg().parser {
                    for (i, fl) in pg().adt(a.ty).unwrap().variants[0].fields.iter().enumerate() {
                        if fl.ty == pg().tok {
                            if let V::Tok(t) = &a.vars[0].1[i] {
                                s += &format!("{}: {} ", fl.name, pg().ks_names(&st.ks(*t)));
                            }
                        }
                    }
                }
            }
        }
        s
    }

    fn exit(&mut self, c: CtxId, mut st: St) {
        let ret = std::mem::replace(&mut st.locals[0], V::Dead);
        st.locals = Locals(vec![(0, ret)]);
        st.g.loops.clear();
        st.g.adv = st.g.adv || (st.g.peek0 && !peeked(&st)) || (st.g.ne0 && at_end(&st).1);
        st.g.peek0 = false;
        st.g.ne0 = false;
        st.g.eqs.clear();
        st.g.lits.clear();
        st.g.warn = None;
        norm_issues(&mut st);
        if self.cfg.delim.is_some() {
            self.confined_exit(c, &st)
        }
        self.exit_facts(c, &st);
        self.nest_exit(c, &mut st);
        st.compact();
        let mut h = vec![st.g.conf as u64, st.g.adv as u64, st.g.iss as u64, st.g.copy as u64, if self.cfg.mode == Mode::Char { st.g.trace.len() as u64 } else { 0 }];
        st.g.nest.hash(&mut h);
        shape(&st.locals[0], 3, &mut h);
        always(&st.locals[0], &mut h);
        if spans_of(self.ctxs[c].f) {
            which(&st.locals[0], st.k, &mut h)
        }
        for c in &st.cells {
            always(c, &mut h)
        }
        let mut key = hash(&h);
        if self.ctxs[c].exits.len() > 64 && !self.ctxs[c].exits.iter().any(|e| e.0 == key) {
            let mut h = vec![st.g.conf as u64, st.g.adv as u64, st.g.iss as u64, st.g.copy as u64];
            st.g.nest.hash(&mut h);
            shape(&st.locals[0], 0, &mut h);
            for c in &st.cells {
                always(c, &mut h)
            }
            key = hash(&h);
        }
        let ctx = &mut self.ctxs[c];
        let ch = match ctx.exits.iter_mut().find(|e| e.0 == key) {
            None => {
                ctx.exits.push((key, st));
                true
            }
            Some(e) => {
                let j = join(&e.1, &st);
                if j != e.1 {
                    e.1 = j;
                    true
                } else {
                    false
                }
            }
        };
        if ch {
            let deps: Vec<_> = ctx.deps.iter().cloned().collect();
            for (c2, bb, key) in deps {
                let r = pg().info(self.ctxs[c2].f).rpo[bb];
                self.work.entry(c2).or_default().insert((r, bb, key));
            }
        }
    }

    fn run_block(&mut self, c: CtxId, bb: Bb, key: u64) {
        let f = self.ctxs[c].f;
        let fun = pg().f(f);
        let st = self.ctxs[c].blocks[&(bb, key)].clone();
        if self.trace {
            eprintln!("[{}] {} bb{} syms={} forks", c, pg().short(f), bb, st.syms.len());
        }
        let at = At { ctx: c, bb, key };
        self.cur = c;
        let mut sts = vec![st];
        for (s, _) in &fun.blocks[bb].stmts {
            let mut next = vec![];
            for st in sts {
                self.stmt(&at, fun, s, st, &mut next)
            }
            sts = next;
        }
        for st in sts {
            self.term(&at, fun, &fun.blocks[bb].term, st)
        }
    }

    // ---- places and operands ----

    pub fn loc(&mut self, st: &mut St, fun: &Func, p: &Place) -> Loc {
        let mut cur = Loc { base: Base::L(p.local as u32), path: vec![], ty: fun.locals[p.local].ty };
        for e in &p.proj {
            match e {
                Proj::Deref => {
                    let to = match &pg().pr.types[cur.ty].kind {
                        TyKind::Ref { to, .. } | TyKind::Ptr { to, .. } => *to,
                        TyKind::Adt(a) if a.kind == AdtKind::Box => a.args[0],
                        _ => cur.ty,
                    };
                    let v = st.get(&cur);
                    match v {
                        V::Ref(l) => {
                            cur = (*l).clone();
                        }
                        V::Box(_) => cur.path.push(PE::Box),
                        _ => cur.path.push(PE::Snap),
                    }
                    cur.ty = to;
                }
                Proj::Field(i, t) => {
                    cur.path.push(PE::Field(*i as u32));
                    cur.ty = *t;
                }
                Proj::Downcast(v) => cur.path.push(PE::Down(*v as u32)),
                Proj::Index(l) => {
                    let iv = st.locals[*l].as_int();
                    match iv {
                        Some(i) if i >= 0 && i < 1000 => cur.path.push(PE::Idx(i as u32)),
                        _ => cur.path.push(PE::Elem),
                    }
                    cur.ty = elem_ty(cur.ty);
                }
                Proj::ConstIndex { offset, from_end, .. } => {
                    if !*from_end {
                        cur.path.push(PE::Idx(*offset as u32))
                    } else {
                        let v = st.get(&cur);
                        match &v {
                            V::Vec(x) if x.exact.is_some() && x.exact.as_ref().unwrap().len() as u64 >= *offset => {
                                cur.path.push(PE::Idx((x.exact.as_ref().unwrap().len() as u64 - offset) as u32))
                            }
                            _ => cur.path.push(PE::Elem),
                        }
                    }
                    cur.ty = elem_ty(cur.ty);
                }
                Proj::Subslice { from, .. } => cur.path.push(PE::From(*from as u32)),
                Proj::Opaque => {}
            }
        }
        cur
    }
    /// give a value of unknown form the outermost structure its type implies
    pub fn concretize(&mut self, st: &mut St, v: V, ty: TyId) -> V {
        match &v {
            V::Any(t) => {
                let t = t.clone();
                self.top(st, ty, t)
            }
            _ => v,
        }
    }
    pub fn top(&mut self, st: &mut St, ty: TyId, t: Tags) -> V {
        let p = pg();
        if ty == p.tok {
            let s = st.fresh(p.full(), false, false);
            return V::Tok(s);
        }
        if ty == p.kw {
            let s = st.fresh(p.idents(), false, false);
            return V::Kw(s);
        }
        if p.ast[ty] {
            return V::Node(Rc::new(NodeV { ty, vars: vec![], tags: t }));
        }
        if ty == p.range {
            let ks = p.full();
            let mk = |side| V::Pos(Rc::new(PosV { side, sym: None, ks: if self.cfg.mode == Mode::Token { KS::EMPTY } else { ks }, node: true, zero: false, add: vec![] }));
            return V::Adt(Rc::new(AdtV { ty, vars: vec![(0, vec![mk(Side::Start), mk(Side::End)])] }));
        }
        match &p.pr.types[ty].kind {
            TyKind::Bool => V::Int(Rc::new(vec![0, 1])),
            TyKind::Tuple(e) => {
                let e = e.clone();
                V::Tup(Rc::new(e.iter().map(|_| V::Any(t.clone())).collect()))
            }
            TyKind::Ref { to, .. } if matches!(p.pr.types[*to].kind, TyKind::Str) => V::anystr(),
            TyKind::Adt(a) => match a.path.as_str() {
                "alloc::vec::Vec" => V::Vec(Rc::new(VecV { exact: None, elem: Some(V::Any(t)), min: 0 })),
                "alloc::boxed::Box" => V::Box(Rc::new(V::Any(t))),
                _ => V::Any(t),
            },
            TyKind::Slice(_) | TyKind::Array(..) => V::Vec(Rc::new(VecV { exact: None, elem: Some(V::Any(t)), min: 0 })),
            _ => V::Any(t),
        }
    }
    pub fn read(&mut self, st: &mut St, loc: &Loc) -> V {
        let v = st.get(loc);
        if let V::Any(_) = v {
            let n = self.concretize(st, v.clone(), loc.ty);
            if n != v && !loc.path.iter().any(|p| matches!(p, PE::Elem)) {
                st.set(loc, n.clone());
                return n;
            }
            return n;
        }
        v
    }
    pub fn operand(&mut self, st: &mut St, fun: &Func, o: &Operand) -> V {
        match o {
            Operand::Copy(p) => {
                let l = self.loc(st, fun, p);
                self.read(st, &l)
            }
            Operand::Move(p) => {
                let l = self.loc(st, fun, p);
                let v = self.read(st, &l);
                if !l.path.iter().any(|p| matches!(p, PE::Elem | PE::Snap)) && matches!(l.base, Base::L(_)) {
                    if let V::Node(_) | V::Any(_) = st.base(l.base) {
                        if l.path.is_empty() {
                            *st.base_mut(l.base) = V::Dead
                        }
                    } else {
                        st.set(&l, V::Dead)
                    }
                }
                v
            }
            Operand::Const(c) => self.cval(st, &c.val, c.ty),
            Operand::RuntimeCheck(_) => V::bool(false),
        }
    }
    pub fn cval(&mut self, st: &mut St, c: &CVal, ty: TyId) -> V {
        let p = pg();
        match c {
            CVal::Int(i) => V::int(*i),
            CVal::Bool(b) => V::bool(*b),
            CVal::Char(ch) => {
                if self.cfg.mode == Mode::Char {
                    V::int(*ch as i128)
                } else {
                    V::int(*ch as i128)
                }
            }
            CVal::Str(s) => V::Str(Rc::new(StrV { sym: None, konst: Some(Rc::from(s.as_str())), ks: KS::EMPTY, other: false, lit: None })),
            CVal::Ref(x) => {
                let to = match &p.pr.types[ty].kind {
                    TyKind::Ref { to, .. } | TyKind::Ptr { to, .. } => *to,
                    _ => ty,
                };
                if let CVal::Str(_) = **x {
                    return self.cval(st, x, to);
                }
                let v = self.cval(st, x, to);
                V::RefVal(Rc::new(v))
            }
            CVal::SliceRef(v) => {
                let et = match &p.pr.types[ty].kind {
                    TyKind::Ref { to, .. } => elem_ty(*to),
                    _ => ty,
                };
                let e = v.iter().map(|x| self.cval(st, x, et)).collect();
                V::RefVal(Rc::new(V::Vec(Rc::new(VecV { exact: Some(e), elem: None, min: 0 }))))
            }
            CVal::Array(v) => {
                let et = elem_ty(ty);
                let e = v.iter().map(|x| self.cval(st, x, et)).collect();
                V::Vec(Rc::new(VecV { exact: Some(e), elem: None, min: 0 }))
            }
            CVal::Tuple(v) => {
                let ts = match &p.pr.types[ty].kind {
                    TyKind::Tuple(t) => t.clone(),
                    _ => vec![],
                };
                V::Tup(Rc::new(v.iter().enumerate().map(|(i, x)| self.cval(st, x, ts.get(i).copied().unwrap_or(ty))).collect()))
            }
            CVal::Adt(var, f) => {
                let ft: Vec<TyId> = p.adt(ty).map(|a| a.variants[*var].fields.iter().map(|f| f.ty).collect()).unwrap_or_default();
                let vals: Vec<V> = f.iter().enumerate().map(|(i, x)| self.cval(st, x, ft.get(i).copied().unwrap_or(ty))).collect();
                self.build(st, ty, *var, vals, None)
            }
            CVal::Zst => match &p.pr.types[ty].kind {
                TyKind::FnDef(Some(f)) => V::Fn(*f),
                TyKind::Adt(a) if a.kind != AdtKind::Union && a.variants.len() == 1 => self.build(st, ty, 0, vec![], None),
                _ => V::unit(),
            },
            CVal::Fn(Some(f)) => V::Fn(*f),
            CVal::Bytes(_) | CVal::Float(_) => V::any(),
            _ => V::any(),
        }
    }
    pub fn build(&mut self, st: &mut St, ty: TyId, var: usize, mut vals: Vec<V>, at: Option<&At>) -> V {
        let p = pg();
        if ty == p.tok && self.cfg.mode == Mode::Token {
            if var == p.ident {
                if let Some(V::KwC(k)) = vals.get(1) {
                    return V::TokC((p.tokbase[var] + *k as usize) as u32);
                }
                let ks = match vals.get(1) {
                    Some(V::Kw(s)) => st.ks(*s),
                    _ => p.idents(),
                };
                let s = st.fresh(ks, false, false);
                return V::Tok(s);
            }
            return V::TokC(p.tokbase[var] as u32);
        }
        if ty == p.kw {
            return V::KwC(var as u32);
        }
        if vals.iter().any(|v| v.has_warn()) && (p.ast[ty] || ty == p.issue) {
            let w = self.local_fn(self.cur);
            self.finding("C04", &w, &format!("stores a warning option in {}", node_name(ty, var)), "")
        }
        if p.ast[ty] {
            let mut t = Tags::new();
            for (i, v) in vals.iter().enumerate() {
                if p.path(p.adt(ty).unwrap().variants[var].fields[i].ty) == "alloc::vec::Vec" {
                    let x = self.obs.lists.entry((ty, var, i)).or_insert((0, false));
                    x.0 += 1;
                    x.1 |= !matches!(v, V::Vec(x) if x.nonempty());
                }
                v.tags(&mut t);
                if present(v) {
                    if let Some(g) = p.tag_field.get(&(ty, var, i)) {
                        t.add(*g)
                    }
                }
                if absent(v) {
                    if let Some(g) = p.tag_none.get(&(ty, var, i)) {
                        t.add(*g)
                    }
                }
            }
            t.add(p.tag_adt[&(ty, var)]);
            if at.is_some() && vals.iter().any(const_span) {
                let w = format!("C03:{} carries an invented span", node_name(ty, var));
                let id = self.dyn_tag(&w);
                t.add(id);
                self.invented.insert(id);
            }
            if at.is_some() {
                self.span_facts(ty, var, &vals)
            }
            if let Some(at) = at {
                *self.obs.agg.entry((ty, var)).or_insert(0) += 1;
                for x in self.agg_facts(at, st, ty, var, &vals) {
                    let id = self.dyn_tag(&x);
                    t.add(id)
                }
            }
            return V::Node(Rc::new(NodeV { ty, vars: vec![var as u32], tags: t }));
        }
        if Some(ty) == p.perr && !st.g.iss {
            let w = format!("C03:{} gives up without recording an Error issue", p.short(self.ctxs[self.cur].f));
            self.event(st, &w)
        }
        for v in vals.iter_mut() {
            if let V::Dead = v {
                *v = V::any()
            }
        }
        if ty == p.range && vals.len() == 2 && self.cfg.mode == Mode::Token {
            let sure = match (&vals[0], &vals[1]) {
                (V::Pos(x), V::Pos(y)) => match (x.sym, y.sym) {
                    (Some(s), Some(t)) if x.add.iter().chain(&y.add).all(|a| *a == 0) => (s == t && (x.side, y.side) == (Side::Start, Side::End)) || (s != t && st.syms[s as usize].ord && st.syms[t as usize].ord && s < t),
                    _ => false,
                },
                (V::Int(_), V::Int(_)) => matches!((vals[0].as_int(), vals[1].as_int()), (Some(x), Some(y)) if x <= y),
                _ => false,
            };
            if !sure && at.map(|a| !self.in_order(a)).unwrap_or(false) {
                vals.iter_mut().for_each(poison)
            }
        }
        if at.is_some() && !p.ast[ty] && ty != p.parser {
            self.span_facts(ty, var, &vals)
        }
        V::Adt(Rc::new(AdtV { ty, vars: vec![(var as u32, vals)] }))
    }

    // ---- statements ----

    pub fn stmt(&mut self, at: &At, fun: &Func, s: &Stmt, mut st: St, out: &mut Vec<St>) {
        match s {
            Stmt::Assign(d, r) => {
                let dty = pg().type_of_place(fun, d);
                let rs = self.rvalue(at, fun, r, st, dty);
                for (mut st, v) in rs {
                    let l = self.loc(&mut st, fun, d);
                    let mut v = v;
                    if let [.., Proj::Field(..)] = &d.proj[..] {
                        if matches!(v, V::Pos(_)) && pg().type_of_place(fun, &Place { local: d.local, proj: d.proj[..d.proj.len() - 1].to_vec() }) == pg().range && !self.in_order(at) {
                            poison(&mut v)
                        }
                    }
                    self.assign(at, &mut st, &l, v);
                    out.push(st)
                }
            }
            Stmt::SetDiscr(..) => out.push(st),
            Stmt::Live(l) => {
                st.locals.kill(*l);
                out.push(st)
            }
            Stmt::Dead(l) => {
                if self.cfg.mode == Mode::Token && !st.g.iss && fun.locals[*l].name.is_some() {
                    let v = st.locals[*l].clone();
                    if matches!(v, V::Node(_)) && !pg().info(self.ctxs[at.ctx].f).addr[*l] {
                        self.lost(at, &v, &mut st)
                    }
                }
                st.locals.kill(*l);
                out.push(st)
            }
            Stmt::Assume(_) | Stmt::Other => out.push(st),
        }
    }
    pub fn assign(&mut self, at: &At, st: &mut St, l: &Loc, v: V) {
        let v = self.warn_assign(at, st, l, v);
        st.set(l, v)
    }

    fn rvalue(&mut self, at: &At, fun: &Func, r: &Rvalue, mut st: St, dty: TyId) -> Vec<(St, V)> {
        match r {
            Rvalue::Use(o) => {
                let v = self.operand(&mut st, fun, o);
                vec![(st, v)]
            }
            Rvalue::Ref { mutable, place } | Rvalue::AddrOf { mutable, place } => {
                let l = self.loc(&mut st, fun, place);
                if l.path.iter().any(|p| matches!(p, PE::Snap)) {
                    let v = self.read(&mut st, &l);
                    if let V::Str(_) = v {
                        return vec![(st, v)];
                    }
                    return vec![(st, V::RefVal(Rc::new(v)))];
                }
                if matches!(pg().pr.types[l.ty].kind, TyKind::Str) {
                    let v = st.get(&l);
                    return vec![(st, v)];
                }
                let _ = mutable;
                vec![(st, V::Ref(Rc::new(l)))]
            }
            Rvalue::Agg(k, ops) => {
                let vals: Vec<V> = ops.iter().map(|o| self.operand(&mut st, fun, o)).collect();
                let v = match k {
                    AggKind::Array(_) => {
                        if vals.len() <= VEC_EXACT {
                            V::Vec(Rc::new(VecV { exact: Some(vals), elem: None, min: 0 }))
                        } else {
                            V::any()
                        }
                    }
                    AggKind::Tuple => {
                        self.tuple_facts(&mut st, &vals);
                        V::Tup(Rc::new(vals))
                    }
                    AggKind::Closure(_) => V::Tup(Rc::new(vals)),
                    AggKind::Adt { ty, variant, .. } => self.build(&mut st, *ty, *variant, vals, Some(at)),
                    _ => V::any(),
                };
                vec![(st, v)]
            }
            Rvalue::Bin(op, a, b) => {
                let x = self.operand(&mut st, fun, a);
                let y = self.operand(&mut st, fun, b);
                self.binop(st, op, x, y)
            }
            Rvalue::CheckedBin(op, a, b) => {
                let x = self.operand(&mut st, fun, a);
                let y = self.operand(&mut st, fun, b);
                let known = no_overflow(op, &x, &y, dty);
                self.binop(st, op, x, y).into_iter().map(|(s, v)| (s, V::Tup(Rc::new(vec![v, if known { V::bool(false) } else { V::Int(Rc::new(vec![0, 1])) }])))).collect()
            }
            Rvalue::Un(op, o) => {
                let x = self.operand(&mut st, fun, o);
                let v = match op.as_str() {
                    "Not" => match &x {
                        V::Warn => V::Warn,
                        V::Int(v) if matches!(pg().pr.types[dty].kind, TyKind::Bool) => {
                            let mut r: Vec<i128> = v.iter().map(|i| 1 - i).collect();
                            r.sort();
                            V::Int(Rc::new(r))
                        }
                        V::Lin(b, k) if *b == 1 => V::Lin(1, 1 - k),
                        _ => self.top(&mut st, dty, Tags::new()),
                    },
                    "Neg" => match &x {
                        V::Int(v) => {
                            let mut r: Vec<i128> = v.iter().map(|i| -i).collect();
                            r.sort();
                            V::Int(Rc::new(r))
                        }
                        _ => V::any(),
                    },
                    "PtrMetadata" => {
                        let v = self.deref(&mut st, &x);
                        match &v {
                            V::Vec(x) if x.exact.is_some() => V::int(x.exact.as_ref().unwrap().len() as i128),
                            _ => V::any(),
                        }
                    }
                    _ => V::any(),
                };
                vec![(st, v)]
            }
            Rvalue::Cast(k, o, _) => {
                if k == "BoxDerefTransmute" {
                    if let Operand::Copy(p) | Operand::Move(p) = o {
                        let mut p2 = p.clone();
                        if let Some(Proj::Field(0, _)) = p2.proj.last() {
                            p2.proj.pop();
                        }
                        let mut l = self.loc(&mut st, fun, &p2);
                        let to = pg().adt(l.ty).map(|a| a.args[0]).unwrap_or(l.ty);
                        l.path.push(PE::Box);
                        l.ty = to;
                        return vec![(st, V::Ref(Rc::new(l)))];
                    }
                }
                let x = self.operand(&mut st, fun, o);
                vec![(st, x)]
            }
            Rvalue::Discr(p) => {
                let l = self.loc(&mut st, fun, p);
                let v = self.read(&mut st, &l);
                let d = self.discr(&mut st, v, l);
                vec![(st, d)]
            }
            Rvalue::Len(p) => {
                let l = self.loc(&mut st, fun, p);
                let v = st.get(&l);
                let r = match &v {
                    V::Vec(x) if x.exact.is_some() => V::int(x.exact.as_ref().unwrap().len() as i128),
                    _ => V::any(),
                };
                vec![(st, r)]
            }
            Rvalue::Repeat(..) | Rvalue::ThreadLocal(_) | Rvalue::Other(_) => vec![(st, V::any())],
        }
    }
    pub fn discr(&mut self, st: &mut St, v: V, l: Loc) -> V {
        let p = pg();
        match &v {
            V::Adt(a) if a.vars.len() == 1 => match p.adt(a.ty) {
                Some(ad) => V::int(ad.variants[a.vars[0].0 as usize].discr),
                None => V::any(),
            },
            V::Node(n) if n.vars.len() == 1 => V::int(p.adt(n.ty).unwrap().variants[n.vars[0] as usize].discr),
            V::Tok(s) => V::Discr(Rc::new(DiscrOf::Tok(*s))),
            V::Kw(s) => V::Discr(Rc::new(DiscrOf::Kw(*s))),
            V::TokC(k) => V::int(p.adt(p.tok).unwrap().variants[p.kinds[*k as usize].0].discr),
            V::KwC(k) => V::int(p.adt(p.kw).unwrap().variants[*k as usize].discr),
            _ => {
                if l.path.iter().any(|p| matches!(p, PE::Elem)) {
                    return V::any();
                }
                let _ = st;
                V::Discr(Rc::new(DiscrOf::Place(l)))
            }
        }
    }
    pub fn deref(&mut self, st: &mut St, v: &V) -> V {
        match v {
            V::Ref(l) => {
                let l = (**l).clone();
                self.read(st, &l)
            }
            V::RefVal(x) => (**x).clone(),
            V::Box(x) => (**x).clone(),
            V::Any(t) => V::Any(t.clone()),
            x => x.clone(),
        }
    }

    pub fn binop(&mut self, mut st: St, op: &str, x: V, y: V) -> Vec<(St, V)> {
        let cmp = matches!(op, "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge");
        match (&x, &y) {
            (V::Warn, _) | (_, V::Warn) => vec![(st, V::Warn)],
            (V::Int(a), V::Int(b)) => {
                let mut r = BTreeSet::new();
                let mut unk = false;
                for i in a.iter() {
                    for j in b.iter() {
                        match op.trim_end_matches("Unchecked").trim_end_matches("WithOverflow") {
                            "Add" => {
                                r.insert(i + j);
                            }
                            "Sub" => {
                                r.insert(i - j);
                            }
                            "Mul" => {
                                r.insert(i.wrapping_mul(*j));
                            }
                            "Eq" => {
                                r.insert((i == j) as i128);
                            }
                            "Ne" => {
                                r.insert((i != j) as i128);
                            }
                            "Lt" => {
                                r.insert((i < j) as i128);
                            }
                            "Le" => {
                                r.insert((i <= j) as i128);
                            }
                            "Gt" => {
                                r.insert((i > j) as i128);
                            }
                            "Ge" => {
                                r.insert((i >= j) as i128);
                            }
                            "BitAnd" => {
                                r.insert(i & j);
                            }
                            "BitOr" => {
                                r.insert(i | j);
                            }
                            "BitXor" => {
                                r.insert(i ^ j);
                            }
                            _ => unk = true,
                        }
                    }
                }
                if unk || r.len() > 16 {
                    return vec![(st, V::any())];
                }
                vec![(st, V::Int(Rc::new(r.into_iter().collect())))]
            }
            (V::Discr(d), V::Int(i)) | (V::Int(i), V::Discr(d)) if matches!(op, "Eq" | "Ne") && i.len() == 1 => {
                let mut out = vec![];
                let d = (**d).clone();
                let i = i[0];
                if let Some(s) = self.refine_discr(&st, &d, &|x| x == i) {
                    out.push((s, V::bool(op == "Eq")))
                }
                if let Some(s) = self.refine_discr(&st, &d, &|x| x != i) {
                    out.push((s, V::bool(op != "Eq")))
                }
                out
            }
            (V::Discr(a), V::Discr(b)) if a == b && matches!(op, "Eq" | "Ne") => vec![(st, V::bool(op == "Eq"))],
            (V::Discr(a), V::Discr(b)) if matches!(op, "Eq" | "Ne") => {
                // compare token kinds variant-wise
                let (sa, sb) = match (&**a, &**b) {
                    (DiscrOf::Tok(s), DiscrOf::Tok(t)) | (DiscrOf::Kw(s), DiscrOf::Kw(t)) => (*s, *t),
                    _ => {
                        let s2 = st.clone();
                        return vec![(st, V::bool(true)), (s2, V::bool(false))];
                    }
                };
                let mut out = vec![];
                let both = st.ks(sa).and(&st.ks(sb));
                let mut e = st.clone();
                if matches!(&**a, DiscrOf::Kw(_)) {
                    if e.refine(sa, &both) && e.refine(sb, &both) {
                        out.push((e, V::bool(op == "Eq")))
                    }
                } else {
                    out.push((e, V::bool(op == "Eq")))
                }
                out.push((st, V::bool(op != "Eq")));
                out
            }
            (V::Lin(b, k), V::Int(i)) if i.len() == 1 && (op.starts_with("Add") || op.starts_with("Sub")) && *b != 1 => {
                let d = if op.starts_with("Add") { i[0] } else { -i[0] };
                let r = V::Lin(*b, k + d as i64);
                vec![(st, r)]
            }
            (V::Int(i), V::Lin(b, k)) if i.len() == 1 && op.starts_with("Add") && *b != 1 => {
                let r = V::Lin(*b, k + i[0] as i64);
                vec![(st, r)]
            }
            (V::Pay(p, k), V::Int(i)) if i.len() == 1 && (op.starts_with("Add") || op.starts_with("Sub")) => {
                let d = if op.starts_with("Add") { i[0] } else { -i[0] };
                let r = V::Pay(*p, k + d as i64);
                vec![(st, r)]
            }
            (V::Pos(p), V::Int(i)) if i.len() == 1 && (op.starts_with("Add") || op.starts_with("Sub")) => {
                let d = if op.starts_with("Add") { i[0] } else { -i[0] } as i64;
                let mut q = (**p).clone();
                if q.add.is_empty() {
                    q.add = vec![0]
                }
                q.add = q.add.iter().map(|a| a + d).collect();
                vec![(st, V::Pos(Rc::new(q)))]
            }
            (V::Pos(a), V::Pos(b)) if cmp && a.add.is_empty() && b.add.is_empty() => {
                let (lt, eq, gt) = match (a.sym, b.sym) {
                    (Some(s), Some(t)) if s == t || (st.syms[s as usize].ord && st.syms[t as usize].ord) => match s.cmp(&t) {
                        std::cmp::Ordering::Less => after(&st, s, a.side, t, b.side),
                        std::cmp::Ordering::Greater => {
                            let (l, e, g) = after(&st, t, b.side, s, a.side);
                            (g, e, l)
                        }
                        _ => match (a.side, b.side) {
                            (Side::Start, Side::End) => (true, may_be_eof(&st, s), false),
                            (Side::End, Side::Start) => (false, may_be_eof(&st, s), true),
                            (x, y) if x == y && x != Side::Mixed => (false, true, false),
                            _ => (true, true, true),
                        },
                    },
                    _ => (true, true, true),
                };
                let mut out: Vec<(St, V)> = vec![];
                for (may, c) in [(lt, "Lt Le Ne"), (gt, "Gt Ge Ne"), (eq, "Eq Le Ge")] {
                    let r = V::bool(c.contains(op));
                    if !may {
                        continue;
                    }
                    if out.iter().any(|(_, w)| *w == r) {
                        continue;
                    }
                    let mut t = st.clone();
                    if let ("Eq Le Ge", Some(s), Some(u), true, false) = (c, a.sym, b.sym, a.side == b.side, lt && gt) {
                        // equal only where one is the empty token at the end; write both alike
                        let first = (s < u) == (a.side == Side::Start);
                        let (from, to) = if first { (b, &x) } else { (a, &y) };
                        t.locals.iter_mut().for_each(|v| *v = v.same_pos(from, to));
                    }
                    out.push((t, r))
                }
                out
            }
            (V::Ch(c), V::Int(i)) | (V::Int(i), V::Ch(c)) if cmp && i.len() == 1 => {
                let swap = matches!(x, V::Int(_));
                let c = *c;
                let i = i[0];
                let f = move |k: i128| -> bool {
                    let (a, b) = if swap { (i, k) } else { (k, i) };
                    match op {
                        "Eq" => a == b,
                        "Ne" => a != b,
                        "Lt" => a < b,
                        "Le" => a <= b,
                        "Gt" => a > b,
                        _ => a >= b,
                    }
                };
                crate::chars::char_split(&mut st, c, &f)
            }
            _ => {
                if cmp {
                    let s2 = st.clone();
                    vec![(st, V::bool(true)), (s2, V::bool(false))]
                } else {
                    vec![(st, V::any())]
                }
            }
        }
    }
    /// restrict the discriminated value to those discriminants
    pub fn refine_discr(&mut self, st: &St, d: &DiscrOf, ok: &dyn Fn(i128) -> bool) -> Option<St> {
        let p = pg();
        match d {
            DiscrOf::Tok(s) => {
                let a = p.adt(p.tok).unwrap();
                let mut ks = KS::EMPTY;
                for (i, v) in a.variants.iter().enumerate() {
                    if ok(v.discr) {
                        ks = ks.or(&p.by_tokvar(i))
                    }
                }
                let mut st = st.clone();
                if st.refine(*s, &ks) {
                    Some(st)
                } else {
                    None
                }
            }
            DiscrOf::Kw(s) => {
                let a = p.adt(p.kw).unwrap();
                let mut ks = KS::EMPTY;
                for (i, v) in a.variants.iter().enumerate() {
                    if ok(v.discr) {
                        ks = ks.or(&p.by_kw(i))
                    }
                }
                let mut st = st.clone();
                if st.refine(*s, &ks) {
                    Some(st)
                } else {
                    None
                }
            }
            DiscrOf::Place(l) => {
                let mut st = st.clone();
                let v = st.get(l);
                match &v {
                    V::Adt(a) => {
                        let ad = p.adt(a.ty)?;
                        let vars: Vec<_> = a.vars.iter().filter(|x| ok(ad.variants[x.0 as usize].discr)).cloned().collect();
                        if vars.is_empty() {
                            return None;
                        }
                        let ty = a.ty;
                        st.set(l, V::Adt(Rc::new(AdtV { ty, vars })));
                        Some(st)
                    }
                    V::Node(n) => {
                        let ad = p.adt(n.ty)?;
                        let vars: Vec<u32> = if n.vars.is_empty() {
                            (0..ad.variants.len() as u32).filter(|i| ok(ad.variants[*i as usize].discr)).collect()
                        } else {
                            n.vars.iter().copied().filter(|i| ok(ad.variants[*i as usize].discr)).collect()
                        };
                        if vars.is_empty() {
                            return None;
                        }
                        let nn = NodeV { ty: n.ty, vars, tags: n.tags.clone() };
                        st.set(l, V::Node(Rc::new(nn)));
                        Some(st)
                    }
                    V::Any(t) => {
                        let ad = match p.adt(l.ty) {
                            Some(a) if a.kind == AdtKind::Enum => a,
                            _ => return Some(st),
                        };
                        let vars: Vec<(u32, Vec<V>)> = ad
                            .variants
                            .iter()
                            .enumerate()
                            .filter(|(_, v)| ok(v.discr))
                            .map(|(i, v)| (i as u32, v.fields.iter().map(|_| V::Any(t.clone())).collect()))
                            .collect();
                        if vars.is_empty() {
                            return None;
                        }
                        if l.ty == p.tok || l.ty == p.kw {
                            return Some(st);
                        }
                        st.set(l, V::Adt(Rc::new(AdtV { ty: l.ty, vars })));
                        Some(st)
                    }
                    V::Tok(s) => {
                        let s = *s;
                        self.refine_discr(&st, &DiscrOf::Tok(s), ok)
                    }
                    V::Kw(s) => {
                        let s = *s;
                        self.refine_discr(&st, &DiscrOf::Kw(s), ok)
                    }
                    _ => Some(st),
                }
            }
        }
    }

    // ---- terminators ----

    fn term(&mut self, at: &At, fun: &Func, t: &Term, mut st: St) {
        match t {
            Term::Goto(b) => self.enter(at.ctx, Some(at.bb), *b, st),
            Term::Switch { discr, ty, arms, otherwise } => self.switch(at, fun, discr, *ty, arms, *otherwise, st),
            Term::Return => self.exit(at.ctx, st),
            Term::Drop { place, target, .. } => {
                self.drop_hook(at, fun, place, &mut st);
                let l = self.loc(&mut st, fun, place);
                if l.path.is_empty() && matches!(l.base, Base::L(_)) {
                    *st.base_mut(l.base) = V::Dead;
                }
                self.enter(at.ctx, Some(at.bb), *target, st)
            }
            Term::Assert { cond, expected, msg, target, .. } => {
                let v = self.operand(&mut st, fun, cond);
                let may_fail = match &v {
                    V::Int(x) => x.iter().any(|i| (*i != 0) != *expected),
                    _ => true,
                };
                if may_fail {
                    self.panic(at, &format!("assertion: {}", msg), &st)
                } else {
                    self.obs.discharged += 1;
                }
                self.enter(at.ctx, Some(at.bb), *target, st)
            }
            Term::Call { callee, args, dest, target, .. } => {
                let vals: Vec<V> = args.iter().map(|a| self.operand(&mut st, fun, a)).collect();
                self.obs.calls += 1;
                match callee {
                    Callee::Fn(g) => self.call(at, fun, *g, vals, dest, *target, st),
                    Callee::Ptr(o) => {
                        let f = self.operand(&mut st, fun, o);
                        match f {
                            V::Fn(g) => self.call(at, fun, g, vals, dest, *target, st),
                            _ => {
                                *self.obs.unmodelled.entry("function pointer".into()).or_insert(0) += 1;
                                if let Some(t) = target {
                                    let ty = pg().type_of_place(fun, dest);
                                    let v = self.top(&mut st, ty, Tags::new());
                                    let l = self.loc(&mut st, fun, dest);
                                    st.set(&l, v);
                                    self.enter(at.ctx, Some(at.bb), *t, st)
                                }
                            }
                        }
                    }
                }
            }
            Term::Unreachable | Term::Resume | Term::Other(_) => {}
        }
    }
    pub fn panic(&mut self, at: &At, what: &str, st: &St) {
        // report at the nearest function of the crate
        let mut c = at.ctx;
        let mut via = String::new();
        while !pg().f(self.ctxs[c].f).local {
            via = format!(" in {}", pg().short(self.ctxs[c].f));
            match self.ctxs[c].from {
                Some(x) => c = x,
                None => break,
            }
        }
        let f = self.ctxs[c].f;
        let fi = Finding { rule: "panic", func: pg().short(f), what: format!("{}{}", what, via) };
        let d = format!("{} {}", self.where_(at), self.describe(st));
        if std::env::var("SA_PSTATE").is_ok() {
            eprintln!("PANIC {} {:?}\n{:?}\n{:?}", what, st.locals, st.cells, st.syms);
        }
        self.obs.panics.entry(fi).or_insert(d);
    }
    pub fn where_(&self, at: &At) -> String {
        let fun = pg().f(self.ctxs[at.ctx].f);
        format!("{}:{}", fun.file, fun.blocks[at.bb].line)
    }
    /// something that must not happen in a clean parse
    pub fn event(&mut self, st: &mut St, what: &str) {
        if !st.g.iss {
            let id = self.dyn_tag(what);
            st.g.bad.add(id)
        }
    }
    fn drop_hook(&mut self, at: &At, fun: &Func, p: &Place, st: &mut St) {
        if st.g.iss || self.cfg.mode != Mode::Token {
            return;
        }
        let l = self.loc(st, fun, p);
        let v = st.get(&l);
        // a name or literal whose text was looked at through a reference has been used
        if let V::Node(n) = &v {
            if leaf(n.ty) && p.proj.is_empty() && pg().info(self.ctxs[at.ctx].f).addr[p.local] {
                return;
            }
        }
        self.lost(at, &v, st)
    }
    /// the value goes out of existence here
    pub fn lost(&mut self, at: &At, v: &V, st: &mut St) {
        let mut tys = vec![];
        let mut tags = Tags::new();
        v.tags(&mut tags);
        if self.invented.iter().any(|i| tags.has(*i)) {
            return; // a stand-in, not something that was read
        }
        owned_nodes(v, &mut tys);
        tys.sort();
        tys.dedup();
        for t in tys {
            let f = self.local_fn(at.ctx);
            let mut w = format!("C19:{} discards a parsed {}", module(&f), pg().path(t));
            let r = &st.g.recent;
            if let Some(i) = r.iter().rposition(|x| x.node()).filter(|i| *i > 0 && !r[i - 1].node() && !r[i - 1].opt && r[i - 1].ks.count() <= 4) {
                w += &format!(" read after {}", pg().ks_names(&r[i - 1].ks))
            }
            self.event(st, &w)
        }
    }
    /// name of the nearest function of the crate
    fn in_order(&mut self, at: &At) -> bool {
        let f = self.ctxs[at.ctx].f;
        *self.order.entry(f).or_insert_with(|| crate::order::ordered(f)).get(&at.bb).unwrap_or(&false)
    }
    pub fn local_fn(&self, c: CtxId) -> String {
        let mut c = c;
        while !pg().f(self.ctxs[c].f).local {
            match self.ctxs[c].from {
                Some(x) => c = x,
                None => break,
            }
        }
        pg().short(self.ctxs[c].f)
    }

    fn switch(&mut self, at: &At, fun: &Func, discr: &Operand, ty: TyId, arms: &[(u128, Bb)], otherwise: Bb, mut st: St) {
        let v = self.operand(&mut st, fun, discr);
        let p = pg();
        let signed = |x: u128| -> i128 {
            match &p.pr.types[ty].kind {
                TyKind::Int { signed: true, bits } if *bits < 128 => {
                    let s = 128 - bits;
                    ((x << s) as i128) >> s
                }
                _ => x as i128,
            }
        };
        let loc = match discr {
            Operand::Copy(pl) | Operand::Move(pl) if pl.proj.is_empty() => Some(pl.local),
            _ => None,
        };
        match &v {
            V::Int(x) => {
                let mut rest: Vec<i128> = x.to_vec();
                for (a, b) in arms {
                    let a = signed(*a);
                    if let Some(i) = rest.iter().position(|y| *y == a) {
                        rest.remove(i);
                        let mut s = st.clone();
                        if let Some(l) = loc {
                            s.locals[l] = V::int(a)
                        } else if let Operand::Copy(pl) = discr {
                            let l = self.loc(&mut s, fun, pl);
                            if x.len() > 1 {
                                s.set(&l, V::int(a))
                            }
                        }
                        self.enter(at.ctx, Some(at.bb), *b, s)
                    }
                }
                if !rest.is_empty() {
                    if let Some(l) = loc {
                        st.locals[l] = V::Int(Rc::new(rest))
                    } else if let Operand::Copy(pl) = discr {
                        if x.len() > 1 {
                            let l = self.loc(&mut st, fun, pl);
                            st.set(&l, V::Int(Rc::new(rest)))
                        }
                    }
                    self.enter(at.ctx, Some(at.bb), otherwise, st)
                }
            }
            V::Discr(d) => {
                let d = (**d).clone();
                for (a, b) in arms {
                    let a = signed(*a);
                    if let Some(s) = self.refine_discr(&st, &d, &|x| x == a) {
                        self.enter(at.ctx, Some(at.bb), *b, s)
                    }
                }
                let vals: Vec<i128> = arms.iter().map(|a| signed(a.0)).collect();
                if let Some(s) = self.refine_discr(&st, &d, &|x| !vals.contains(&x)) {
                    self.enter(at.ctx, Some(at.bb), otherwise, s)
                }
            }
            V::Warn => {
                if st.g.warn.is_none() {
                    let end = p.info(self.ctxs[at.ctx].f).ipdom(fun)[at.bb].map(|b| b as u32).unwrap_or(WARN_EXIT);
                    st.g.warn = Some((at.bb as u32, end));
                    self.seen.c04_branches.insert(format!("{} of {}", at.bb, p.short(self.ctxs[at.ctx].f)));
                }
                for (_, b) in arms {
                    self.enter(at.ctx, Some(at.bb), *b, st.clone())
                }
                if !(matches!(p.pr.types[ty].kind, TyKind::Bool) && arms.len() >= 2) {
                    self.enter(at.ctx, Some(at.bb), otherwise, st)
                }
            }
            V::Ch(c) => {
                let c = *c;
                for (a, b) in arms {
                    let a = signed(*a);
                    for (s, r) in crate::chars::char_split(&mut st.clone(), c, &|x| x == a) {
                        if r.as_int() == Some(1) {
                            self.enter(at.ctx, Some(at.bb), *b, s)
                        }
                    }
                }
                let vals: Vec<i128> = arms.iter().map(|a| signed(a.0)).collect();
                for (s, r) in crate::chars::char_split(&mut st.clone(), c, &|x| !vals.contains(&x)) {
                    if r.as_int() == Some(1) {
                        self.enter(at.ctx, Some(at.bb), otherwise, s)
                    }
                }
            }
            _ => {
                for (a, b) in arms {
                    let mut s = st.clone();
                    if let (Some(l), V::Any(_)) = (loc, &v) {
                        s.locals[l] = V::int(signed(*a))
                    }
                    self.enter(at.ctx, Some(at.bb), *b, s)
                }
                let full = matches!(p.pr.types[ty].kind, TyKind::Bool) && arms.len() >= 2;
                if !full {
                    if let (Some(l), TyKind::Bool) = (loc, &p.pr.types[ty].kind) {
                        if arms.len() == 1 && matches!(v, V::Any(_)) {
                            st.locals[l] = V::int(1 - arms[0].0 as i128)
                        }
                    }
                    self.enter(at.ctx, Some(at.bb), otherwise, st)
                }
            }
        }
    }

    // ---- calls ----

    pub fn finish(&mut self, at: &At, fun: &Func, mut st: St, dest: &Place, target: Option<Bb>, v: V) {
        if let Some(t) = target {
            let l = self.loc(&mut st, fun, dest);
            self.assign(at, &mut st, &l, v);
            self.enter(at.ctx, Some(at.bb), t, st)
        }
    }

    fn call(&mut self, at: &At, fun: &Func, g: FnId, mut vals: Vec<V>, dest: &Place, target: Option<Bb>, mut st: St) {
        let gf = pg().f(g);
        if self.cfg.delim.is_some() {
            if !self.pin(&mut st) {
                return;
            }
            self.confined_call(g, &vals, &mut st)
        }
        self.warn_call(at, fun, g, &vals, &st);
        if let Some(rs) = self.model(at, fun, g, &vals, dest, &st) {
            let tainted = !gf.local && vals.iter().any(|v| self.deref(&mut st.clone(), v).has_warn() && !matches!(v, V::Tup(_)));
            for (s, v) in rs {
                let v = match &pg().pr.types[pg().type_of_place(fun, dest)].kind {
                    TyKind::Bool if tainted => V::Warn,
                    _ => v,
                };
                if tainted && !v.has_warn() {
                    let w = self.local_fn(at.ctx);
                    self.finding("C04", &w, &format!("hands a warning option to {}", gf.path), &self.where_(at))
                }
                self.finish(at, fun, s, dest, target, v)
            }
            return;
        }
        if let Some((ty, variant)) = constructor(gf) {
            // as if it were written out here
            if vals.len() == gf.argc {
                let v = self.build(&mut st, ty, variant, vals, Some(at));
                return self.finish(at, fun, st, dest, target, v);
            }
        }
        if gf.has_body && !gf.blocks.is_empty() {
            // closures are called with their arguments in a tuple
            if vals.len() + 0 != gf.argc || gf.is_closure {
                if let Some(V::Tup(t)) = vals.last().cloned() {
                    if vals.len() == 2 && gf.argc == 1 + t.len() && (gf.is_closure || gf.argc != 2) {
                        vals.pop();
                        vals.extend(t.iter().cloned());
                    }
                }
            }
            if vals.len() == gf.argc {
                self.call_body(at, fun, g, vals, dest, target, st);
                return;
            }
        }
        self.havoc(at, fun, g, vals, dest, target, st)
    }
    pub fn havoc(&mut self, at: &At, fun: &Func, g: FnId, vals: Vec<V>, dest: &Place, target: Option<Bb>, mut st: St) {
        let gf = pg().f(g);
        *self.obs.unmodelled.entry(gf.path.clone()).or_insert(0) += 1;
        let mut t = Tags::new();
        for (i, v) in vals.iter().enumerate() {
            v.tags(&mut t);
            if let V::Ref(l) = v {
                let content = st.get(l);
                content.tags(&mut t);
                let mutable = gf.inputs.get(i).map(|x| matches!(pg().pr.types[*x].kind, TyKind::Ref { mutable: true, .. })).unwrap_or(false);
                if mutable && ![pg().parser, pg().lexer, pg().issues].contains(&l.ty) {
                    let mut tt = Tags::new();
                    content.tags(&mut tt);
                    let nv = self.top(&mut st, l.ty, tt);
                    let l = (**l).clone();
                    st.set(&l, nv)
                }
            }
        }
        let ty = pg().type_of_place(fun, dest);
        let v = self.top(&mut st, ty, t);
        self.finish(at, fun, st, dest, target, v)
    }

    fn call_body(&mut self, at: &At, fun: &Func, g: FnId, vals: Vec<V>, dest: &Place, target: Option<Bb>, mut st: St) {
        let p = pg();
        let gf = p.f(g);
        let tok0 = cur_token(&st);
        // --- copy in
        let taken = match vals.first() {
            Some(V::Ref(l)) if gf.trait_item.as_deref() == Some("core::iter::Iterator::next") && finite_iter(gf) => Some((**l).clone()),
            _ => None,
        };
        let mut locs: Vec<Loc> = vec![];
        let mut cells: Vec<V> = vec![];
        let mut args: Vec<V> = vec![];
        for v in &vals {
            let a = self.copy_in(&mut st, v, &mut locs, &mut cells);
            args.push(a)
        }
        if self.cfg.mode == Mode::Token && !st.g.iss && gf.local && cells.iter().any(|c| loses_token(&st, c)) {
            let w = self.local_fn(at.ctx);
            self.event(&mut st, &format!("C03:{} goes on with another token than the one read last", module(&w)))
        }
        let orig_cells = cells.clone();
        // symbols in use, in order
        let mut used: Vec<Sym> = vec![];
        for v in args.iter().chain(cells.iter()) {
            v.each_sym(&mut |s| used.push(s))
        }
        used.sort();
        used.dedup();
        let mut m: HashMap<Sym, Sym> = HashMap::new();
        let mut syms = vec![];
        for (i, s) in used.iter().enumerate() {
            m.insert(*s, i as Sym);
            syms.push(st.syms[*s as usize])
        }
        let limit = if p.kindless[g] { 0 } else { WIDE };
        let wide = |ks: &KS| -> KS {
            if ks.count() > limit {
                let w = if ks.has(p.start) { p.all() } else { p.full() };
                if limit > 0 && w.minus(ks).count() == 1 {
                    return *ks;
                }
                // whether a statement list goes on matters while data may follow
                match self.cfg.delim {
                    Some(d) if !ks.has(d) => w.minus(&KS::one(d)),
                    None if st.g.copy > 0 && !ks.has(p.semi) => w.minus(&KS::one(p.semi)),
                    _ => w,
                }
            } else {
                *ks
            }
        };
        if self.cfg.mode == Mode::Token {
            // tokens held apart from the parser: a few sets of kinds per function are told apart
            let mut of_parser = vec![];
            for c in &cells {
                if !matches!(c, V::Tok(_)) {
                    c.each_sym(&mut |s| of_parser.push(s))
                }
            }
            for (i, s) in syms.iter_mut().enumerate() {
                if limit > 0 && s.ks.count() > limit && !of_parser.contains(&used[i]) {
                    let l = self.apart.entry(g).or_default();
                    if l.contains(&s.ks) {
                        continue;
                    }
                    if l.len() < 6 {
                        l.push(s.ks);
                        continue;
                    }
                }
                s.ks = wide(&s.ks)
            }
        }
        // tags -> parameters
        let mut params: Vec<Tags> = vec![];
        let invented = &self.invented;
        let mut abs = |v: &V| -> V {
            let mut t = Tags::new();
            v.tags(&mut t);
            if t.is_empty() {
                return v.clone();
            }
            let i = params.len().min(NPARAM - 1);
            if params.len() < NPARAM {
                params.push(t)
            } else {
                params[i].union(&t)
            }
            v.map_tags(&|t| {
                let mut r = Tags::one(i);
                invented.iter().filter(|x| t.has(**x)).for_each(|x| r.add(*x));
                r
            })
        };
        let wp = |v: V| if self.cfg.mode == Mode::Token { v.widen_pos(&wide).widen_elems(p) } else { v };
        let args: Vec<V> = args.iter().map(|v| wp(abs(v).map_sym(&|s| m[&s]))).collect();
        let mut cells: Vec<V> = cells.iter().map(|v| wp(abs(v).map_sym(&|s| m[&s]))).collect();
        let mut k = syms.len();
        // polymorphic modes
        let mut poly: Vec<(u32, usize, V)> = vec![];
        for (ci, c) in cells.iter_mut().enumerate() {
            if let V::Adt(a) = c {
                if a.ty == p.parser {
                    let a = Rc::make_mut(a);
                    let fl = &p.adt(a.ty).unwrap().variants[0].fields;
                    for (i, f) in fl.iter().enumerate() {
                        let old = orig_cells[ci].clone();
                        let ov = match &old {
                            V::Adt(o) => o.vars[0].1[i].clone(),
                            _ => V::any(),
                        };
                        let _ = f;
                        match p.roles[i] {
                            "delimiter" if self.cfg.delim.is_some() => {
                                // lists of statements inside statements have their own
                                let k = match &ov {
                                    V::TokC(k) if st.g.conf & CONF == 0 => *k,
                                    _ => self.cfg.delim.unwrap() as u32,
                                };
                                a.vars[0].1[i] = V::TokC(k)
                            }
                            "outer" if self.cfg.delim.is_some() => a.vars[0].1[i] = V::TokC(self.cfg.delim.unwrap() as u32),
                            "delimiter" | "outer" => {
                                let s = syms.len() as Sym;
                                let eof = KS::one(p.eof);
                                let may = match &ov {
                                    V::Tok(t) => !st.ks(*t).and(&eof).empty(),
                                    V::TokC(c) => *c as usize == p.eof,
                                    _ => true,
                                };
                                syms.push(SymInfo { ks: if may { p.full() } else { p.full().minus(&eof) }, chr: false, ord: false });
                                k += 1;
                                a.vars[0].1[i] = V::Tok(s);
                                poly.push((s, i, ov));
                            }
                            "arg" => {
                                self.counter_at_call(&ov, g);
                                a.vars[0].1[i] = V::Lin(0, 0)
                            }
                            "permit_compound_statements" => a.vars[0].1[i] = V::Lin(1, 0),
                            _ => {}
                        }
                    }
                }
            }
        }
        let mut locals = Locals::default();
        for (i, a) in args.into_iter().enumerate() {
            locals[i + 1] = a
        }
        let entry = St { locals, cells: cells.clone(), syms, k: k as u32, g: Ghost { copy: if st.g.iss { 0 } else { st.g.copy }, trace: vec![], nest: crate::nest::Nest { on: self.cfg.nest && !st.g.iss && cells.iter().any(|c| matches!(c, V::Adt(a) if a.ty == p.parser)), ..Default::default() }, ..Default::default() } };
        let mut entry = entry;
        let tracked = st.g.conf & CONF != 0 && !one_statement(gf.output);
        entry.g.conf = if tracked { st.g.conf } else if p.returns_tree(g) { 0 } else { st.g.conf & QUOTE };
        entry.g.warn = st.g.warn.map(|_| (WARN_OUTER, WARN_OUTER));
        let mut lit = false;
        entry.cells.iter().for_each(|c| lit |= matches!(c, V::Str(s) if s.lit.is_some()));
        if lit {
            let gone = !matches!(st.g.lits.last(), Some(V::Tok(s)) if m.contains_key(s));
            entry.g.lits = st.g.lits.iter().filter(|_| !gone).filter(|v| matches!(v, V::Tok(s) if m.contains_key(s))).map(|v| v.map_sym(&|s| m[&s])).collect()
        }
        entry.g.eqs = st.g.eqs.iter().filter_map(|(a, b)| Some((*m.get(a)?, *m.get(b)?))).collect();
        entry.compact();
        norm_issues(&mut entry);
        let cid = self.ctx_for(g, entry.clone(), Some(at.ctx));
        self.ctxs[cid].deps.insert((at.ctx, at.bb, at.key));
        let moved = st.g.adv || (st.g.peek0 && !peeked(&st)) || (st.g.ne0 && at_end(&st).1);
        let me = at.ctx;
        self.ctxs[me].callees.insert(cid);
        if !moved {
            self.ctxs[me].left.insert(cid);
        }
        // --- results
        let exits: Vec<St> = self.ctxs[cid].exits.iter().map(|e| e.1.clone()).collect();
        'exit: for ex in exits {
            let mut s = st.clone();
            let mut back: Vec<Sym> = vec![];
            for i in 0..ex.syms.len() {
                if i < used.len() {
                    if !s.refine(used[i], &ex.syms[i].ks) {
                        continue 'exit;
                    }
                    back.push(used[i]);
                } else if let Some((_, _, ov)) = poly.iter().find(|q| q.0 as usize == i) {
                    match ov {
                        V::Tok(t) => back.push(*t),
                        V::TokC(kk) => {
                            let ks = KS::one(*kk as usize);
                            if !ex.syms[i].ks.and(&ks).empty() || true {
                                let n = s.fresh(ks, false, false);
                                back.push(n)
                            }
                        }
                        _ => {
                            let n = s.fresh(ex.syms[i].ks, false, false);
                            back.push(n)
                        }
                    }
                } else {
                    let inf = ex.syms[i];
                    s.syms.push(inf);
                    back.push((s.syms.len() - 1) as Sym);
                }
            }
            let params = &params;
            let conv = |v: &V| -> V {
                let v = v.map_sym(&|x| back[x as usize]);
                let v = v.map_tags(&|t| {
                    let mut r = Tags::new();
                    for i in t.iter() {
                        if i < NPARAM {
                            if let Some(x) = params.get(i) {
                                r.union(x)
                            }
                        } else {
                            r.add(i)
                        }
                    }
                    r
                });
                v.map_ref(&mut |l| match l.base {
                    Base::C(i) => {
                        let mut n = locs[i as usize].clone();
                        n.path.extend(l.path.iter().cloned());
                        n.ty = l.ty;
                        V::Ref(Rc::new(n))
                    }
                    _ => V::any(),
                })
            };
            if ex.g.built {
                s.g.built = true;
                s.map_vals(&|v| v.map_lin(&|_| V::any(), false))
            }
            let (mut recent, cut) = (std::mem::take(&mut s.g.recent), s.g.cut);
            let lits = s.g.lits.clone();
            let mut nest = s.g.nest.clone();
            for i in 0..ex.cells.len() {
                if ex.cells[i] == entry.cells[i] {
                    continue;
                }
                let l = locs[i].clone();
                self.write_back(&mut s, &l, &entry.cells[i], &ex.cells[i], &orig_cells[i], &conv);
            }
            let moved = ex.g.adv || ex.cells != entry.cells;
            if moved {
                if p.returns_tree(g) || !ex.g.adv {
                    recent.push(Rec::NODE)
                } else if ex.g.cut {
                    recent.push(Rec { ks: p.full(), opt: false });
                    recent.extend(ex.g.recent.iter().cloned())
                } else if let Some(k) = ex.g.recent.first() {
                    recent.push(match &tok0 {
                        Some(V::Tok(t)) if !k.opt && *k != Rec::NODE => Rec { ks: s.ks(*t).and(&k.ks), opt: false },
                        Some(V::TokC(t)) if !k.opt && *k != Rec::NODE => Rec { ks: KS::one(*t as usize), opt: false },
                        _ => *k,
                    });
                    recent.extend(ex.g.recent[1..].iter().cloned())
                }
            }
            s.g.lits = lits;
            if nest.on && !s.g.iss {
                let k = match &tok0 {
                    Some(V::Tok(t)) => s.ks(*t),
                    Some(V::TokC(t)) => KS::one(*t as usize),
                    _ => p.full(),
                };
                nest.called(&ex.g.nest, k)
            }
            s.g.nest = nest;
            let mut single = false;
            if moved {
                let one = ex.g.adv && !ex.g.cut && !p.returns_tree(g) && ex.g.recent.len() == 1 && !ex.g.recent[0].opt && ex.g.recent[0] != Rec::NODE;
                single = one;
                match (&tok0, one) {
                    (Some(t), true) => s.literal(t),
                    _ => s.g.lits.clear(),
                }
            }
            s.g.recent = recent;
            s.g.cut = cut;
            trim(&mut s.g);
            let rv = conv(&ex.locals[0]);
            let rv = match rv {
                V::Lin(b, kk) => self.lin_back(b, kk, &orig_cells),
                x => x,
            };
            if ex.g.adv {
                s.g.adv = true;
                for l in s.g.loops.iter_mut() {
                    l.adv = true
                }
            }
            if taken.is_some() && matches!(&rv, V::Adt(a) if a.vars.len() == 1 && a.vars[0].0 == 1) {
                // one element more of something finite
                self.dec(at, &mut s, taken.as_ref(), 1, true)
            }
            s.g.conf = if tracked {
                ex.g.conf
            } else if p.returns_tree(g) {
                s.g.conf
            } else {
                s.g.conf & !QUOTE | ex.g.conf & QUOTE
            };
            if let (Some(t), true, Some(d)) = (&tok0, single, self.cfg.delim) {
                self.confined_single(me, t, d, &s)
            }
            if let (Some(t), true, Some(d)) = (&tok0, single && (ex.g.conf ^ entry.g.conf) & QUOTE == 0, self.cfg.delim) {
                self.quote(t, d, &mut s)
            }
            s.g.copy = ex.g.copy;
            if ex.g.iss {
                s.g.iss = true;
                s.g.nest.reset();
                s.g.copy = 0;
                s.g.bad = Tags::new()
            } else if !s.g.iss {
                s.g.bad.union(&ex.g.bad)
            }
            if self.cfg.mode == Mode::Token {
                if let Some(t) = ex.g.trace.last() {
                    s.g.trace = vec![conv(t)]
                }
            } else {
                for t in &ex.g.trace {
                    let v = conv(t);
                    s.g.trace.push(v)
                }
            }
            if let (Some(t0), true) = (&tok0, self.cfg.delim.is_some() && p.kindless[g] && !p.kindless[self.ctxs[me].f]) {
                self.confined_read(me, t0, &mut s)
            }
            if let (Some(t0), true) = (&tok0, self.cfg.mode == Mode::Token && !s.g.iss && p.kindless[g] && !p.kindless[self.ctxs[me].f]) {
                let t1 = cur_token(&s);
                if let (V::Tok(x), true) = (t0, t1.as_ref() != Some(t0)) {
                    let ks = s.ks(*x);
                    let id = ks.and(&p.idents()).count();
                    if id > 100 && ks.count() - id > 10 && !held(&s, *x) {
                        let rest = p.full().minus(&ks);
                        let but = if rest.count() <= 6 { format!(" that is none of {}", p.ks_names(&rest)) } else { String::new() };
                        let w = format!("C03:{} skips any token{}", module(&self.local_fn(me)), but);
                        self.event(&mut s, &w)
                    }
                }
            }
            if st.g.conf & CONF != 0 && !tracked {
                for (v, some) in statement_or_not(&rv, gf.output) {
                    let mut s = s.clone();
                    s.g.conf = st.g.conf & !QUOTE;
                    if some || ex.g.adv {
                        self.confined_statement(g, &st);
                        s.g.conf = s.g.conf & !(SEP | OWED | HELD) | if some { OWED | HELD } else { 0 }
                    }
                    self.finish(at, fun, s, dest, target, v)
                }
                continue 'exit;
            }
            self.finish(at, fun, s, dest, target, rv)
        }
    }
    fn lin_back(&self, b: u32, k: i64, cells: &[V]) -> V {
        for c in cells {
            if let V::Adt(a) = c {
                if a.ty == pg().parser {
                    let name = if b == 0 { "arg" } else { "permit_compound_statements" };
                    let i = pg().adt(a.ty).unwrap().variants[0].fields.iter().enumerate().position(|(i, _)| pg().roles[i] == name);
                    if let Some(i) = i {
                        return lin_add(&a.vars[0].1[i], b, k);
                    }
                }
            }
        }
        V::any()
    }
    fn write_back(&mut self, s: &mut St, l: &Loc, old: &V, new: &V, orig: &V, conv: &dyn Fn(&V) -> V) {
        if let (V::Adt(a), V::Adt(b), V::Adt(o)) = (old, new, orig) {
            if a.ty == b.ty && a.vars.len() == 1 && b.vars.len() == 1 && o.vars.len() == 1 && a.vars[0].0 == 0 && b.vars[0].0 == 0 && !pg().is_enum(a.ty) {
                for i in 0..b.vars[0].1.len() {
                    let (x, y) = (&a.vars[0].1[i], &b.vars[0].1[i]);
                    if x != y {
                        let mut l2 = l.clone();
                        l2.path.push(PE::Field(i as u32));
                        l2.ty = pg().adt(a.ty).unwrap().variants[0].fields[i].ty;
                        if let (V::Lin(b1, k1), V::Lin(b2, k2)) = (x, y) {
                            if b1 == b2 && *k1 == 0 {
                                let nv = lin_add(&o.vars[0].1[i], *b1, *k2);
                                s.set(&l2, nv);
                                continue;
                            }
                        }
                        self.write_back(s, &l2, x, y, &o.vars[0].1[i], conv)
                    }
                }
                return;
            }
        }
        let v = conv(new);
        let v = match v {
            V::Lin(..) => V::any(),
            x => x,
        };
        s.set(l, v)
    }
    fn copy_in(&mut self, st: &mut St, v: &V, locs: &mut Vec<Loc>, cells: &mut Vec<V>) -> V {
        if !v.has_refs() {
            return v.clone();
        }
        // map_ref with recursion into the referents
        let mut pend: Vec<usize> = vec![];
        let r = v.map_ref(&mut |l| {
            let i = match locs.iter().position(|x| x.base == l.base && x.path == l.path) {
                Some(i) => i,
                None => {
                    locs.push(l.clone());
                    cells.push(V::Dead);
                    pend.push(locs.len() - 1);
                    locs.len() - 1
                }
            };
            V::Ref(Rc::new(Loc { base: Base::C(i as u32), path: vec![], ty: l.ty }))
        });
        for i in pend {
            let l = locs[i].clone();
            let c = self.read(st, &l);
            let c = if matches!(c, V::Dead) { V::any() } else { c };
            let c2 = self.copy_in(st, &c, locs, cells);
            cells[i] = c2;
        }
        r
    }
}

pub const WARN_OUTER: u32 = u32::MAX;
pub const WARN_EXIT: u32 = u32::MAX - 1;

impl Eng {
    /// something other than a warning depends on an option that may only change the warnings
    fn warned(&mut self, at: &At, what: &str) {
        let w = self.local_fn(at.ctx);
        let d = self.where_(at);
        self.finding("C04", &w, &format!("{} depending on a warning option", what), &d)
    }
    /// is the local of value after the branch is over
    fn outlives(&self, at: &At, l: usize, (sw, end): (u32, u32)) -> bool {
        let f = self.ctxs[at.ctx].f;
        let p = pg();
        let info = p.info(f);
        if end == WARN_EXIT {
            return l == 0;
        }
        if info.live_in[end as usize][l] {
            return true;
        }
        if !info.addr[l] {
            return false;
        }
        // a reference taken before or after the branch
        let fun = p.f(f);
        let mut region = vec![false; fun.blocks.len()];
        let mut todo: Vec<Bb> = info.succs[sw as usize].clone();
        while let Some(b) = todo.pop() {
            if b as u32 != end && !region[b] {
                region[b] = true;
                todo.extend(info.succs[b].iter().copied())
            }
        }
        fun.blocks.iter().enumerate().any(|(b, blk)| !region[b] && !blk.cleanup && blk.stmts.iter().any(|(s, _)| matches!(s, Stmt::Assign(_, Rvalue::Ref { place, .. } | Rvalue::AddrOf { place, .. }) if place.local == l)))
    }
    /// state that outlives every call: the parser, its tokenizer, the issues
    fn lasting(&self, st: &St, l: &Loc) -> bool {
        let p = pg();
        matches!(st.base(l.base), V::Adt(a) if [p.parser, p.lexer, p.issues, p.opts].contains(&a.ty)) || [p.parser, p.lexer].contains(&l.ty)
    }
    /// the value a place gets where control depends on a warning option
    fn warn_assign(&mut self, at: &At, st: &mut St, l: &Loc, v: V) -> V {
        let w = match st.g.warn {
            Some(w) => w,
            None => return v,
        };
        let p = pg();
        if let Base::C(_) = l.base {
            if self.lasting(st, l) {
                self.warned(at, &format!("gives parser state of type {} a new value", p.tyname(l.ty)))
            } else if w.1 != WARN_OUTER {
                self.warned(at, &format!("gives a value of type {} of the caller a new value", p.tyname(l.ty)))
            }
            return v;
        }
        if w.1 == WARN_OUTER {
            return v;
        }
        if let Base::L(i) = l.base {
            if self.outlives(at, i as usize, w) {
                if matches!(p.pr.types[l.ty].kind, TyKind::Bool) {
                    return V::Warn;
                }
                if v != V::unit() {
                    self.warned(at, &format!("computes a value of type {}", p.tyname(l.ty)))
                }
            }
        }
        v
    }
    /// a call where control depends on a warning option
    fn warn_call(&mut self, at: &At, fun: &Func, g: FnId, vals: &[V], st: &St) {
        let w = match st.g.warn {
            Some(w) => w,
            None => return,
        };
        let _ = fun;
        let p = pg();
        let gf = p.f(g);
        if gf.local && gf.path.starts_with("lexer::Lexer") {
            self.warned(at, "reads on in the text");
            return;
        }
        for (i, v) in vals.iter().enumerate() {
            let mutable = gf.inputs.get(i).map(|x| matches!(p.pr.types[*x].kind, TyKind::Ref { mutable: true, .. })).unwrap_or(false);
            let l = match v {
                V::Ref(l) if mutable => l,
                _ => continue,
            };
            if self.lasting(st, l) {
                // a method of the crate is looked into; the list of issues only grows (C17)
                let list = p.path(l.ty) == "alloc::vec::Vec" && elem_ty(l.ty) == p.issue || matches!(p.pr.types[l.ty].kind, TyKind::Slice(t) if t == p.issue) || l.ty == p.issue;
                if !gf.local && !list {
                    self.warned(at, &format!("calls {} on parser state of type {}", gf.path, p.tyname(l.ty)))
                }
                continue;
            }
            if gf.path == "issue::IssueHandle::<'a, 'b>::frag" {
                self.warned(at, "adds to an issue");
                continue;
            }
            if w.1 == WARN_OUTER {
                continue;
            }
            let out = match l.base {
                Base::C(_) => true,
                Base::L(i) => self.outlives(at, i as usize, w),
            };
            if out {
                self.warned(at, &format!("lets {} change a value of type {}", gf.path, p.tyname(l.ty)))
            }
        }
    }
}

/// can the checked operation be shown not to overflow?
fn no_overflow(op: &str, x: &V, y: &V, dty: TyId) -> bool {
    let p = pg();
    let (bits, signed) = match &p.pr.types[dty].kind {
        TyKind::Tuple(t) => match t.first().map(|t| &p.pr.types[*t].kind) {
            Some(TyKind::Int { bits, signed }) => (*bits as u32, *signed),
            _ => return false,
        },
        _ => return false,
    };
    let small = |v: &V| matches!(v, V::Int(i) if i.iter().all(|i| *i >= 0 && *i <= 1 << 16));
    // 64-bit counters and positions do not overflow by adding small constants
    if op.starts_with("Add") && bits >= 64 && (small(x) || small(y)) {
        return true;
    }
    // the lexer yields argument numbers of at least 1 (an obligation checked on the lexer)
    if op.starts_with("Sub") && matches!((x, y), (V::Pay(_, 0), V::Int(i)) if i.len() == 1 && i[0] == 1) {
        return true;
    }
    let (lo, hi): (i128, i128) = if signed { (-(1i128 << (bits - 1).min(126)), (1i128 << (bits - 1).min(126)) - 1) } else { (0, (1i128 << bits.min(126)) - 1) };
    if let (V::Int(a), V::Int(b)) = (x, y) {
        return a.iter().all(|i| {
            b.iter().all(|j| {
                let r = match op.trim_end_matches("Unchecked").trim_end_matches("WithOverflow") {
                    "Add" => i.checked_add(*j),
                    "Sub" => i.checked_sub(*j),
                    "Mul" => i.checked_mul(*j),
                    _ => None,
                };
                matches!(r, Some(r) if r >= lo && r <= hi)
            })
        });
    }
    false
}

fn lin_add(v: &V, b: u32, k: i64) -> V {
    if k == 0 {
        return v.clone();
    }
    if b == 1 {
        // negation of a flag
        return match v {
            V::Lin(1, q) => V::Lin(1, 1 - q),
            V::Int(x) => V::Int(Rc::new(x.iter().rev().map(|i| 1 - i).collect())),
            _ => V::Int(Rc::new(vec![0, 1])),
        };
    }
    match v {
        V::Lin(b2, q) => V::Lin(*b2, q + k),
        V::Int(x) => V::Int(Rc::new(x.iter().map(|i| i + k as i128).collect())),
        _ => V::any(),
    }
}

/// the issue list is not tracked across calls
fn norm_issues(st: &mut St) {
    let p = pg();
    let iv = p.adt(p.issues).unwrap().variants[0].fields.iter().position(|f| p.path(f.ty) == "alloc::vec::Vec");
    for c in st.cells.iter_mut() {
        if let (V::Adt(a), Some(i)) = (&mut *c, iv) {
            if a.ty == p.issues && a.vars.len() == 1 {
                let want = V::Vec(Rc::new(VecV { exact: None, elem: Some(V::any()), min: 0 }));
                if a.vars[0].1[i] != want {
                    Rc::make_mut(a).vars[0].1[i] = want
                }
            }
        }
    }
}
/// the parser's current token
pub fn cur_token(st: &St) -> Option<V> {
    let p = pg();
    for v in st.cells.iter().chain(st.locals.iter()) {
        if let V::Adt(a) = v {
            if a.ty == p.parser && a.vars.len() == 1 {
                let i = p.token_field?;
                return a.vars[0].1.get(i).cloned();
            }
        }
    }
    None
}
/// does the parser surely not keep the token that was read last?
pub fn loses_token(st: &St, v: &V) -> bool {
    let p = pg();
    let a = match v {
        V::Adt(a) if a.ty == p.parser && a.vars.len() == 1 => a,
        _ => return false,
    };
    let (mut tok, mut last, mut ahead) = (None, None, false);
    for (i, f) in a.vars[0].1.iter().enumerate() {
        match f {
            V::Tok(s) if p.token_field == Some(i) => tok = Some(*s),
            V::Lexer(s) => last = Some(*s),
            V::Adt(o) if p.path(o.ty) == "core::option::Option" => ahead |= o.vars.iter().any(|x| x.0 == 1),
            _ => {}
        }
    }
    match (tok, last) {
        (Some(t), Some(l)) => !ahead && t != l && !st.known_same(t, l) && st.syms[t as usize].ord && st.syms[l as usize].ord && !st.ks(l).has(p.start) && st.ks(l).single() != Some(p.eof),
        _ => false,
    }
}
/// is the current token certainly not / certainly the end of input?
pub fn at_end(st: &St) -> (bool, bool) {
    match cur_token(st) {
        Some(V::Tok(s)) => {
            let k = st.ks(s);
            (!k.has(pg().eof), k.single() == Some(pg().eof))
        }
        _ => (false, false),
    }
}
/// is the token still stored somewhere (so that it can be examined later)?
fn held(st: &St, x: Sym) -> bool {
    let mut r = false;
    for v in st.cells.iter().chain(st.locals.iter()) {
        v.each_occ(&mut |s, tok| r |= tok && st.known_same(s, x))
    }
    r
}
/// a tree node made of text and spans only
pub fn leaf(ty: TyId) -> bool {
    let p = pg();
    p.adt(ty).map(|a| a.kind == AdtKind::Struct && a.variants[0].fields.iter().all(|f| !p.ast[f.ty] && p.path(f.ty) != "alloc::vec::Vec")).unwrap_or(false)
}
/// types of the tree nodes a value owns
/// the module of a function
pub fn module(f: &str) -> &str {
    f.trim_start_matches('<').split("::").next().unwrap_or(f)
}
/// a span that is a constant
fn may_be_eof(st: &St, s: Sym) -> bool {
    !st.syms[s as usize].ks.and(&KS::one(pg().eof)).empty()
}
/// can a position of one token be less than, equal to, greater than one of a later token
fn after(st: &St, s: Sym, a: Side, t: Sym, b: Side) -> (bool, bool, bool) {
    match (a, b) {
        (Side::Start, Side::Start) | (Side::Start, Side::End) => (true, may_be_eof(st, s), false),
        (Side::End, Side::End) => (true, may_be_eof(st, t), false),
        (Side::End, Side::Start) => (true, true, false),
        _ => (true, true, true),
    }
}
/// no longer known to be the start or the end of a token
fn poison(v: &mut V) {
    if let V::Pos(p) = v {
        let mut q = (**p).clone();
        q.side = Side::Mixed;
        q.sym = None;
        *v = V::Pos(Rc::new(q))
    }
}
fn const_span(v: &V) -> bool {
    match v {
        V::Adt(a) if a.ty == pg().range => a.vars.len() == 1 && a.vars[0].1.iter().all(|x| matches!(x, V::Int(_))),
        V::Adt(a) if pg().path(a.ty) == "core::option::Option" => a.vars.iter().any(|x| x.1.iter().any(const_span)),
        V::Tup(t) => t.iter().any(const_span),
        _ => false,
    }
}
pub fn owned_nodes(v: &V, out: &mut Vec<TyId>) {
    match v {
        V::Node(n) => {
            let a = pg().adt(n.ty).unwrap();
            if n.vars.is_empty() || n.vars.iter().any(|i| a.variants[*i as usize].name != "Invalid") {
                out.push(n.ty)
            }
        }
        V::Adt(a) => a.vars.iter().for_each(|x| x.1.iter().for_each(|v| owned_nodes(v, out))),
        V::Tup(x) => x.iter().for_each(|v| owned_nodes(v, out)),
        V::Box(x) => owned_nodes(x, out),
        V::Vec(x) => {
            x.exact.iter().for_each(|e| e.iter().for_each(|v| owned_nodes(v, out)));
            x.elem.iter().for_each(|v| owned_nodes(v, out))
        }
        _ => {}
    }
}
pub fn elem_ty(t: TyId) -> TyId {
    match &pg().pr.types[t].kind {
        TyKind::Slice(t) | TyKind::Array(t, _) => *t,
        TyKind::Ref { to, .. } => elem_ty(*to),
        TyKind::Adt(a) if a.path == "alloc::vec::Vec" => a.args[0],
        _ => t,
    }
}
pub fn line_of(f: &Func, bb: Bb) -> usize {
    f.blocks[bb].stmts.first().map(|s| s.1).unwrap_or(f.blocks[bb].line)
}
/// is a token buffered by look-ahead in some parser in the state?
pub fn peeked(st: &St) -> bool {
    for v in st.cells.iter().chain(st.locals.iter()) {
        if let V::Adt(a) = v {
            if a.ty == pg().parser && !a.vars.is_empty() {
                for (i, f) in pg().adt(a.ty).unwrap().variants[0].fields.iter().enumerate() {
                    if pg().path(f.ty) == "core::option::Option" {
                        if let Some(V::Adt(o)) = a.vars[0].1.get(i) {
                            if o.vars.len() == 1 && o.vars[0].0 == 1 {
                                return true;
                            }
                        }
                    }
                }
            }
        }
    }
    false
}

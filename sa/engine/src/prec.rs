//! How binary and unary operators are grouped.
//!
//! Abstract interpretation of the function that keeps the operator stack, over the kinds of the
//! stack's members: what lies on the stack below what is known is any sequence that was pushed.
//! Each time an operator is pushed, a postfix predicate takes its operand, or the finished
//! expression is returned, the operators folded so far and the one left standing are compared
//! with the reviewed order of precedence.
use crate::prog::*;
use ir::*;
use serde::Serialize;
use std::collections::{BTreeMap, BTreeSet};

const NOTHING: u8 = 1;
const EXPR: u8 = 2;
const BIN: u8 = 4;
const UN: u8 = 8;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum P {
    U,
    Int(i128),
    AtLeast(i128),
    /// operator, and where on the stack it came from
    Op(TyId, u32, Option<i32>),
    OpAny(TyId),
    /// expression from the stack / from elsewhere
    E(i32),
    ENew,
    /// span of the operator at this position
    Sp(i32),
    Stack,
    Adt(TyId, u32, Vec<P>),
    Tup(Vec<P>),
    Cell(usize, Vec<u32>),
    RefVal(Box<P>),
    DiscrOf(usize, Vec<u32>, TyId),
    Fn(FnId),
}
/// local variables of the functions being evaluated; unknown ones are left out
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
struct Cells {
    m: BTreeMap<usize, P>,
    len: usize,
}
impl Cells {
    fn get(&self, i: usize) -> &P {
        self.m.get(&i).unwrap_or(&P::U)
    }
    fn put(&mut self, i: usize, q: &[u32], v: P) {
        if q.is_empty() {
            if v == P::U {
                self.m.remove(&i);
            } else {
                self.m.insert(i, v);
            }
        } else if let Some(c) = self.m.get_mut(&i) {
            Ev::put(c, q, v)
        }
    }
    fn truncate(&mut self, n: usize) {
        self.m.split_off(&n);
        self.len = n
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Stk {
    base: u8,
    items: Vec<P>,
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct S {
    cells: Cells,
    stack: Option<Stk>,
    /// the loosest operator folded since the last push
    fold: Option<String>,
}
enum At {
    Cell(usize, Vec<u32>),
    Val(P),
}

#[derive(Serialize, Default)]
pub struct PrecR {
    pub findings: BTreeSet<String>,
    pub notes: BTreeSet<String>,
    pub roots: Vec<String>,
    /// operators pushed
    pub pushed: BTreeSet<String>,
    /// (operator below, operator pushed or predicate): stays / is folded first
    pub stays: BTreeSet<(String, String)>,
    pub folds: BTreeSet<(String, String)>,
    pub binary_builds: usize,
    pub unary_builds: usize,
    pub states: usize,
}

struct Ev<'a> {
    expr: TyId,
    bin: TyId,
    un: TyId,
    member: TyId,
    /// member variant of an expression, binary, unary operator
    mv: [u32; 3],
    roots: BTreeSet<FnId>,
    pushed: BTreeSet<(TyId, u32)>,
    levels: &'a BTreeMap<String, usize>,
    r: PrecR,
    built: BTreeSet<(FnId, Bb)>,
    ubuilt: BTreeSet<(FnId, Bb)>,
    tracked: Vec<bool>,
    fuel: usize,
    prof: BTreeMap<(FnId, Bb), usize>,
}

/// types that contain one of the given ones
fn containing(of: &[TyId], deep: bool) -> Vec<bool> {
    let p = pg();
    let n = p.pr.types.len();
    let mut v = vec![false; n];
    for t in of {
        v[*t] = true
    }
    loop {
        let mut ch = false;
        for t in 0..n {
            if v[t] {
                continue;
            }
            let h = match &p.pr.types[t].kind {
                TyKind::Adt(a) => a.args.iter().any(|x| v[*x]) || (deep && a.local && !p.ast[t] && a.variants.iter().any(|w| w.fields.iter().any(|f| v[f.ty]))),
                TyKind::Tuple(x) => x.iter().any(|x| v[*x]),
                TyKind::Ref { to, .. } | TyKind::Ptr { to, .. } => v[*to],
                TyKind::Slice(x) | TyKind::Array(x, _) => v[*x],
                TyKind::Closure { upvars, .. } => upvars.iter().any(|x| v[*x]),
                _ => false,
            };
            if h {
                v[t] = true;
                ch = true
            }
        }
        if !ch {
            return v;
        }
    }
}

impl<'a> Ev<'a> {
    fn opname(&self, t: TyId, v: u32) -> String {
        crate::facts::node_name(t, v as usize)
    }
    fn level(&self, n: &str) -> Option<usize> {
        self.levels.get(n).copied()
    }
    fn short(n: &str) -> &str {
        n.rsplit("::").next().unwrap_or(n)
    }
    fn find(&mut self, s: String) {
        self.r.findings.insert(s);
    }
    fn top(&self, t: TyId) -> P {
        if t == self.expr {
            P::ENew
        } else if t == self.bin || t == self.un {
            P::OpAny(t)
        } else {
            match &pg().pr.types[t].kind {
                TyKind::Adt(a) if a.kind == AdtKind::Box => self.top(a.args[0]),
                _ => P::U,
            }
        }
    }
    // ---- positions ----
    fn positions(p: &P, out: &mut BTreeSet<i32>) {
        match p {
            P::Op(_, _, Some(i)) | P::E(i) | P::Sp(i) => {
                out.insert(*i);
            }
            P::Adt(_, _, v) | P::Tup(v) => v.iter().for_each(|x| Ev::positions(x, out)),
            P::RefVal(x) => Ev::positions(x, out),
            _ => {}
        }
    }
    fn renumber(p: &mut P, m: &BTreeMap<i32, i32>) {
        match p {
            P::Op(_, _, Some(i)) | P::E(i) | P::Sp(i) => *i = m[i],
            P::Adt(_, _, v) | P::Tup(v) => v.iter_mut().for_each(|x| Ev::renumber(x, m)),
            P::RefVal(x) => Ev::renumber(x, m),
            _ => {}
        }
    }
    fn all_pos(s: &S) -> BTreeSet<i32> {
        let mut o = BTreeSet::new();
        s.cells.m.values().for_each(|c| Ev::positions(c, &mut o));
        if let Some(k) = &s.stack {
            k.items.iter().for_each(|c| Ev::positions(c, &mut o));
        }
        o
    }
    fn canon(&self, s: &mut S) {
        if let Some(k) = &mut s.stack {
            while k.items.len() > 5 {
                let x = k.items.remove(0);
                k.base = self.kind(&x)
            }
        }
        let o = Ev::all_pos(s);
        let m: BTreeMap<i32, i32> = o.iter().enumerate().map(|(i, p)| (*p, i as i32)).collect();
        s.cells.m.values_mut().for_each(|c| Ev::renumber(c, &m));
        if let Some(k) = &mut s.stack {
            k.items.iter_mut().for_each(|c| Ev::renumber(c, &m));
        }
    }
    fn kind(&self, x: &P) -> u8 {
        match x {
            P::Adt(t, v, _) if *t == self.member => {
                if *v == self.mv[0] {
                    EXPR
                } else if *v == self.mv[1] {
                    BIN
                } else {
                    UN
                }
            }
            _ => EXPR | BIN | UN,
        }
    }
    /// forget all but the kind of the top
    fn widen(&self, s: &mut S) {
        if let Some(k) = &mut s.stack {
            if let Some(x) = k.items.last() {
                k.base = self.kind(x);
                k.items.clear()
            }
        }
        s.fold = None;
        self.canon(s)
    }
    /// below a member of this kind
    fn under(k: u8) -> u8 {
        match k {
            BIN => EXPR,
            _ => NOTHING | BIN | UN,
        }
    }
    /// make the top member known: one state each
    fn expose(&self, s: S) -> Vec<S> {
        let st = match &s.stack {
            Some(k) => k.clone(),
            None => return vec![s],
        };
        if !st.items.is_empty() {
            return vec![s];
        }
        let mut out = vec![];
        let low = Ev::all_pos(&s).iter().next().copied().unwrap_or(0) - 1;
        for k in [NOTHING, EXPR, BIN, UN] {
            if st.base & k == 0 {
                continue;
            }
            let mut put = |items: Vec<P>, base: u8| {
                let mut t = s.clone();
                t.stack = Some(Stk { base, items });
                out.push(t)
            };
            match k {
                NOTHING => put(vec![], NOTHING),
                EXPR => put(vec![P::Adt(self.member, self.mv[0], vec![P::E(low)])], Ev::under(EXPR)),
                _ => {
                    let (t, mv) = if k == BIN { (self.bin, self.mv[1]) } else { (self.un, self.mv[2]) };
                    for (x, v) in &self.pushed {
                        if *x == t {
                            let f = pg().adt(self.member).unwrap().variants[mv as usize].fields.iter().map(|f| if f.ty == t { P::Op(t, *v, Some(low)) } else if f.ty == pg().range { P::Sp(low) } else { P::U }).collect();
                            put(vec![P::Adt(self.member, mv, f)], Ev::under(k))
                        }
                    }
                }
            }
        }
        out
    }
    /// operator in a member
    fn op_of(&self, m: &P) -> Option<String> {
        match m {
            P::Adt(t, _, f) if *t == self.member => f.iter().find_map(|x| match x {
                P::Op(t, v, _) => Some(self.opname(*t, *v)),
                _ => None,
            }),
            _ => None,
        }
    }
    /// an operator or predicate takes the expression on its left
    fn takes(&mut self, s: &S, below: Option<&P>, base: u8, name: &str) {
        let lv = match self.level(name) {
            Some(l) => l,
            None => {
                self.r.notes.insert(format!("no level for {name}"));
                return;
            }
        };
        match below {
            None if base == NOTHING => {}
            None => self.find(format!("{} takes its left operand although tighter operators to its left may not be grouped yet", Ev::short(name))),
            Some(m) => match self.op_of(m) {
                Some(y) => {
                    self.r.stays.insert((y.clone(), name.to_string()));
                    if let Some(l) = self.level(&y) {
                        if l <= lv {
                            let tie = if l == lv { "operators of equal precedence do not group to the left" } else { "although it binds tighter" };
                            self.find(format!("{} is not grouped before a following {} ({})", Ev::short(&y), Ev::short(name), tie))
                        }
                    }
                }
                None => self.find(format!("{} follows two operands", Ev::short(name))),
            },
        }
        if let Some(y) = &s.fold {
            self.r.folds.insert((y.clone(), name.to_string()));
            if let Some(l) = self.level(y) {
                if l > lv {
                    self.find(format!("{} is grouped before a following {} that binds tighter", Ev::short(y), Ev::short(name)))
                }
            }
        }
    }
    fn push(&mut self, mut s: S, m: P) -> Vec<S> {
        let all = Ev::all_pos(&s);
        let mut o = BTreeSet::new();
        Ev::positions(&m, &mut o);
        let new = all.iter().chain(o.iter()).max().copied().unwrap_or(0) + 1;
        let k = self.kind(&m);
        if k.count_ones() != 1 {
            self.find("something unknown is put on the operator stack".into());
            return vec![s];
        }
        let m = match m {
            P::Adt(t, v, f) => {
                let ft: Vec<TyId> = pg().adt(t).unwrap().variants[v as usize].fields.iter().map(|f| f.ty).collect();
                P::Adt(
                    t,
                    v,
                    f.into_iter()
                        .enumerate()
                        .map(|(i, x)| match x {
                            P::Op(a, b, None) => P::Op(a, b, Some(new)),
                            P::ENew => P::E(new),
                            P::U if ft[i] == pg().range => P::Sp(new),
                            x => x,
                        })
                        .collect(),
                )
            }
            m => m,
        };
        // put back after having been taken: it must lie above what is there
        let mut mine = BTreeSet::new();
        Ev::positions(&m, &mut mine);
        if mine.len() > 1 {
            self.find("an operator is stored with the span of another".into())
        }
        let back = mine.iter().any(|i| o.contains(i));
        let mut out = vec![];
        s = match &s.stack {
            Some(_) => s,
            None => {
                self.find("the operator stack is lost".into());
                return vec![s];
            }
        };
        for s in self.expose(s) {
            let mut s = s;
            let st = s.stack.clone().unwrap();
            let topk = st.items.last().map(|x| self.kind(x)).unwrap_or(NOTHING);
            if let Some(t) = st.items.last() {
                let mut q = BTreeSet::new();
                Ev::positions(t, &mut q);
                if back && q.iter().max() >= mine.iter().min() {
                    self.find("the order of the operator stack is changed".into())
                }
            }
            match k {
                EXPR => {
                    if topk == EXPR {
                        self.find("an operand is put directly after another operand".into())
                    }
                }
                UN => {
                    if topk == EXPR {
                        self.find("a prefix operator is put directly after an operand".into())
                    }
                    if !back {
                        s.fold = None
                    }
                }
                _ => {
                    if topk != EXPR {
                        self.find("a binary operator is put where there is no left operand".into())
                    } else if !back {
                        let name = self.op_of(&m);
                        match name {
                            Some(n) => {
                                let below = st.items.len().checked_sub(2).map(|i| st.items[i].clone());
                                self.takes(&s, below.as_ref(), st.base, &n);
                            }
                            None => self.find("an unknown operator is put on the operator stack".into()),
                        }
                        s.fold = None
                    }
                }
            }
            if let P::Adt(_, _, f) = &m {
                for x in f {
                    if let P::Op(t, v, _) = x {
                        self.pushed.insert((*t, *v));
                        let n = self.opname(*t, *v);
                        self.r.pushed.insert(n);
                    }
                }
            }
            s.stack.as_mut().unwrap().items.push(m.clone());
            out.push(s)
        }
        out
    }

    // ---- places ----
    fn proj(&self, c: &P, q: &[u32]) -> P {
        let mut c = c.clone();
        for i in q {
            c = match c {
                P::Adt(_, _, x) | P::Tup(x) => x.get(*i as usize).cloned().unwrap_or(P::U),
                _ => P::U,
            }
        }
        c
    }
    fn put(c: &mut P, q: &[u32], v: P) {
        match q.split_first() {
            None => *c = v,
            Some((i, r)) => match c {
                P::Adt(_, _, x) | P::Tup(x) if (*i as usize) < x.len() => Ev::put(&mut x[*i as usize], r, v),
                c => *c = P::U,
            },
        }
    }
    fn place(&self, s: &S, base: usize, fun: &Func, pl: &Place) -> At {
        let p = pg();
        let mut cur = At::Cell(base + pl.local, vec![]);
        let mut ty = fun.locals[pl.local].ty;
        for pr in &pl.proj {
            match pr {
                Proj::Deref => {
                    let v = self.load(s, &cur);
                    cur = match v {
                        P::Cell(i, q) => At::Cell(i, q),
                        P::RefVal(x) => At::Val(*x),
                        P::U => At::Val(P::U),
                        v => match cur {
                            // boxes are transparent
                            At::Cell(i, q) if p.adt(ty).map(|a| a.kind == AdtKind::Box).unwrap_or(false) => At::Cell(i, q),
                            _ => At::Val(v),
                        },
                    };
                    ty = match &p.pr.types[ty].kind {
                        TyKind::Ref { to, .. } | TyKind::Ptr { to, .. } => *to,
                        TyKind::Adt(a) if a.kind == AdtKind::Box => a.args[0],
                        _ => ty,
                    };
                }
                Proj::Downcast(_) => {}
                Proj::Field(i, t) => {
                    cur = match cur {
                        At::Cell(c, mut q) => {
                            let v = self.load(s, &At::Cell(c, q.clone()));
                            match v {
                                P::Cell(..) | P::Adt(..) | P::Tup(..) => {
                                    q.push(*i as u32);
                                    At::Cell(c, q)
                                }
                                P::RefVal(x) => At::Val(self.proj(&x, &[*i as u32])),
                                _ => At::Val(self.top(*t)),
                            }
                        }
                        At::Val(v) => At::Val(match v {
                            P::Adt(..) | P::Tup(..) => self.proj(&v, &[*i as u32]),
                            _ => self.top(*t),
                        }),
                    };
                    ty = *t;
                }
                _ => cur = At::Val(P::U),
            }
        }
        cur
    }
    fn load(&self, s: &S, at: &At) -> P {
        match at {
            At::Cell(i, q) => self.proj(s.cells.get(*i), q),
            At::Val(v) => v.clone(),
        }
    }
    fn deref(&self, s: &S, v: &P) -> P {
        let mut v = v.clone();
        for _ in 0..8 {
            v = match v {
                P::Cell(i, q) => self.load(s, &At::Cell(i, q)),
                P::RefVal(x) => *x,
                v => return v,
            }
        }
        v
    }
    fn operand(&self, s: &S, base: usize, fun: &Func, o: &Operand) -> P {
        match o {
            Operand::Copy(pl) | Operand::Move(pl) => {
                let v = self.load(s, &self.place(s, base, fun, pl));
                match v {
                    P::U => self.top(pg().type_of_place(fun, pl)),
                    v => v,
                }
            }
            Operand::Const(k) => self.konst(k.ty, &k.val),
            Operand::RuntimeCheck(_) => P::Int(0),
        }
    }
    fn konst(&self, t: TyId, v: &CVal) -> P {
        match v {
            CVal::Int(i) => P::Int(*i),
            CVal::Bool(b) => P::Int(*b as i128),
            CVal::Adt(v, f) => match pg().adt(t) {
                _ if t == self.bin || t == self.un => P::Op(t, *v as u32, None),
                Some(a) if self.tracked[t] || matches!(a.path.as_str(), "core::option::Option" | "core::result::Result") => {
                    P::Adt(t, *v as u32, f.iter().enumerate().map(|(i, x)| self.konst(a.variants[*v].fields.get(i).map(|f| f.ty).unwrap_or(t), x)).collect())
                }
                _ => P::U,
            },
            CVal::Ref(x) => match &pg().pr.types[t].kind {
                TyKind::Ref { to, .. } => P::RefVal(Box::new(self.konst(*to, x))),
                _ => P::U,
            },
            CVal::Fn(Some(f)) => P::Fn(*f),
            CVal::Zst => match &pg().pr.types[t].kind {
                TyKind::FnDef(Some(f)) => P::Fn(*f),
                TyKind::Closure { .. } => P::Tup(vec![]),
                _ => P::U,
            },
            _ => P::U,
        }
    }
    fn discr(&self, v: P, at: &At) -> P {
        match (v, at) {
            (P::Adt(t, i, _), _) | (P::Op(t, i, _), _) => pg().adt(t).map(|a| P::Int(a.variants[i as usize].discr)).unwrap_or(P::U),
            (P::OpAny(t), At::Cell(i, q)) => P::DiscrOf(*i, q.clone(), t),
            _ => P::U,
        }
    }
    fn bin(op: &str, a: &P, b: &P) -> P {
        match (a, b) {
            (P::Int(a), P::Int(b)) => match op {
                "Eq" => P::Int((a == b) as i128),
                "Ne" => P::Int((a != b) as i128),
                "Lt" => P::Int((a < b) as i128),
                "Le" => P::Int((a <= b) as i128),
                "Gt" => P::Int((a > b) as i128),
                "Ge" => P::Int((a >= b) as i128),
                "Add" | "AddUnchecked" => P::Int(a + b),
                "Sub" | "SubUnchecked" => P::Int(a - b),
                "Mul" | "MulUnchecked" => P::Int(a * b),
                "BitAnd" => P::Int(a & b),
                "BitOr" => P::Int(a | b),
                "BitXor" => P::Int(a ^ b),
                _ => P::U,
            },
            (P::AtLeast(n), P::Int(k)) => match op {
                "Eq" if k < n => P::Int(0),
                "Ne" if k < n => P::Int(1),
                "Lt" if k <= n => P::Int(0),
                "Le" if k < n => P::Int(0),
                "Gt" if k < n => P::Int(1),
                "Ge" if k <= n => P::Int(1),
                _ => P::U,
            },
            (P::Int(_), P::AtLeast(_)) => {
                let o = match op {
                    "Lt" => "Gt",
                    "Le" => "Ge",
                    "Gt" => "Lt",
                    "Ge" => "Le",
                    "Eq" | "Ne" => op,
                    _ => return P::U,
                };
                Ev::bin(o, b, a)
            }
            _ => P::U,
        }
    }
    fn rvalue(&mut self, s: &mut S, base: usize, f: FnId, bb: Bb, r: &Rvalue) -> P {
        let fun = pg().f(f);
        match r {
            Rvalue::Use(o) => self.operand(s, base, fun, o),
            Rvalue::Ref { place, .. } | Rvalue::AddrOf { place, .. } => match self.place(s, base, fun, place) {
                At::Cell(i, q) => P::Cell(i, q),
                At::Val(P::U) => P::U,
                At::Val(v) => P::RefVal(Box::new(v)),
            },
            Rvalue::Agg(k, ops) => {
                let v: Vec<P> = ops.iter().map(|o| self.operand(s, base, fun, o)).collect();
                match k {
                    AggKind::Tuple | AggKind::Closure(_) => P::Tup(v),
                    AggKind::Adt { ty, variant, .. } => {
                        if *ty == self.expr {
                            self.expression(s, f, bb, *variant, v)
                        } else if *ty == self.bin || *ty == self.un {
                            P::Op(*ty, *variant as u32, None)
                        } else if pg().adt(*ty).map(|a| a.kind == AdtKind::Box).unwrap_or(false) {
                            v.into_iter().next().unwrap_or(P::U)
                        } else if pg().ast[*ty] || *ty == pg().range {
                            P::U
                        } else {
                            P::Adt(*ty, *variant as u32, v)
                        }
                    }
                    _ => P::U,
                }
            }
            Rvalue::Discr(pl) => {
                let at = self.place(s, base, fun, pl);
                let v = self.load(s, &at);
                self.discr(v, &at)
            }
            Rvalue::Cast(k, o, _) => {
                if k == "BoxDerefTransmute" {
                    if let Operand::Copy(pl) | Operand::Move(pl) = o {
                        let mut p2 = pl.clone();
                        while let Some(Proj::Field(..)) = p2.proj.last() {
                            p2.proj.pop();
                        }
                        return match self.place(s, base, fun, &p2) {
                            At::Cell(i, q) => P::Cell(i, q),
                            At::Val(v) => P::RefVal(Box::new(v)),
                        };
                    }
                }
                self.operand(s, base, fun, o)
            }
            Rvalue::Un(op, o) if op == "Not" => match self.operand(s, base, fun, o) {
                P::Int(i) => P::Int(1 - i),
                _ => P::U,
            },
            Rvalue::Bin(op, a, b) => {
                let (a, b) = (self.operand(s, base, fun, a), self.operand(s, base, fun, b));
                Ev::bin(op, &a, &b)
            }
            Rvalue::CheckedBin(op, a, b) => {
                let (a, b) = (self.operand(s, base, fun, a), self.operand(s, base, fun, b));
                match Ev::bin(op, &a, &b) {
                    P::U => P::U,
                    v => P::Tup(vec![v, P::Int(0)]),
                }
            }
            _ => P::U,
        }
    }
    fn store(&self, s: &mut S, base: usize, fun: &Func, d: &Place, v: P) {
        if let At::Cell(i, q) = self.place(s, base, fun, d) {
            s.cells.put(i, &q, v)
        }
    }
    fn has_e(p: &P) -> bool {
        match p {
            P::E(_) => true,
            P::Adt(_, _, v) | P::Tup(v) => v.iter().any(Ev::has_e),
            P::RefVal(x) => Ev::has_e(x),
            _ => false,
        }
    }
    /// an expression node is built
    fn expression(&mut self, s: &mut S, f: FnId, bb: Bb, variant: usize, v: Vec<P>) -> P {
        let a = pg().adt(self.expr).unwrap();
        let fields = &a.variants[variant].fields;
        let get = |n: &str| fields.iter().position(|f| f.name == n).map(|i| v[i].clone());
        let op = fields.iter().position(|f| f.ty == self.bin || f.ty == self.un).map(|i| v[i].clone());
        let sp = fields.iter().position(|f| f.ty == pg().range).map(|i| v[i].clone());
        let n = a.variants[variant].name.clone();
        match n.as_str() {
            "Binary" => {
                self.built.insert((f, bb));
                if let (Some(P::Op(t, o, Some(i))), Some(P::E(l)), Some(P::E(r))) = (&op, get("lhs"), get("rhs")) {
                    if !(l < *i && *i < r) {
                        self.find("the operands of a binary operator are not in source order".into())
                    }
                    if sp != Some(P::Sp(*i)) {
                        self.find("a binary operator is stored with another span than its own".into())
                    }
                    self.folded(s, *t, *o);
                    return P::E(l);
                }
                self.find("a binary expression is built of something else than an operator of the stack and the operands next to it".into());
                P::ENew
            }
            "Unary" => {
                self.ubuilt.insert((f, bb));
                if let (Some(P::Op(t, o, Some(i))), Some(P::E(r))) = (&op, get("operand")) {
                    if *i >= r {
                        self.find("the operand of a prefix operator lies before it".into())
                    }
                    if sp != Some(P::Sp(*i)) {
                        self.find("a prefix operator is stored with another span than its own".into())
                    }
                    self.folded(s, *t, *o);
                    return P::E(*i);
                }
                self.find("a prefix expression is built of something else than an operator of the stack and the operand next to it".into());
                P::ENew
            }
            _ => {
                if v.iter().any(Ev::has_e) {
                    let below = s.stack.as_ref().and_then(|k| k.items.last().cloned());
                    let base = s.stack.as_ref().map(|k| k.base).unwrap_or(15);
                    let name = crate::facts::node_name(self.expr, variant);
                    self.takes(s, below.as_ref(), base, &name);
                    s.fold = None;
                }
                P::ENew
            }
        }
    }
    fn folded(&mut self, s: &mut S, t: TyId, o: u32) {
        let n = self.opname(t, o);
        let l = self.level(&n);
        if l.is_none() {
            self.r.notes.insert(format!("no level for {n}"));
        }
        if s.fold.as_ref().and_then(|x| self.level(x)) < l {
            s.fold = Some(n)
        }
    }

    // ---- running ----
    fn run(&mut self, f: FnId, args: Vec<P>, s: S, depth: usize) -> Vec<(S, P)> {
        let p = pg();
        let fun = p.f(f);
        if depth > 25 || self.fuel == 0 {
            self.find(format!("the evaluation of {} is too deep", p.short(f)));
            return vec![];
        }
        let base = s.cells.len;
        let mut s = s;
        s.cells.len = base + fun.locals.len();
        for (i, a) in args.into_iter().enumerate() {
            if i + 1 < fun.locals.len() {
                s.cells.put(base + 1 + i, &[], a)
            }
        }
        let info = p.info(f);
        let rpo = &info.rpo;
        // loops that work on the stack
        let touches = |b: Bb| -> bool {
            let bl = &fun.blocks[b];
            let t = |l: Local| self.tracked[fun.locals[l].ty];
            bl.stmts.iter().any(|(s, _)| matches!(s, Stmt::Assign(d, _) if t(d.local)))
                || match &bl.term {
                    Term::Call { args, dest, .. } => t(dest.local) || args.iter().any(|a| matches!(a, Operand::Copy(q) | Operand::Move(q) if t(q.local))),
                    _ => false,
                }
        };
        let heads: BTreeSet<Bb> = info.loops.iter().filter(|(_, b)| b.iter().enumerate().any(|(i, x)| *x && touches(i))).map(|x| *x.0).collect();
        let mut out: BTreeSet<(S, P)> = BTreeSet::new();
        let mut done: BTreeMap<Bb, BTreeSet<S>> = BTreeMap::new();
        let mut work: BTreeSet<(usize, Bb, S)> = BTreeSet::new();
        work.insert((0, 0, s));
        while let Some((o, bb, mut s)) = work.pop_first() {
            let _ = o;
            if bb != 0 {
                s.cells.m.retain(|i, _| *i < base || info.live_in[bb][*i - base] || info.addr[*i - base]);
            }
            s.cells.truncate(base + fun.locals.len());
            if heads.contains(&bb) && self.roots.contains(&f) {
                self.widen(&mut s)
            }
            self.canon(&mut s);
            if !done.entry(bb).or_default().insert(s.clone()) {
                continue;
            }
            if self.fuel == 0 {
                self.find("the evaluation did not finish".into());
                break;
            }
            self.fuel -= 1;
            self.r.states += 1;
            if std::env::var_os("PROF").is_some() {
                *self.prof.entry((f, bb)).or_default() += 1;
                if self.r.states % 50000 == 0 {
                    let mut v: Vec<_> = self.prof.iter().map(|(k, n)| (*n, *k)).collect();
                    v.sort();
                    for (n, (f, b)) in v.iter().rev().take(12) {
                        eprintln!("{n} {} bb{b}", p.short(*f))
                    }
                    eprintln!("--- {:?}", s)
                }
            }
            for (t, s2) in self.block(f, base, bb, s, depth, &mut out) {
                work.insert((rpo[t], t, s2));
            }
        }
        out.into_iter()
            .map(|(mut s, v)| {
                s.cells.truncate(base);
                (s, v)
            })
            .collect::<BTreeSet<_>>()
            .into_iter()
            .collect()
    }
    fn leaves_frame(v: &P, base: usize) -> P {
        match v {
            P::Cell(i, _) if *i >= base => P::U,
            P::Adt(t, w, x) => P::Adt(*t, *w, x.iter().map(|y| Ev::leaves_frame(y, base)).collect()),
            P::Tup(x) => P::Tup(x.iter().map(|y| Ev::leaves_frame(y, base)).collect()),
            v => v.clone(),
        }
    }
    fn block(&mut self, f: FnId, base: usize, bb: Bb, mut s: S, depth: usize, out: &mut BTreeSet<(S, P)>) -> Vec<(Bb, S)> {
        let p = pg();
        let fun = p.f(f);
        let b = &fun.blocks[bb];
        for (st, _) in &b.stmts {
            if let Stmt::Assign(d, r) = st {
                let v = self.rvalue(&mut s, base, f, bb, r);
                self.store(&mut s, base, fun, d, v)
            }
        }
        match &b.term {
            Term::Goto(t) => vec![(*t, s)],
            Term::Drop { target, .. } => vec![(*target, s)],
            Term::Return => {
                let v = Ev::leaves_frame(s.cells.get(base), base);
                out.insert((s, v));
                vec![]
            }
            Term::Switch { discr, arms, otherwise, .. } => match self.operand(&s, base, fun, discr) {
                P::Int(i) => vec![(arms.iter().find(|a| a.0 as i128 == i).map(|a| a.1).unwrap_or(*otherwise), s)],
                P::DiscrOf(c, q, t) => p
                    .adt(t)
                    .unwrap()
                    .variants
                    .iter()
                    .enumerate()
                    .map(|(vi, v)| {
                        let mut s2 = s.clone();
                        s2.cells.put(c, &q, P::Op(t, vi as u32, None));
                        (arms.iter().find(|a| a.0 as i128 == v.discr).map(|a| a.1).unwrap_or(*otherwise), s2)
                    })
                    .collect(),
                v => {
                    let mut t: BTreeSet<Bb> = arms.iter().filter(|a| !matches!(v, P::AtLeast(n) if (a.0 as i128) < n)).map(|a| a.1).collect();
                    t.insert(*otherwise);
                    t.into_iter().filter(|t| !matches!(fun.blocks[*t].term, Term::Unreachable)).map(|t| (t, s.clone())).collect()
                }
            },
            Term::Assert { target, .. } => vec![(*target, s)],
            Term::Call { callee, args, dest, target, .. } => {
                let t = match target {
                    Some(t) => *t,
                    None => return vec![],
                };
                let vals: Vec<P> = args.iter().map(|o| self.operand(&s, base, fun, o)).collect();
                let g = match callee {
                    Callee::Fn(g) => Some(*g),
                    Callee::Ptr(o) => match self.operand(&s, base, fun, o) {
                        P::Fn(g) => Some(g),
                        _ => None,
                    },
                };
                let dty = p.type_of_place(fun, dest);
                let rs = match g {
                    Some(g) => self.call(g, vals, s, depth, dty),
                    None => {
                        let v = self.top(dty);
                        self.opaque(&mut s, &vals, "a function pointer");
                        vec![(s, v)]
                    }
                };
                rs.into_iter()
                    .map(|(mut s, v)| {
                        self.store(&mut s, base, fun, dest, v);
                        (t, s)
                    })
                    .collect()
            }
            _ => vec![],
        }
    }
    /// what a call may have changed is unknown
    fn opaque(&mut self, s: &mut S, vals: &[P], name: &str) {
        for v in vals {
            self.havoc(s, v, name, 0)
        }
    }
    fn havoc(&mut self, s: &mut S, v: &P, name: &str, d: usize) {
        if d > 6 {
            return;
        }
        match v {
            P::Cell(i, q) => {
                let w = self.load(s, &At::Cell(*i, q.clone()));
                if Ev::is_stack(&w) {
                    self.find(format!("the operator stack is handed to {name}, which the analysis cannot follow"));
                    return;
                }
                self.havoc(s, &w, name, d + 1);
                if !matches!(w, P::Cell(..) | P::Op(..) | P::E(_)) {
                    s.cells.put(*i, q, P::U)
                }
            }
            P::Tup(x) | P::Adt(_, _, x) => x.iter().for_each(|y| self.havoc(s, y, name, d + 1)),
            _ => {}
        }
    }
    fn is_stack(v: &P) -> bool {
        match v {
            P::Stack => true,
            P::Adt(_, _, x) | P::Tup(x) => x.iter().any(Ev::is_stack),
            _ => false,
        }
    }
    fn tracked_val(&self, s: &S, v: &P, d: usize) -> bool {
        if d > 8 {
            return false;
        }
        match v {
            P::Stack | P::Op(..) | P::OpAny(_) | P::E(_) => true,
            P::Adt(t, _, _) if *t == self.member => true,
            P::Adt(_, _, x) | P::Tup(x) => x.iter().any(|y| self.tracked_val(s, y, d + 1)),
            P::RefVal(x) => self.tracked_val(s, x, d + 1),
            P::Cell(i, q) => {
                let w = self.load(s, &At::Cell(*i, q.clone()));
                self.tracked_val(s, &w, d + 1)
            }
            _ => false,
        }
    }
    fn opt(&self, dty: TyId, v: Option<P>) -> P {
        match v {
            Some(v) => P::Adt(dty, 1, vec![v]),
            None => P::Adt(dty, 0, vec![]),
        }
    }
    fn call(&mut self, g: FnId, vals: Vec<P>, s: S, depth: usize, dty: TyId) -> Vec<(S, P)> {
        let p = pg();
        let gf = p.f(g);
        let path = gf.path.as_str();
        let ti = gf.trait_item.as_deref().unwrap_or("");
        let name = path.rsplit("::").next().unwrap_or("");
        // ---- the stack ----
        let is_vec_of_members = |t: TyId| p.path(t) == "alloc::vec::Vec" && p.adt(t).unwrap().args.first() == Some(&self.member);
        if is_vec_of_members(dty) && vals.iter().all(|v| !self.tracked_val(&s, v, 0)) && matches!(name, "new" | "with_capacity" | "default" | "into_vec" | "from") {
            let mut s = s;
            if s.stack.is_some() {
                self.find("there is more than one operator stack".into())
            }
            s.stack = Some(Stk { base: NOTHING, items: vec![] });
            return vec![(s, P::Stack)];
        }
        if !gf.local && vals.first().map(|v| self.deref(&s, v) == P::Stack).unwrap_or(false) {
            match name {
                "deref" | "deref_mut" | "as_slice" | "as_mut_slice" | "as_ref" | "as_mut" | "borrow" | "borrow_mut" | "by_ref" => return vec![(s, vals[0].clone())],
                "push" => {
                    let m = vals[1].clone();
                    return self.push(s, m).into_iter().map(|s| (s, P::U)).collect();
                }
                "pop" | "last" | "is_empty" => {
                    return self
                        .expose(s)
                        .into_iter()
                        .map(|mut s| {
                            let k = s.stack.as_mut().unwrap();
                            let x = if name == "pop" { k.items.pop() } else { k.items.last().cloned() };
                            let v = match name {
                                "pop" => self.opt(dty, x),
                                "last" => self.opt(dty, x.map(|x| P::RefVal(Box::new(x)))),
                                _ => P::Int(x.is_none() as i128),
                            };
                            (s, v)
                        })
                        .collect()
                }
                "len" => {
                    let mut out = vec![];
                    for mut s in self.expose(s) {
                        let k = s.stack.as_mut().unwrap();
                        let n = k.items.len() as i128;
                        if k.base & NOTHING != 0 {
                            let mut t = s.clone();
                            t.stack.as_mut().unwrap().base = NOTHING;
                            out.push((t, P::Int(n)))
                        }
                        let k = s.stack.as_mut().unwrap();
                        k.base &= !NOTHING;
                        if k.base != 0 {
                            out.push((s, P::AtLeast(n + 1)))
                        }
                    }
                    return out;
                }
                "capacity" | "reserve" | "fmt" => return vec![(s, P::U)],
                "clear" | "truncate" => {
                    let mut s = s;
                    s.stack = Some(Stk { base: NOTHING, items: vec![] });
                    return vec![(s, P::U)];
                }
                _ => {
                    self.find(format!("the operator stack is used with {path}, which the analysis does not know"));
                    return vec![(s, P::U)];
                }
            }
        }
        // ---- values ----
        if ti == "core::clone::Clone::clone" {
            let v = self.deref(&s, &vals[0]);
            return vec![(s, v)];
        }
        if !gf.local {
            if path == "alloc::boxed::Box::<T>::new" || path.ends_with("boxed::Box::<T>::new") || ti == "core::convert::From::from" && p.adt(dty).map(|a| a.kind == AdtKind::Box).unwrap_or(false) {
                return vec![(s, vals[0].clone())];
            }
            if matches!(ti, "core::ops::Deref::deref" | "core::ops::DerefMut::deref_mut" | "core::convert::AsRef::as_ref") && gf.self_ty.map(|t| p.adt(t).map(|a| a.kind == AdtKind::Box).unwrap_or(false)).unwrap_or(false) {
                return vec![(s, vals[0].clone())];
            }
            if name == "discriminant_value" || path.ends_with("mem::discriminant") {
                let at = match &vals[0] {
                    P::Cell(i, q) => At::Cell(*i, q.clone()),
                    v => At::Val(self.deref(&s, v)),
                };
                let v = self.deref(&s, &vals[0]);
                let d = self.discr(v, &at);
                return vec![(s, d)];
            }
            if ti.starts_with("core::cmp::Partial") || ti.starts_with("core::cmp::Ord") {
                let (a, b) = (self.deref(&s, &vals[0]), vals.get(1).map(|v| self.deref(&s, v)).unwrap_or(P::U));
                if let (P::Int(x), P::Int(y)) = (&a, &b) {
                    let (x, y) = (*x, *y);
                    let r = match name {
                        "lt" => Some((x < y) as i128),
                        "le" => Some((x <= y) as i128),
                        "gt" => Some((x > y) as i128),
                        "ge" => Some((x >= y) as i128),
                        "eq" => Some((x == y) as i128),
                        "ne" => Some((x != y) as i128),
                        "min" => Some(x.min(y)),
                        "max" => Some(x.max(y)),
                        _ => None,
                    };
                    if let Some(r) = r {
                        return vec![(s, P::Int(r))];
                    }
                    if let ("cmp", Some(ad)) = (name, p.adt(dty)) {
                        let d = (x > y) as i128 - (x < y) as i128;
                        if let Some(v) = ad.variants.iter().position(|v| v.discr == d || v.discr == (d & 0xff)) {
                            return vec![(s, P::Adt(dty, v as u32, vec![]))];
                        }
                    }
                }
            }
            if path.ends_with("mem::replace") || path.ends_with("mem::take") {
                if let P::Cell(i, q) = &vals[0] {
                    let old = self.load(&s, &At::Cell(*i, q.clone()));
                    if !Ev::is_stack(&old) {
                        let mut s = s;
                        s.cells.put(*i, q, vals.get(1).cloned().unwrap_or(P::U));
                        return vec![(s, old)];
                    }
                }
            }
        }
        let tracked = vals.iter().any(|v| self.tracked_val(&s, v, 0));
        let gives_op = |t: TyId| self.tracked[t];
        let adt_arg = !gf.local && vals.iter().any(|v| matches!(v, P::Adt(..)));
        if gf.has_body && !self.roots.contains(&g) && !p.ast[gf.self_ty.unwrap_or(pg().tok)] | tracked && ((gf.local && (tracked || gives_op(dty))) || adt_arg || (!gf.local && tracked)) && !(gf.derived && ti.starts_with("core::fmt")) {
            return self.run(g, vals, s, depth + 1);
        }
        let mut s = s;
        let n = p.short(g);
        self.opaque(&mut s, &vals, &n);
        if gf.local && p.path(dty) == "core::result::Result" && self.always_err(g, 0) {
            return vec![(s, P::Adt(dty, 1, vec![P::U]))];
        }
        let v = self.top(dty);
        vec![(s, v)]
    }
    /// does the function return nothing but errors
    fn always_err(&self, f: FnId, d: usize) -> bool {
        let p = pg();
        let fun = p.f(f);
        if !fun.has_body || d > 3 {
            return false;
        }
        fn from(ev: &Ev, f: FnId, l: Local, d: usize, seen: &mut BTreeSet<Local>) -> bool {
            let p = pg();
            let fun = p.f(f);
            if !seen.insert(l) {
                return true;
            }
            let mut any = false;
            for (bi, b) in fun.blocks.iter().enumerate() {
                if b.cleanup || p.info(f).rpo[bi] == usize::MAX {
                    continue;
                }
                for (s, _) in &b.stmts {
                    if let Stmt::Assign(pl, r) = s {
                        if pl.local != l {
                            continue;
                        }
                        if !pl.proj.is_empty() {
                            return false;
                        }
                        any = true;
                        match r {
                            Rvalue::Agg(AggKind::Adt { ty, variant: 1, .. }, _) if p.path(*ty) == "core::result::Result" => {}
                            Rvalue::Use(Operand::Move(q) | Operand::Copy(q)) if q.proj.is_empty() => {
                                if !from(ev, f, q.local, d, seen) {
                                    return false;
                                }
                            }
                            Rvalue::Use(Operand::Const(Const { val: CVal::Adt(1, _), .. })) => {}
                            _ => return false,
                        }
                    }
                }
                if let Term::Call { dest, callee, target: Some(_), .. } = &b.term {
                    if dest.local == l {
                        any = true;
                        match callee {
                            Callee::Fn(g) if p.f(*g).trait_item.as_deref() == Some("core::ops::FromResidual::from_residual") => {}
                            Callee::Fn(g) if p.f(*g).local && ev.always_err(*g, d + 1) => {}
                            _ => return false,
                        }
                    }
                }
            }
            any
        }
        from(self, f, 0, d, &mut BTreeSet::new())
    }
}

pub fn all(levels: &[Vec<String>]) -> PrecR {
    let p = pg();
    let lv: BTreeMap<String, usize> = levels.iter().enumerate().flat_map(|(i, l)| l.iter().map(move |n| (n.clone(), i))).collect();
    let mut r = PrecR::default();
    let (expr, bin, un) = match (p.find_ty("expression::Expression"), p.find_ty("expression::BinaryOperator"), p.find_ty("expression::UnaryOperator")) {
        (Some(a), Some(b), Some(c)) => (a, b, c),
        _ => {
            r.findings.insert("anchor missing: the expression and operator types".into());
            return r;
        }
    };
    // the members of the operator stack: an operand or an operator
    let member = (0..p.pr.types.len()).find_map(|t| {
        let a = p.adt(t)?;
        if !a.local || p.ast[t] || a.kind != AdtKind::Enum {
            return None;
        }
        let v = |x: TyId| a.variants.iter().position(|v| v.fields.iter().any(|f| f.ty == x)).map(|i| i as u32);
        Some((t, [v(expr)?, v(bin)?, v(un)?]))
    });
    let (member, mv) = match member {
        Some(m) => m,
        None => {
            r.findings.insert("anchor missing: the type of the members of the operator stack".into());
            return r;
        }
    };
    let tracked = containing(&[member, bin, un], true);
    let holds = containing(&[member], true);
    let mut roots = BTreeSet::new();
    for (i, f) in p.pr.fns.iter().enumerate() {
        if !f.local || !f.has_body || f.derived || f.is_closure {
            continue;
        }
        let io = f.inputs.iter().chain([&f.output]).any(|t| holds[*t]);
        if !io && f.locals.iter().any(|l| holds[l.ty]) && f.self_ty != Some(member) {
            roots.insert(i);
        }
    }
    if roots.is_empty() {
        r.findings.insert("anchor missing: no function keeps an operator stack".into());
        return r;
    }
    let mut pushed = BTreeSet::new();
    loop {
        let mut ev = Ev { expr, bin, un, member, mv, roots: roots.clone(), pushed: pushed.clone(), levels: &lv, r: PrecR::default(), built: BTreeSet::new(), ubuilt: BTreeSet::new(), tracked: tracked.clone(), fuel: 2_000_000, prof: BTreeMap::new() };
        for f in &roots {
            let n = p.f(*f).argc;
            let exits = ev.run(*f, vec![P::U; n], S { cells: Cells::default(), stack: None, fold: None }, 0);
            let mut clean = 0;
            for (s, v) in &exits {
                let mut e = false;
                let mut w = v;
                while let P::Adt(_, 0, x) | P::Adt(_, 1, x) = w {
                    match x.first() {
                        Some(y) => w = y,
                        None => break,
                    }
                }
                if let P::E(_) = w {
                    e = true
                }
                if e {
                    clean += 1;
                    if let Some(k) = &s.stack {
                        if !k.items.is_empty() || k.base != NOTHING {
                            ev.find("an expression is returned while operators or operands are left on the stack".into())
                        }
                    }
                }
            }
            if clean == 0 {
                ev.find(format!("{} never returns an expression of the stack", p.short(*f)))
            }
            ev.r.roots.push(p.short(*f));
        }
        let more = ev.pushed != pushed;
        pushed = ev.pushed.clone();
        ev.r.binary_builds = ev.built.len();
        ev.r.unary_builds = ev.ubuilt.len();
        r = ev.r;
        if !more {
            return r;
        }
    }
}

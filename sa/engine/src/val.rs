//! Abstract values.
use ir::TyId;
use std::rc::Rc;

pub const KW: usize = 16;
/// set of token kinds (or of character classes), interned
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct KS(u32);
impl KS {
    pub fn id(&self) -> u32 {
        self.0
    }
}
type Bits = [u64; KW];
#[derive(Default)]
struct Table {
    sets: Vec<(Bits, u32)>,
    ids: std::collections::HashMap<Bits, u32>,
    ops: std::collections::HashMap<(u8, u32, u32), u32>,
}
impl Table {
    fn id(&mut self, b: Bits) -> u32 {
        if self.sets.is_empty() {
            self.sets.push(([0; KW], 0));
            self.ids.insert([0; KW], 0);
        }
        if let Some(i) = self.ids.get(&b) {
            return *i;
        }
        let i = self.sets.len() as u32;
        self.sets.push((b, b.iter().map(|x| x.count_ones()).sum()));
        self.ids.insert(b, i);
        i
    }
    fn get(&self, i: u32) -> Bits {
        if i == 0 {
            [0; KW]
        } else {
            self.sets[i as usize].0
        }
    }
}
thread_local! {
    static TABLE: std::cell::RefCell<Table> = Default::default();
}
impl std::fmt::Debug for KS {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let v: Vec<usize> = self.iter().collect();
        if v.len() > 6 {
            write!(f, "KS#{}", v.len())
        } else {
            write!(f, "KS{:?}", v)
        }
    }
}
/// kind sets outlive threads' interning tables in this plain form
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct RawKS(pub Bits);
impl RawKS {
    pub fn join(&mut self, o: &RawKS) {
        (0..KW).for_each(|i| self.0[i] |= o.0[i])
    }
    pub fn empty() -> RawKS {
        RawKS([0; KW])
    }
    pub fn range(n: usize) -> RawKS {
        let mut k = RawKS::empty();
        for i in 0..n {
            k.add(i)
        }
        k
    }
    pub fn add(&mut self, i: usize) {
        self.0[i / 64] |= 1 << (i % 64)
    }
    pub fn has(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
    pub fn ks(&self) -> KS {
        KS::of(self.0)
    }
}
impl KS {
    pub const EMPTY: KS = KS(0);
    fn of(b: Bits) -> KS {
        KS(TABLE.with(|t| t.borrow_mut().id(b)))
    }
    fn bits(&self) -> Bits {
        TABLE.with(|t| t.borrow().get(self.0))
    }
    fn op(&self, o: &KS, k: u8, f: impl Fn(u64, u64) -> u64) -> KS {
        TABLE.with(|t| {
            let mut t = t.borrow_mut();
            if let Some(i) = t.ops.get(&(k, self.0, o.0)) {
                return KS(*i);
            }
            let (a, b) = (t.get(self.0), t.get(o.0));
            let mut r = [0; KW];
            for i in 0..KW {
                r[i] = f(a[i], b[i])
            }
            let i = t.id(r);
            t.ops.insert((k, self.0, o.0), i);
            KS(i)
        })
    }
    pub fn one(i: usize) -> KS {
        let mut b = [0; KW];
        b[i / 64] |= 1 << (i % 64);
        KS::of(b)
    }
    pub fn range(n: usize) -> KS {
        RawKS::range(n).ks()
    }
    pub fn add(&mut self, i: usize) {
        let mut b = self.bits();
        b[i / 64] |= 1 << (i % 64);
        *self = KS::of(b)
    }
    pub fn del(&mut self, i: usize) {
        let mut b = self.bits();
        b[i / 64] &= !(1 << (i % 64));
        *self = KS::of(b)
    }
    pub fn has(&self, i: usize) -> bool {
        TABLE.with(|t| self.0 != 0 && t.borrow().sets[self.0 as usize].0[i / 64] >> (i % 64) & 1 == 1)
    }
    pub fn and(&self, o: &KS) -> KS {
        if self.0 == o.0 {
            return *self;
        }
        self.op(o, 0, |a, b| a & b)
    }
    pub fn or(&self, o: &KS) -> KS {
        if self.0 == o.0 || o.0 == 0 {
            return *self;
        }
        self.op(o, 1, |a, b| a | b)
    }
    pub fn minus(&self, o: &KS) -> KS {
        self.op(o, 2, |a, b| a & !b)
    }
    pub fn empty(&self) -> bool {
        self.0 == 0
    }
    pub fn count(&self) -> usize {
        if self.0 == 0 {
            return 0;
        }
        TABLE.with(|t| t.borrow().sets[self.0 as usize].1 as usize)
    }
    pub fn subset(&self, o: &KS) -> bool {
        self.minus(o).empty()
    }
    pub fn iter(&self) -> impl Iterator<Item = usize> + 'static {
        let b = self.bits();
        (0..KW * 64).filter(move |i| b[*i / 64] >> (*i % 64) & 1 == 1)
    }
    pub fn single(&self) -> Option<usize> {
        if self.count() == 1 {
            self.iter().next()
        } else {
            None
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Tags(pub Option<Rc<Vec<u64>>>);
impl std::fmt::Debug for Tags {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "T{}", self.iter().count())
    }
}
impl Tags {
    pub fn new() -> Tags {
        Tags(None)
    }
    pub fn one(i: usize) -> Tags {
        let mut t = Tags(None);
        t.add(i);
        t
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_none()
    }
    pub fn add(&mut self, i: usize) {
        let rc = self.0.get_or_insert_with(|| Rc::new(vec![]));
        if rc.len() > i / 64 && rc[i / 64] >> (i % 64) & 1 == 1 {
            return;
        }
        let v = Rc::make_mut(rc);
        while v.len() <= i / 64 {
            v.push(0)
        }
        v[i / 64] |= 1 << (i % 64);
    }
    pub fn has(&self, i: usize) -> bool {
        match &self.0 {
            None => false,
            Some(v) => v.len() > i / 64 && v[i / 64] >> (i % 64) & 1 == 1,
        }
    }
    pub fn iter(&self) -> impl Iterator<Item = usize> + '_ {
        let n = self.0.as_ref().map(|v| v.len() * 64).unwrap_or(0);
        (0..n).filter(move |i| self.has(*i))
    }
    pub fn union(&mut self, o: &Tags) {
        match (&mut self.0, &o.0) {
            (_, None) => {}
            (s @ None, Some(_)) => *s = o.0.clone(),
            (Some(a), Some(b)) => {
                if Rc::ptr_eq(a, b) {
                    return;
                }
                let need = b.iter().enumerate().any(|(i, w)| a.get(i).copied().unwrap_or(0) | w != a.get(i).copied().unwrap_or(0));
                if need {
                    let v = Rc::make_mut(a);
                    while v.len() < b.len() {
                        v.push(0)
                    }
                    for (i, w) in b.iter().enumerate() {
                        v[i] |= w
                    }
                }
            }
        }
    }
    pub fn or(&self, o: &Tags) -> Tags {
        let mut t = self.clone();
        t.union(o);
        t
    }
}

pub type Sym = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct SymInfo {
    pub ks: KS,
    /// false: token, true: character
    pub chr: bool,
    /// position in creation order is meaningful
    pub ord: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Side {
    Start,
    End,
    Mixed,
}

/// abstract source position
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct PosV {
    pub side: Side,
    /// the one token it belongs to, if exactly known
    pub sym: Option<Sym>,
    /// otherwise: kinds of the tokens it may start / end at
    pub ks: KS,
    /// may come from the span of a tree node
    pub node: bool,
    /// may be the constant 0 instead
    pub zero: bool,
    /// constant offsets added to the position
    pub add: Vec<i64>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct StrV {
    pub sym: Option<Sym>,
    pub konst: Option<Rc<str>>,
    /// kinds of tokens the text may be of (when sym unknown)
    pub ks: KS,
    /// may be anything else
    pub other: bool,
    /// the decoded text of the string literals from the first through the last, joined
    pub lit: Option<(Sym, Sym)>,
}
impl StrV {
    pub fn any() -> StrV {
        StrV { sym: None, konst: None, ks: KS::EMPTY, other: true, lit: None }
    }
    pub fn lit(a: Sym, b: Sym) -> V {
        V::Str(Rc::new(StrV { lit: Some((a, b)), ..StrV::any() }))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Base {
    L(u32),
    C(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum PE {
    Field(u32),
    Down(u32),
    Box,
    Snap,
    Elem,
    Idx(u32),
    /// sub-slice starting at
    From(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Loc {
    pub base: Base,
    pub path: Vec<PE>,
    pub ty: TyId,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct AdtV {
    pub ty: TyId,
    pub vars: Vec<(u32, Vec<V>)>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct NodeV {
    pub ty: TyId,
    /// possible variants (sorted); empty = all
    pub vars: Vec<u32>,
    pub tags: Tags,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct VecV {
    /// exact contents, in order
    pub exact: Option<Vec<V>>,
    /// otherwise: join of elements (None: no element)
    pub elem: Option<V>,
    /// at least this many elements (capped)
    pub min: u8,
}
pub const VEC_EXACT: usize = 40;
pub const VEC_MIN: u8 = 3;
impl VecV {
    pub fn empty() -> VecV {
        VecV { exact: Some(vec![]), elem: None, min: 0 }
    }
    pub fn nonempty(&self) -> bool {
        match &self.exact {
            Some(v) => !v.is_empty(),
            None => self.min > 0,
        }
    }
    pub fn surely_empty(&self) -> bool {
        match &self.exact {
            Some(v) => v.is_empty(),
            None => self.elem.is_none(),
        }
    }
    pub fn minlen(&self) -> usize {
        match &self.exact {
            Some(v) => v.len(),
            None => self.min as usize,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum DiscrOf {
    Tok(Sym),
    Kw(Sym),
    Place(Loc),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum V {
    Dead,
    /// a flag that depends on an option that may only change the warnings
    Warn,
    Any(Tags),
    Int(Rc<Vec<i128>>),
    /// base + k, base: numbered unknown (0 = argument counter at function entry)
    Lin(u32, i64),
    Tok(Sym),
    TokC(u32),
    Kw(Sym),
    KwC(u32),
    Ch(Sym),
    /// payload integer of a token plus a constant
    Pay(Sym, i64),
    Pos(Rc<PosV>),
    Adt(Rc<AdtV>),
    Node(Rc<NodeV>),
    Tup(Rc<Vec<V>>),
    Ref(Rc<Loc>),
    RefVal(Rc<V>),
    Str(Rc<StrV>),
    Vec(Rc<VecV>),
    /// remaining elements; flag: elements are references into a collection
    Iter(Rc<VecV>),
    Box(Rc<V>),
    Fn(ir::FnId),
    Lexer(Sym),
    /// character iterator (peeked character if any)
    Chars(Option<Sym>, Sym),
    Discr(Rc<DiscrOf>),
}
impl V {
    pub fn any() -> V {
        V::Any(Tags::new())
    }
    pub fn int(i: i128) -> V {
        V::Int(Rc::new(vec![i]))
    }
    pub fn bool(b: bool) -> V {
        V::int(b as i128)
    }
    pub fn anystr() -> V {
        V::Str(Rc::new(StrV::any()))
    }
    pub fn unit() -> V {
        V::Tup(Rc::new(vec![]))
    }
    pub fn as_int(&self) -> Option<i128> {
        match self {
            V::Int(v) if v.len() == 1 => Some(v[0]),
            _ => None,
        }
    }
    /// all tags contained in the value
    pub fn tags(&self, out: &mut Tags) {
        match self {
            V::Any(t) => out.union(t),
            V::Node(n) => out.union(&n.tags),
            V::Adt(a) => a.vars.iter().for_each(|(_, f)| f.iter().for_each(|v| v.tags(out))),
            V::Tup(v) => v.iter().for_each(|v| v.tags(out)),
            V::RefVal(v) | V::Box(v) => v.tags(out),
            V::Vec(v) | V::Iter(v) => {
                if let Some(x) = &v.exact {
                    x.iter().for_each(|v| v.tags(out))
                }
                if let Some(x) = &v.elem {
                    x.tags(out)
                }
            }
            _ => {}
        }
    }
    pub fn map_tags(&self, f: &dyn Fn(&Tags) -> Tags) -> V {
        match self {
            V::Any(t) if !t.is_empty() => V::Any(f(t)),
            V::Node(n) if !n.tags.is_empty() => V::Node(Rc::new(NodeV { ty: n.ty, vars: n.vars.clone(), tags: f(&n.tags) })),
            V::Adt(a) => V::Adt(Rc::new(AdtV { ty: a.ty, vars: a.vars.iter().map(|(k, x)| (*k, x.iter().map(|v| v.map_tags(f)).collect())).collect() })),
            V::Tup(v) => V::Tup(Rc::new(v.iter().map(|v| v.map_tags(f)).collect())),
            V::RefVal(v) => V::RefVal(Rc::new(v.map_tags(f))),
            V::Box(v) => V::Box(Rc::new(v.map_tags(f))),
            V::Vec(v) => V::Vec(Rc::new(map_vec(v, &|x| x.map_tags(f)))),
            V::Iter(v) => V::Iter(Rc::new(map_vec(v, &|x| x.map_tags(f)))),
            v => v.clone(),
        }
    }
    pub fn has_warn(&self) -> bool {
        match self {
            V::Warn => true,
            V::Adt(a) if a.ty == crate::prog::pg().opts => false,
            V::Adt(a) => a.vars.iter().any(|(_, x)| x.iter().any(|v| v.has_warn())),
            V::Tup(v) => v.iter().any(|v| v.has_warn()),
            V::RefVal(v) | V::Box(v) => v.has_warn(),
            V::Vec(v) | V::Iter(v) => v.exact.iter().any(|x| x.iter().any(|v| v.has_warn())) || v.elem.iter().any(|v| v.has_warn()),
            _ => false,
        }
    }
    pub fn each_sym(&self, f: &mut dyn FnMut(Sym)) {
        match self {
            V::Tok(s) | V::Kw(s) | V::Ch(s) | V::Lexer(s) | V::Pay(s, _) => f(*s),
            V::Chars(a, b) => {
                if let Some(a) = a {
                    f(*a)
                }
                f(*b)
            }
            V::Pos(p) => {
                if let Some(s) = p.sym {
                    f(s)
                }
            }
            V::Str(p) => {
                if let Some(s) = p.sym {
                    f(s)
                }
                if let Some((a, b)) = p.lit {
                    f(a);
                    f(b)
                }
            }
            V::Adt(a) => a.vars.iter().for_each(|(_, x)| x.iter().for_each(|v| v.each_sym(f))),
            V::Tup(v) => v.iter().for_each(|v| v.each_sym(f)),
            V::RefVal(v) | V::Box(v) => v.each_sym(f),
            V::Vec(v) | V::Iter(v) => {
                if let Some(x) = &v.exact {
                    x.iter().for_each(|v| v.each_sym(f))
                }
                if let Some(x) = &v.elem {
                    x.each_sym(f)
                }
            }
            V::Discr(d) => match &**d {
                DiscrOf::Tok(s) | DiscrOf::Kw(s) => f(*s),
                _ => {}
            },
            _ => {}
        }
    }
    /// symbols with whether they occur as a plain token
    pub fn each_occ(&self, f: &mut dyn FnMut(Sym, bool)) {
        match self {
            V::Tok(s) | V::Kw(s) => f(*s, true),
            V::Adt(a) => a.vars.iter().for_each(|(_, x)| x.iter().for_each(|v| v.each_occ(f))),
            V::Tup(v) => v.iter().for_each(|v| v.each_occ(f)),
            V::RefVal(v) | V::Box(v) => v.each_occ(f),
            V::Vec(v) | V::Iter(v) => {
                if let Some(x) = &v.exact {
                    x.iter().for_each(|v| v.each_occ(f))
                }
                if let Some(x) = &v.elem {
                    x.each_occ(f)
                }
            }
            v => v.each_sym(&mut |s| f(s, false)),
        }
    }
    pub fn has_syms(&self) -> bool {
        let mut r = false;
        self.each_sym(&mut |_| r = true);
        r
    }
    pub fn has_refs(&self) -> bool {
        match self {
            V::Ref(_) => true,
            V::Discr(d) => matches!(&**d, DiscrOf::Place(_)),
            V::Adt(a) => a.vars.iter().any(|(_, x)| x.iter().any(|v| v.has_refs())),
            V::Tup(v) => v.iter().any(|v| v.has_refs()),
            V::RefVal(v) | V::Box(v) => v.has_refs(),
            V::Vec(v) | V::Iter(v) => v.exact.iter().any(|x| x.iter().any(|v| v.has_refs())) || v.elem.iter().any(|v| v.has_refs()),
            _ => false,
        }
    }
    pub fn map_sym(&self, f: &dyn Fn(Sym) -> Sym) -> V {
        if !self.has_syms() {
            return self.clone();
        }
        match self {
            V::Tok(s) => V::Tok(f(*s)),
            V::Kw(s) => V::Kw(f(*s)),
            V::Ch(s) => V::Ch(f(*s)),
            V::Pay(s, i) => V::Pay(f(*s), *i),
            V::Lexer(s) => V::Lexer(f(*s)),
            V::Chars(a, b) => V::Chars(a.map(|a| f(a)), f(*b)),
            V::Pos(p) => V::Pos(Rc::new(PosV { sym: p.sym.map(|s| f(s)), ..(**p).clone() })),
            V::Str(p) => V::Str(Rc::new(StrV { sym: p.sym.map(|s| f(s)), lit: p.lit.map(|(a, b)| (f(a), f(b))), ..(**p).clone() })),
            V::Adt(a) => V::Adt(Rc::new(AdtV { ty: a.ty, vars: a.vars.iter().map(|(k, x)| (*k, x.iter().map(|v| v.map_sym(f)).collect())).collect() })),
            V::Tup(v) => V::Tup(Rc::new(v.iter().map(|v| v.map_sym(f)).collect())),
            V::RefVal(v) => V::RefVal(Rc::new(v.map_sym(f))),
            V::Box(v) => V::Box(Rc::new(v.map_sym(f))),
            V::Vec(v) => V::Vec(Rc::new(map_vec(v, &|x| x.map_sym(f)))),
            V::Iter(v) => V::Iter(Rc::new(map_vec(v, &|x| x.map_sym(f)))),
            V::Discr(d) => match &**d {
                DiscrOf::Tok(s) => V::Discr(Rc::new(DiscrOf::Tok(f(*s)))),
                DiscrOf::Kw(s) => V::Discr(Rc::new(DiscrOf::Kw(f(*s)))),
                _ => self.clone(),
            },
            v => v.clone(),
        }
    }
    pub fn has_lin(&self) -> bool {
        match self {
            V::Lin(0, _) => true,
            V::Adt(a) => a.vars.iter().any(|(_, x)| x.iter().any(|v| v.has_lin())),
            V::Tup(v) => v.iter().any(|v| v.has_lin()),
            V::RefVal(v) | V::Box(v) => v.has_lin(),
            V::Vec(v) | V::Iter(v) => v.exact.iter().any(|x| x.iter().any(|v| v.has_lin())) || v.elem.iter().any(|v| v.has_lin()),
            _ => false,
        }
    }
    /// change the values relative to the argument counter; the counter itself (inside the parser) only if asked to
    pub fn map_lin(&self, f: &dyn Fn(i64) -> V, counter: bool) -> V {
        if !self.has_lin() {
            return self.clone();
        }
        match self {
            V::Lin(0, k) => f(*k),
            V::Adt(a) if a.ty == crate::prog::pg().parser && !counter => self.clone(),
            V::Adt(a) => V::Adt(Rc::new(AdtV { ty: a.ty, vars: a.vars.iter().map(|(k, x)| (*k, x.iter().map(|v| v.map_lin(f, counter)).collect())).collect() })),
            V::Tup(v) => V::Tup(Rc::new(v.iter().map(|v| v.map_lin(f, counter)).collect())),
            V::RefVal(v) => V::RefVal(Rc::new(v.map_lin(f, counter))),
            V::Box(v) => V::Box(Rc::new(v.map_lin(f, counter))),
            V::Vec(v) => V::Vec(Rc::new(map_vec(v, &|x| x.map_lin(f, counter)))),
            V::Iter(v) => V::Iter(Rc::new(map_vec(v, &|x| x.map_lin(f, counter)))),
            v => v.clone(),
        }
    }
    pub fn has_elems(&self) -> bool {
        match self {
            V::Adt(a) => a.vars.iter().any(|(_, x)| x.iter().any(|v| v.has_elems())),
            V::Tup(v) => v.iter().any(|v| v.has_elems()),
            V::RefVal(v) | V::Box(v) => v.has_elems(),
            V::Vec(v) | V::Iter(v) => v.elem.is_some() || v.exact.iter().any(|x| x.iter().any(|v| v.has_elems())),
            V::Node(n) => n.vars.len() > 2,
            _ => false,
        }
    }
    /// coarsen summarised collection elements and large variant sets
    pub fn widen_elems(&self, p: &crate::prog::Prog) -> V {
        if !self.has_elems() {
            return self.clone();
        }
        match self {
            V::Adt(a) => V::Adt(Rc::new(AdtV { ty: a.ty, vars: a.vars.iter().map(|(k, x)| (*k, x.iter().map(|v| v.widen_elems(p)).collect())).collect() })),
            V::Tup(v) => V::Tup(Rc::new(v.iter().map(|v| v.widen_elems(p)).collect())),
            V::RefVal(v) => V::RefVal(Rc::new(v.widen_elems(p))),
            V::Box(v) => V::Box(Rc::new(v.widen_elems(p))),
            V::Vec(v) | V::Iter(v) => {
                let n = VecV {
                    exact: v.exact.as_ref().map(|x| x.iter().map(|v| v.widen_elems(p)).collect()),
                    elem: v.elem.as_ref().map(|x| x.blur(p)),
                    min: v.min,
                };
                if matches!(self, V::Vec(_)) {
                    V::Vec(Rc::new(n))
                } else {
                    V::Iter(Rc::new(n))
                }
            }
            V::Node(n) if n.vars.len() > 2 => V::Node(Rc::new(NodeV { ty: n.ty, vars: many(p, n), tags: n.tags.clone() })),
            v => v.clone(),
        }
    }
    /// forget which tokens positions and texts belong to
    fn blur(&self, p: &crate::prog::Prog) -> V {
        match self {
            V::Pos(q) => {
                let any = q.sym.is_some() || !q.ks.empty();
                V::Pos(Rc::new(PosV { sym: None, ks: if any { p.full() } else { KS::EMPTY }, ..(**q).clone() }))
            }
            V::Str(q) => {
                let any = q.sym.is_some() || !q.ks.empty();
                V::Str(Rc::new(StrV { sym: None, konst: None, ks: if any { p.full() } else { KS::EMPTY }, other: q.other || q.konst.is_some(), lit: None }))
            }
            V::Adt(a) => V::Adt(Rc::new(AdtV { ty: a.ty, vars: a.vars.iter().map(|(k, x)| (*k, x.iter().map(|v| v.blur(p)).collect())).collect() })),
            V::Tup(v) => V::Tup(Rc::new(v.iter().map(|v| v.blur(p)).collect())),
            V::RefVal(v) => V::RefVal(Rc::new(v.blur(p))),
            V::Box(v) => V::Box(Rc::new(v.blur(p))),
            V::Vec(v) => V::Vec(Rc::new(map_vec(v, &|x| x.blur(p)))),
            V::Iter(v) => V::Iter(Rc::new(map_vec(v, &|x| x.blur(p)))),
            V::Node(n) if n.vars.len() > 1 => V::Node(Rc::new(NodeV { ty: n.ty, vars: many(p, n), tags: n.tags.clone() })),
            v => v.clone(),
        }
    }
    pub fn each_pos(&self) -> bool {
        match self {
            V::Pos(p) => p.sym.is_none() && !p.ks.empty(),
            V::Str(p) => p.sym.is_none() && !p.ks.empty(),
            V::Adt(a) => a.vars.iter().any(|(_, x)| x.iter().any(|v| v.each_pos())),
            V::Tup(v) => v.iter().any(|v| v.each_pos()),
            V::RefVal(v) | V::Box(v) => v.each_pos(),
            V::Vec(v) | V::Iter(v) => v.exact.iter().any(|x| x.iter().any(|v| v.each_pos())) || v.elem.iter().any(|v| v.each_pos()),
            _ => false,
        }
    }
    pub fn has_pos(&self, q: &PosV) -> bool {
        match self {
            V::Pos(p) => **p == *q,
            V::Adt(a) => a.vars.iter().any(|(_, x)| x.iter().any(|v| v.has_pos(q))),
            V::Tup(v) => v.iter().any(|v| v.has_pos(q)),
            V::RefVal(v) | V::Box(v) => v.has_pos(q),
            V::Vec(v) | V::Iter(v) => v.exact.iter().any(|x| x.iter().any(|v| v.has_pos(q))) || v.elem.iter().any(|v| v.has_pos(q)),
            _ => false,
        }
    }
    /// write one position for another that is equal
    pub fn same_pos(&self, from: &PosV, to: &V) -> V {
        if !self.has_pos(from) {
            return self.clone();
        }
        match self {
            V::Pos(_) => to.clone(),
            V::Adt(a) => V::Adt(Rc::new(AdtV { ty: a.ty, vars: a.vars.iter().map(|(k, x)| (*k, x.iter().map(|v| v.same_pos(from, to)).collect())).collect() })),
            V::Tup(v) => V::Tup(Rc::new(v.iter().map(|v| v.same_pos(from, to)).collect())),
            V::RefVal(v) => V::RefVal(Rc::new(v.same_pos(from, to))),
            V::Box(v) => V::Box(Rc::new(v.same_pos(from, to))),
            V::Vec(v) => V::Vec(Rc::new(map_vec(v, &|x| x.same_pos(from, to)))),
            V::Iter(v) => V::Iter(Rc::new(map_vec(v, &|x| x.same_pos(from, to)))),
            v => v.clone(),
        }
    }
    /// coarsen the kinds recorded in positions and texts of unknown tokens
    pub fn widen_pos(&self, f: &dyn Fn(&KS) -> KS) -> V {
        if !self.each_pos() {
            return self.clone();
        }
        match self {
            V::Pos(p) => V::Pos(Rc::new(PosV { ks: f(&p.ks), ..(**p).clone() })),
            V::Str(p) => V::Str(Rc::new(StrV { ks: f(&p.ks), ..(**p).clone() })),
            V::Adt(a) => V::Adt(Rc::new(AdtV { ty: a.ty, vars: a.vars.iter().map(|(k, x)| (*k, x.iter().map(|v| v.widen_pos(f)).collect())).collect() })),
            V::Tup(v) => V::Tup(Rc::new(v.iter().map(|v| v.widen_pos(f)).collect())),
            V::RefVal(v) => V::RefVal(Rc::new(v.widen_pos(f))),
            V::Box(v) => V::Box(Rc::new(v.widen_pos(f))),
            V::Vec(v) => V::Vec(Rc::new(map_vec(v, &|x| x.widen_pos(f)))),
            V::Iter(v) => V::Iter(Rc::new(map_vec(v, &|x| x.widen_pos(f)))),
            v => v.clone(),
        }
    }
    pub fn map_ref(&self, f: &mut dyn FnMut(&Loc) -> V) -> V {
        if !self.has_refs() {
            return self.clone();
        }
        match self {
            V::Ref(l) => f(l),
            V::Discr(d) if matches!(&**d, DiscrOf::Place(_)) => V::any(),
            V::Adt(a) => V::Adt(Rc::new(AdtV { ty: a.ty, vars: a.vars.iter().map(|(k, x)| (*k, x.iter().map(|v| v.map_ref(f)).collect())).collect() })),
            V::Tup(v) => V::Tup(Rc::new(v.iter().map(|v| v.map_ref(f)).collect())),
            V::RefVal(v) => V::RefVal(Rc::new(v.map_ref(f))),
            V::Box(v) => V::Box(Rc::new(v.map_ref(f))),
            V::Vec(v) | V::Iter(v) => {
                let n = VecV { exact: v.exact.as_ref().map(|x| x.iter().map(|v| v.map_ref(f)).collect()), elem: v.elem.as_ref().map(|x| x.map_ref(f)), min: v.min };
                if matches!(self, V::Vec(_)) {
                    V::Vec(Rc::new(n))
                } else {
                    V::Iter(Rc::new(n))
                }
            }
            v => v.clone(),
        }
    }
}
pub fn map_vec(v: &VecV, f: &dyn Fn(&V) -> V) -> VecV {
    VecV { exact: v.exact.as_ref().map(|x| x.iter().map(|v| f(v)).collect()), elem: v.elem.as_ref().map(|x| f(x)), min: v.min }
}
impl Default for KS {
    fn default() -> KS {
        KS::EMPTY
    }
}

/// forget the variants, except whether data may follow the statement
fn many(p: &crate::prog::Prog, n: &NodeV) -> Vec<u32> {
    match p.copy {
        Some((t, i)) if t == n.ty && !n.vars.contains(&i) => (0..p.adt(t).unwrap().variants.len() as u32).filter(|x| *x != i).collect(),
        _ => vec![],
    }
}

//! The program under analysis: dumped MIR plus derived tables.
use ir::*;
use std::collections::HashMap;
use std::sync::OnceLock;

use crate::val::{RawKS, KS};

pub struct FnInfo {
    pub succs: Vec<Vec<Bb>>,
    pub rpo: Vec<usize>,
    /// loop head -> body blocks
    pub loops: HashMap<Bb, Vec<bool>>,
    /// loop head -> locals given a new value somewhere in the loop
    pub loop_assigned: HashMap<Bb, Vec<bool>>,
    pub live_in: Vec<Vec<bool>>,
    pub addr: Vec<bool>,
    pub shape_in: Vec<Vec<bool>>,
    /// parameter's shape is examined
    pub sens: Vec<bool>,
    /// member of a recursive component
    pub rec: bool,
    pub callees: Vec<FnId>,
}

pub struct Prog {
    pub pr: Program,
    pub tok: TyId,
    pub kw: TyId,
    pub range: TyId,
    pub parser: TyId,
    /// the field of the parser that holds the current token
    /// roles of the parser's fields
    pub roles: Vec<&'static str>,
    pub token_field: Option<usize>,
    pub lexer: TyId,
    pub issues: TyId,
    pub issue: TyId,
    pub level: TyId,
    pub opts: TyId,
    pub perr: Option<TyId>,
    /// tags of absent optional fields
    pub tag_none: HashMap<(TyId, usize, usize), usize>,
    pub ast: Vec<bool>,
    /// kind -> (token variant, keyword variant)
    pub kinds: Vec<(usize, usize)>,
    pub tokbase: Vec<usize>,
    pub ident: usize,
    pub eof: usize,
    pub semi: usize,
    /// the statement whose data follows it
    pub copy: Option<(TyId, u32)>,
    pub start: usize,
    pub all_: RawKS,
    /// kinds that are some token (not START)
    pub full_: RawKS,
    pub idents_: RawKS,
    pub literals_: RawKS,
    pub by_tokvar_: Vec<RawKS>,
    pub by_kw_: Vec<RawKS>,
    pub tag_adt: HashMap<(TyId, usize), usize>,
    pub tag_field: HashMap<(TyId, usize, usize), usize>,
    pub tag_names: Vec<String>,
    pub info: Vec<OnceLock<FnInfo>>,
    pub rec: Vec<bool>,
    pub kindless: Vec<bool>,
    pub sens: Vec<Vec<bool>>,
}

pub static PROG: OnceLock<Prog> = OnceLock::new();
pub fn pg() -> &'static Prog {
    PROG.get().unwrap()
}

pub const NPARAM: usize = 16;

impl Prog {
    pub fn adt(&self, t: TyId) -> Option<&Adt> {
        match &self.pr.types[t].kind {
            TyKind::Adt(a) => Some(a),
            _ => None,
        }
    }
    pub fn path(&self, t: TyId) -> &str {
        self.adt(t).map(|a| a.path.as_str()).unwrap_or("")
    }
    pub fn tyname(&self, t: TyId) -> &str {
        &self.pr.types[t].name
    }
    pub fn f(&self, f: FnId) -> &Func {
        &self.pr.fns[f]
    }
    pub fn is_enum(&self, t: TyId) -> bool {
        self.adt(t).map(|a| a.kind == AdtKind::Enum).unwrap_or(false)
    }
    pub fn discr_to_var(&self, t: TyId, d: i128) -> Option<usize> {
        self.adt(t)?.variants.iter().position(|v| v.discr == d)
    }
    pub fn find_ty(&self, path: &str) -> Option<TyId> {
        (0..self.pr.types.len()).find(|t| self.path(*t) == path)
    }
    pub fn kind_name(&self, k: usize) -> String {
        if k == self.start {
            return "START".into();
        }
        let (t, w) = self.kinds[k];
        let tn = &self.adt(self.tok).unwrap().variants[t].name;
        if t == self.ident {
            self.adt(self.kw).unwrap().variants[w].name.clone()
        } else {
            format!("<{}>", tn)
        }
    }
    /// the kind of a token that is nothing but its kind
    pub fn kind_named(&self, n: &str) -> Option<usize> {
        let i = self.adt(self.tok)?.variants.iter().position(|v| v.name == n && v.fields.is_empty())?;
        Some(self.tokbase[i])
    }
    pub fn ks_names(&self, k: &KS) -> String {
        let n = k.count();
        if n > 24 {
            let m = self.full().minus(k);
            if m.count() <= 24 {
                return format!("any-but[{}]", m.iter().map(|k| self.kind_name(k)).collect::<Vec<_>>().join(" "));
            }
            return format!("{} kinds", n);
        }
        let mut v: Vec<String> = k.iter().map(|k| self.kind_name(k)).collect();
        v.sort();
        v.join(" ")
    }
    pub fn new(pr: Program) -> Result<Prog, String> {
        let find = |p: &str| -> Result<TyId, String> {
            (0..pr.types.len())
                .find(|t| matches!(&pr.types[*t].kind, TyKind::Adt(a) if a.path == p))
                .ok_or_else(|| format!("anchor missing: type {}", p))
        };
        let tok = find("lexer::Token")?;
        let kw = find("keywords::Keyword")?;
        let parser = find("parser::Parser")?;
        let lexer = find("lexer::Lexer")?;
        let issues = find("issue::Issues")?;
        let issue = find("issue::Issue")?;
        let level = find("issue::Level")?;
        let opts = find("ParseOptions")?;
        let perr = find("parser::ParseError").ok();
        let stmt = find("statement::Statement")?;
        let range = (0..pr.types.len())
            .find(|t| matches!(&pr.types[*t].kind, TyKind::Adt(a) if a.path == "core::ops::Range" && a.args.first().map(|x| pr.types[*x].name == "usize").unwrap_or(false)))
            .ok_or("anchor missing: Range<usize>")?;
        // AST: local ADTs reachable from Statement
        let mut ast = vec![false; pr.types.len()];
        let mut seen = vec![false; pr.types.len()];
        let mut st = vec![stmt];
        while let Some(t) = st.pop() {
            if seen[t] {
                continue;
            }
            seen[t] = true;
            match &pr.types[t].kind {
                TyKind::Adt(a) => {
                    if a.local {
                        ast[t] = true;
                    }
                    if a.local {
                        for v in &a.variants {
                            for f in &v.fields {
                                st.push(f.ty)
                            }
                        }
                    } else {
                        st.extend(a.args.iter().copied());
                    }
                }
                TyKind::Tuple(v) => st.extend(v.iter().copied()),
                TyKind::Ref { to, .. } => st.push(*to),
                TyKind::Slice(t) | TyKind::Array(t, _) => st.push(*t),
                _ => {}
            }
        }
        let adt = |t: TyId| match &pr.types[t].kind {
            TyKind::Adt(a) => a,
            _ => unreachable!(),
        };
        let ta = adt(tok);
        let ka = adt(kw);
        let ident = ta.variants.iter().position(|v| v.name == "Ident").ok_or("anchor missing: Token::Ident")?;
        let eofv = ta.variants.iter().position(|v| v.name == "Eof").ok_or("anchor missing: Token::Eof")?;
        let mut kinds = vec![];
        let mut tokbase = vec![];
        for (i, _) in ta.variants.iter().enumerate() {
            tokbase.push(kinds.len());
            if i == ident {
                for k in 0..ka.variants.len() {
                    kinds.push((i, k))
                }
            } else {
                kinds.push((i, 0))
            }
        }
        let start = kinds.len();
        if start + 1 > crate::val::KW * 64 {
            return Err("too many token kinds".into());
        }
        let full = RawKS::range(start);
        let mut all = full;
        all.add(start);
        let mut by_tokvar = vec![RawKS::empty(); ta.variants.len()];
        let mut by_kw = vec![RawKS::empty(); ka.variants.len()];
        for (i, (t, k)) in kinds.iter().enumerate() {
            by_tokvar[*t].add(i);
            if *t == ident {
                by_kw[*k].add(i)
            }
        }
        let idents = by_tokvar[ident];
        let eof = tokbase[eofv];
        let copy = (0..pr.types.len()).find_map(|t| match &pr.types[t].kind {
            TyKind::Adt(a) if a.path == "statement::Statement" => a.variants.iter().position(|v| v.name == "Copy").map(|i| (t, i as u32)),
            _ => None,
        });
        let semi = tokbase[ta.variants.iter().position(|v| v.name == "SemiColon").ok_or("anchor missing: Token::SemiColon")?];
        let mut literals = RawKS::empty();
        for (i, v) in ta.variants.iter().enumerate() {
            if matches!(v.name.as_str(), "SingleQuotedString" | "DoubleQuotedString") {
                literals.add(tokbase[i])
            }
        }
        let mut tag_adt = HashMap::new();
        let mut tag_field = HashMap::new();
        let mut tag_none = HashMap::new();
        let mut tag_names: Vec<String> = (0..NPARAM).map(|i| format!("param{}", i)).collect();
        for t in 0..pr.types.len() {
            if !ast[t] {
                continue;
            }
            let a = adt(t);
            for (vi, v) in a.variants.iter().enumerate() {
                let n = if a.kind == AdtKind::Enum { format!("{}::{}", a.path, v.name) } else { a.path.clone() };
                tag_adt.insert((t, vi), tag_names.len());
                tag_names.push(n.clone());
                for (fi, f) in v.fields.iter().enumerate() {
                    tag_field.insert((t, vi, fi), tag_names.len());
                    tag_names.push(format!("{}.{}", n, f.name));
                    let opt = match &pr.types[f.ty].kind {
                        TyKind::Bool => true,
                        TyKind::Adt(a) => matches!(a.path.as_str(), "core::option::Option" | "alloc::vec::Vec"),
                        _ => false,
                    };
                    if opt {
                        tag_none.insert((t, vi, fi), tag_names.len());
                        tag_names.push(format!("{}.{} absent", n, f.name));
                    }
                }
            }
        }
        let n = pr.fns.len();
        // what the parser's fields are for: by name, or by type where that leaves no choice
        let mut roles: Vec<&'static str> = vec![];
        if let TyKind::Adt(a) = &pr.types[parser].kind {
            let fl = &a.variants[0].fields;
            let of = |name: &'static str, ok: &dyn Fn(&TyKind, TyId) -> bool, not: &[&str]| -> Option<usize> {
                let c: Vec<usize> = (0..fl.len()).filter(|i| ok(&pr.types[fl[*i].ty].kind, fl[*i].ty)).collect();
                c.iter().copied().find(|i| fl[*i].name == name).or_else(|| {
                    let c: Vec<usize> = c.into_iter().filter(|i| !not.contains(&fl[*i].name.as_str())).collect();
                    if c.len() == 1 { Some(c[0]) } else { None }
                })
            };
            roles = vec![""; fl.len()];
            for (n, i) in [
                ("token", of("token", &|_, t| t == tok, &["delimiter", "outer_delimiter"])),
                ("delimiter", of("delimiter", &|_, t| t == tok, &["token", "outer_delimiter"])),
                ("arg", of("arg", &|k, _| matches!(k, TyKind::Int { signed: false, .. }), &[])),
                ("permit_compound_statements", of("permit_compound_statements", &|k, _| matches!(k, TyKind::Bool), &[])),
            ] {
                roles[i.ok_or_else(|| format!("anchor missing: field {} of the parser", n))?] = n
            }
        }
        // the delimiter of the outermost statement, if that is kept apart
        if let TyKind::Adt(a) = &pr.types[parser].kind {
            let rest: Vec<usize> = a.variants[0].fields.iter().enumerate().filter(|(i, f)| f.ty == tok && roles[*i].is_empty()).map(|x| x.0).collect();
            if let [i] = rest[..] {
                roles[i] = "outer"
            }
        }
        let token_field = roles.iter().position(|r| *r == "token");
        let mut p = Prog {
            pr,
            tok,
            kw,
            range,
            parser,
            token_field,
            roles,
            lexer,
            issues,
            issue,
            level,
            opts,
            perr,
            tag_none,
            ast,
            kinds,
            tokbase,
            ident,
            eof,
            semi,
            copy,
            start,
            all_: all,
            full_: full,
            idents_: idents,
            literals_: literals,
            by_tokvar_: by_tokvar,
            by_kw_: by_kw,
            tag_adt,
            tag_field,
            tag_names,
            info: (0..n).map(|_| OnceLock::new()).collect(),
            rec: vec![false; n],
            kindless: vec![],
            sens: vec![],
        };
        p.rec = crate::cfg::recursive(&p);
        p.kindless = crate::cfg::kindless(&p);
        p.sens = crate::cfg::sensitivity(&p);
        Ok(p)
    }
    pub fn all(&self) -> KS {
        self.all_.ks()
    }
    pub fn full(&self) -> KS {
        self.full_.ks()
    }
    pub fn idents(&self) -> KS {
        self.idents_.ks()
    }
    /// string literals
    pub fn literals(&self) -> KS {
        self.literals_.ks()
    }
    pub fn by_tokvar(&self, i: usize) -> KS {
        self.by_tokvar_[i].ks()
    }
    pub fn by_kw(&self, i: usize) -> KS {
        self.by_kw_[i].ks()
    }
    /// does the function's result type contain tree nodes?
    pub fn returns_tree(&self, f: FnId) -> bool {
        fn has(p: &Prog, t: TyId, d: u32) -> bool {
            if p.ast[t] {
                return true;
            }
            if d == 0 {
                return false;
            }
            match &p.pr.types[t].kind {
                TyKind::Tuple(v) => v.iter().any(|t| has(p, *t, d - 1)),
                TyKind::Adt(a) => a.args.iter().any(|t| has(p, *t, d - 1)),
                _ => false,
            }
        }
        has(self, self.pr.fns[f].locals[0].ty, 5)
    }
    pub fn info(&self, f: FnId) -> &FnInfo {
        self.info[f].get_or_init(|| crate::cfg::analyse(self, f))
    }
    pub fn type_of_place(&self, f: &Func, p: &Place) -> TyId {
        let mut t = f.locals[p.local].ty;
        for e in &p.proj {
            t = match e {
                Proj::Field(_, t) => *t,
                Proj::Downcast(_) => t,
                Proj::Deref => match &self.pr.types[t].kind {
                    TyKind::Ref { to, .. } | TyKind::Ptr { to, .. } => *to,
                    TyKind::Adt(a) if a.kind == AdtKind::Box => a.args[0],
                    _ => t,
                },
                Proj::Index(_) | Proj::ConstIndex { .. } => match &self.pr.types[t].kind {
                    TyKind::Slice(t) | TyKind::Array(t, _) => *t,
                    _ => t,
                },
                Proj::Subslice { .. } | Proj::Opaque => t,
            };
        }
        t
    }
    pub fn short(&self, f: FnId) -> String {
        self.short_of(self.f(f))
    }
    pub fn short_of(&self, fun: &Func) -> String {
        // stable, line-free name
        let mut s = fun.path.replace("::<'a, 'b>", "").replace("::<'a>", "").replace("<'a>", "");
        if fun.is_closure {
            // keep
        }
        if s.len() > 120 {
            s.truncate(120)
        }
        s
    }
}

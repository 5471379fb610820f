//! Semantics of the boundary: lexer (in token mode) and the standard library.
use crate::lex::Role;
use crate::interp::*;
use crate::prog::*;
use crate::state::*;
use crate::val::*;
use ir::*;
use std::rc::Rc;

pub fn opt_none(ty: TyId) -> V {
    V::Adt(Rc::new(AdtV { ty, vars: vec![(0, vec![])] }))
}
pub fn opt_some(ty: TyId, v: V) -> V {
    V::Adt(Rc::new(AdtV { ty, vars: vec![(1, vec![v])] }))
}
pub fn opt_both(ty: TyId, v: V) -> V {
    V::Adt(Rc::new(AdtV { ty, vars: vec![(0, vec![]), (1, vec![v])] }))
}

type R = Option<Vec<(St, V)>>;

impl Eng {
    pub fn mkvec(v: VecV) -> V {
        V::Vec(Rc::new(v))
    }
    /// all variants of an enum value made explicit
    pub fn expand(&mut self, st: &mut St, v: V, ty: TyId) -> V {
        match &v {
            V::Any(t) => {
                let p = pg();
                if let Some(a) = p.adt(ty) {
                    if a.kind == AdtKind::Enum && !p.ast[ty] && ty != p.tok && ty != p.kw {
                        let vars = a.variants.iter().enumerate().map(|(i, x)| (i as u32, x.fields.iter().map(|_| V::Any(t.clone())).collect())).collect();
                        return V::Adt(Rc::new(AdtV { ty, vars }));
                    }
                }
                let t = t.clone();
                self.top(st, ty, t)
            }
            _ => v,
        }
    }
    fn fork_variants(&mut self, st: St, v: V) -> Vec<(St, u32, Vec<V>)> {
        match v {
            V::Adt(a) => a.vars.iter().map(|(i, f)| (st.clone(), *i, f.clone())).collect(),
            _ => vec![],
        }
    }

    pub fn model(&mut self, at: &At, fun: &Func, g: FnId, vals: &[V], dest: &Place, st: &St) -> R {
        let p = pg();
        let gf = p.f(g);
        let path = gf.path.as_str();
        let ti = gf.trait_item.as_deref().unwrap_or("");
        let dty = p.type_of_place(fun, dest);
        let mut st = st.clone();
        let self_ty = gf.self_ty;
        if gf.local {
            if let Some(v) = self.decoder(&st, g, vals) {
                return Some(vec![(st, v)]);
            }
            if self.cfg.mode == Mode::Token {
                match crate::lex::role(g) {
                    Some(Role::New) => {
                        let s = st.fresh(KS::one(p.start), false, true);
                        return Some(vec![(st, V::Lexer(s))]);
                    }
                    Some(Role::Next) => return Some(self.lex(st, &vals[0], dty)),
                    Some(Role::Data) => {
                        let l = self.as_loc(&vals[0])?;
                        let w = self.local_fn(self.cur);
                        if st.g.copy == 0 {
                            self.event(&mut st, &format!("C24:{} reads data although no COPY FROM STDIN came before", w))
                        }
                        // nothing may have been read beyond the current token
                        let mut tl = l.clone();
                        let ok = match (tl.path.pop(), p.token_field) {
                            (Some(PE::Field(_)), Some(i)) => {
                                tl.path.push(PE::Field(i as u32));
                                tl.ty = p.tok;
                                match (st.get(&tl), st.get(&l)) {
                                    (V::Tok(a), V::Lexer(b)) => st.known_same(a, b),
                                    _ => false,
                                }
                            }
                            _ => false,
                        };
                        if !ok {
                            self.event(&mut st, &format!("C24:{} reads data where a token may have been read ahead", w))
                        }
                        st.g.copy = 2;
                        *self.seen.c24.entry(w).or_insert(0) += 1;
                        let d = st.fresh(KS::one(p.start), false, true);
                        let mut ks = KS::one(p.start);
                        ks.add(p.eof);
                        let s = st.fresh(ks, false, true);
                        st.set(&l, V::Lexer(s));
                        let pos = |side| V::Pos(Rc::new(PosV { side, sym: Some(d), ks: KS::EMPTY, node: false, zero: false, add: vec![] }));
                        let r = V::Adt(Rc::new(AdtV { ty: p.range, vars: vec![(0, vec![pos(Side::Start), pos(Side::End)])] }));
                        let t = V::Str(Rc::new(StrV { sym: Some(d), other: false, ..StrV::any() }));
                        return Some(vec![(st, V::Tup(Rc::new(vec![t, r])))]);
                    }
                    _ => {}
                }
                // spans of tree nodes
                if matches!(ti, "span::Spanned::span" | "span::OptSpanned::opt_span") {
                    let v = self.deref(&mut st, &vals[0]);
                    let v = self.deref(&mut st, &v);
                    if let V::Node(_) = v {
                        let r = self.top(&mut st, p.range, Default::default());
                        let r = if ti.ends_with("opt_span") {
                            if matches!(p.adt(dty), Some(a) if a.path.ends_with("Option")) && !p.ast[self_ty.unwrap_or(0)] {
                                opt_both(dty, r)
                            } else {
                                opt_both(dty, r)
                            }
                        } else {
                            r
                        };
                        return Some(vec![(st, r)]);
                    }
                    if let V::Vec(_) | V::Any(_) = v {
                        let r = self.top(&mut st, p.range, Default::default());
                        let mut o = opt_both(dty, r.clone());
                        if let (V::Vec(x), Some(t)) = (&v, self_ty) {
                            let et = elem_ty(t);
                            if x.surely_empty() {
                                o = opt_none(dty)
                            } else if x.nonempty() && p.pr.fns.iter().any(|f| f.self_ty == Some(et) && f.trait_item.as_deref() == Some("span::Spanned::span")) {
                                o = opt_some(dty, r.clone())
                            }
                        }
                        return Some(vec![(st, if ti.ends_with("opt_span") { o } else { r })]);
                    }
                }
            }
            if ti == "core::clone::Clone::clone" && gf.derived {
                let v = self.deref(&mut st, &vals[0]);
                return Some(vec![(st, v)]);
            }
            if matches!(ti, "core::cmp::PartialEq::eq" | "core::cmp::PartialEq::ne") && gf.derived {
                if let Some(t) = self_ty {
                    if t == p.tok || t == p.kw {
                        let a = self.deref(&mut st, &vals[0]);
                        let b = self.deref(&mut st, &vals[1]);
                        return Some(self.tok_eq(st, a, b, ti.ends_with("eq")));
                    }
                }
            }
            if ti.starts_with("core::fmt::") {
                let v = self.top(&mut st, dty, Default::default());
                let v = self.expand(&mut st, v, dty);
                return Some(vec![(st, v)]);
            }
            return None;
        }
        // ---- standard library ----
        if let Some(r) = self.text_model(&mut st, path, ti, vals) {
            return Some(r);
        }
        if ti == "core::cmp::PartialEq::eq" || ti == "core::cmp::PartialEq::ne" {
            if path.contains("for &A") || path.contains("PartialEq<&B>") || path == "core::cmp::PartialEq::ne" {
                // through references
                let a = self.deref(&mut st, &vals[0]);
                let a = self.deref(&mut st, &a);
                let b = self.deref(&mut st, &vals[1]);
                let b = self.deref(&mut st, &b);
                if matches!(a, V::Tok(_) | V::TokC(_) | V::Kw(_) | V::KwC(_)) && self.derived_eq() {
                    return Some(self.tok_eq(st, a, b, ti.ends_with("eq")));
                }
                if path != "core::cmp::PartialEq::ne" {
                    if let (V::Str(a), V::Str(b)) = (&a, &b) {
                        return Some(self.str_eq(st, a.clone(), b.clone(), ti.ends_with("eq")));
                    }
                }
                return None;
            }
            if path.contains("for str>::eq") {
                let a = self.deref(&mut st, &vals[0]);
                let b = self.deref(&mut st, &vals[1]);
                if let (V::Str(a), V::Str(b)) = (&a, &b) {
                    return Some(self.str_eq(st, a.clone(), b.clone(), true));
                }
                return Some(vec![(st, V::Int(Rc::new(vec![0, 1])))]);
            }
            if let Some(V::Int(_)) = vals.first().map(|v| self.deref(&mut st, v)) {
                let a = self.deref(&mut st, &vals[0]);
                let b = self.deref(&mut st, &vals[1]);
                return Some(self.binop(st, if ti.ends_with("eq") { "Eq" } else { "Ne" }, a, b));
            }
            return Some(vec![(st, V::Int(Rc::new(vec![0, 1])))]);
        }
        if ti == "core::clone::Clone::clone" || path == "core::clone::Clone::clone" {
            let v = self.deref(&mut st, &vals[0]);
            return Some(vec![(st, v)]);
        }
        if ti == "core::default::Default::default" {
            if p.path(dty) == "alloc::vec::Vec" {
                return Some(vec![(st, Self::mkvec(VecV::empty()))]);
            }
            if p.path(dty) == "core::option::Option" {
                return Some(vec![(st, opt_none(dty))]);
            }
            if matches!(p.pr.types[dty].kind, TyKind::Int { .. } | TyKind::Bool) {
                return Some(vec![(st, V::int(0))]);
            }
            return None;
        }
        match ti {
            "core::ops::Try::branch" => {
                let v = self.expand(&mut st, vals[0].clone(), gf.inputs[0]);
                let mut out = vec![];
                // ControlFlow: Continue = 0, Break = 1
                let opt = path.contains("option::Option");
                let resid = p.adt(dty).and_then(|a| a.args.first().copied()).unwrap_or(dty);
                for (s, i, f) in self.fork_variants(st, v) {
                    let r = match (opt, i) {
                        (false, 0) | (true, 1) => (0u32, vec![f[0].clone()]),
                        (false, _) => (1, vec![V::Adt(Rc::new(AdtV { ty: resid, vars: vec![(1, vec![f[0].clone()])] }))]),
                        (true, _) => (1, vec![opt_none(resid)]),
                    };
                    out.push((s, V::Adt(Rc::new(AdtV { ty: dty, vars: vec![r] }))))
                }
                return Some(out);
            }
            "core::ops::FromResidual::from_residual" => {
                if path.contains("result::Result") {
                    let e = match &vals[0] {
                        V::Adt(a) => a.vars.last().and_then(|x| x.1.first().cloned()).unwrap_or(V::any()),
                        _ => V::any(),
                    };
                    return Some(vec![(st, V::Adt(Rc::new(AdtV { ty: dty, vars: vec![(1, vec![e])] })))]);
                }
                return Some(vec![(st, opt_none(dty))]);
            }
            "core::iter::Iterator::next" => return self.iter_next(at, st, path, vals, dty),
            "core::iter::IntoIterator::into_iter" => {
                let owned = vals[0].clone();
                match &owned {
                    V::Iter(_) | V::Any(_) => return Some(vec![(st, owned)]),
                    V::Vec(v) => {
                        return Some(vec![(st, V::Iter(v.clone()))]);
                    }
                    V::Ref(_) | V::RefVal(_) => {
                        let c = self.deref(&mut st, &owned);
                        if let V::Vec(_) = &c {
                            let r = self.ref_iter(&owned, &c);
                            return Some(vec![(st, r)]);
                        }
                        if let V::Any(_) = c {
                            return Some(vec![(st, V::any())]);
                        }
                    }
                    _ => {}
                }
                return None;
            }
            "core::cmp::Ord::min" | "core::cmp::Ord::max" => {
                let min = ti.ends_with("min");
                let r = self.minmax(&mut st, &vals[0], &vals[1], min);
                return Some(vec![(st, r)]);
            }
            "core::ops::Deref::deref" | "core::ops::DerefMut::deref_mut" | "core::convert::AsRef::as_ref" | "core::borrow::Borrow::borrow" => {
                if path.contains("vec::Vec") {
                    return Some(vec![(st, vals[0].clone())]);
                }
                if path.contains("boxed::Box") {
                    if let Some(mut l) = self.as_loc(&vals[0]) {
                        let c = self.read(&mut st, &l);
                        if let V::Box(_) = c {
                            l.path.push(PE::Box);
                            l.ty = p.adt(l.ty).map(|a| a.args[0]).unwrap_or(l.ty);
                            return Some(vec![(st, V::Ref(Rc::new(l)))]);
                        }
                    }
                    let c = self.deref(&mut st, &vals[0]);
                    let c = self.deref(&mut st, &c);
                    return Some(vec![(st, V::RefVal(Rc::new(c)))]);
                }
                if path.contains("borrow::Cow") || path.contains("String") {
                    let c = self.deref(&mut st, &vals[0]);
                    let r = self.cow_str(&mut st, &c);
                    return Some(vec![(st, r)]);
                }
                return None;
            }
            "core::ops::Index::index" | "core::ops::IndexMut::index_mut" => {
                let c = self.deref(&mut st, &vals[0]);
                if let V::Vec(v) = &c {
                    return self.slice_index(at, st, &vals[0], v.clone(), &vals[1]);
                }
                if self.cfg.mode == Mode::Token {
                    if let V::Str(_) = c {
                        // slices of the source text: obligation C07
                        self.str_slice(at, &st, &vals[1]);
                        return Some(vec![(st, V::anystr())]);
                    }
                }
                return None;
            }
            "core::convert::Into::into" | "core::convert::From::from" => {
                if matches!(p.path(dty), "alloc::borrow::Cow" | "alloc::string::String") {
                    let c = vals[0].clone();
                    let r = self.cow_str(&mut st, &c);
                    return Some(vec![(st, r)]);
                }
                return None;
            }
            "alloc::string::ToString::to_string" | "alloc::borrow::ToOwned::to_owned" => return Some(vec![(st, V::anystr())]),
            _ => {}
        }
        if path.starts_with("core::fmt::") || path.starts_with("alloc::fmt::") || path == "core::hint::must_use" || ti.starts_with("core::fmt::") {
            if path == "core::hint::must_use" {
                return Some(vec![(st, vals[0].clone())]);
            }
            let v = self.top(&mut st, dty, Default::default());
            let v = self.expand(&mut st, v, dty);
            return Some(vec![(st, v)]);
        }
        if path.starts_with("core::panicking::") || path.ends_with("unwrap_failed") || path.ends_with("expect_failed") || path.contains("slice_error_fail") || path.contains("slice_index_fail") {
            let msg = vals
                .iter()
                .find_map(|v| match v {
                    V::Str(s) => s.konst.clone(),
                    _ => None,
                })
                .map(|s| format!("panic: {}", s))
                .unwrap_or_else(|| format!("panic via {}", path));
            self.panic(at, &msg, &st);
            return Some(vec![]);
        }
        let opt = path.starts_with("core::option::Option");
        let res = path.starts_with("core::result::Result");
        let name = path.rsplit("::").next().unwrap_or("");
        if opt || res {
            match name {
                "unwrap" | "expect" | "unwrap_unchecked" => {
                    let v = self.expand(&mut st, vals[0].clone(), gf.inputs[0]);
                    let mut out = vec![];
                    let good = if opt { 1 } else { 0 };
                    let mut bad = false;
                    for (s, i, f) in self.fork_variants(st.clone(), v) {
                        if i == good {
                            out.push((s, f[0].clone()))
                        } else {
                            bad = true;
                        }
                    }
                    if bad {
                        let m = match vals.get(1) {
                            Some(V::Str(s)) if s.konst.is_some() => format!("expect({:?})", s.konst.as_ref().unwrap()),
                            _ => "unwrap".to_string(),
                        };
                        let t = p.tyname(gf.inputs[0]).to_string();
                        self.panic(at, &format!("{} on {} {}", m, if opt { "None of" } else { "Err of" }, strip(&t)), &st);
                    } else {
                        self.obs.discharged += 1;
                    }
                    return Some(out);
                }
                "is_some" | "is_none" | "is_ok" | "is_err" => {
                    let l = self.as_loc(&vals[0]);
                    let v = self.deref(&mut st, &vals[0]);
                    let v = self.expand(&mut st, v, p.f(g).inputs[0]);
                    if let V::Adt(a) = &v {
                        let mut out = vec![];
                        for (i, f) in &a.vars {
                            let mut s = st.clone();
                            if a.vars.len() > 1 {
                                if let Some(l) = &l {
                                    s.set(l, V::Adt(Rc::new(AdtV { ty: a.ty, vars: vec![(*i, f.clone())] })))
                                }
                            }
                            let yes = match name {
                                "is_some" | "is_err" => *i == 1,
                                _ => *i == 0,
                            };
                            out.push((s, V::bool(yes)))
                        }
                        return Some(out);
                    }
                    return Some(vec![(st, V::Int(Rc::new(vec![0, 1])))]);
                }
                _ => return None,
            }
        }
        if path.starts_with("alloc::vec::Vec") || path.starts_with("<alloc::vec::Vec") {
            return self.vec_model(at, st, name, path, vals, dty);
        }
        if path.starts_with("core::slice::<impl") {
            return self.vec_model(at, st, name, path, vals, dty);
        }
        if path.starts_with("alloc::boxed::Box") {
            match name {
                "new" => return Some(vec![(st, V::Box(Rc::new(vals[0].clone())))]),
                "new_uninit" => return Some(vec![(st, V::Box(Rc::new(V::any())))]),
                _ => {}
            }
        }
        match path {
            "alloc::boxed::box_assume_init_into_vec_unsafe" => {
                let v = match &vals[0] {
                    V::Box(b) => (**b).clone(),
                    _ => V::any(),
                };
                let v = uninit_content(v);
                let v = match v {
                    V::Vec(_) => v,
                    V::Any(t) => Self::mkvec(VecV { exact: None, elem: Some(V::Any(t)), min: 1 }),
                    _ => Self::mkvec(VecV { exact: None, elem: Some(V::any()), min: 1 }),
                };
                return Some(vec![(st, v)]);
            }
            "core::mem::replace" | "core::mem::take" => {
                if let Some(l) = self.as_loc(&vals[0]) {
                    let old = self.read(&mut st, &l);
                    let new = if path.ends_with("take") {
                        if let V::Vec(_) = old {
                            Self::mkvec(VecV::empty())
                        } else if p.path(l.ty) == "core::option::Option" {
                            opt_none(l.ty)
                        } else if matches!(p.pr.types[l.ty].kind, TyKind::Int { .. } | TyKind::Bool) {
                            V::int(0)
                        } else {
                            return None;
                        }
                    } else {
                        vals[1].clone()
                    };
                    st.set(&l, new);
                    return Some(vec![(st, old)]);
                }
                let old = self.deref(&mut st, &vals[0]);
                return Some(vec![(st, old)]);
            }
            "core::mem::swap" => {
                if let (Some(a), Some(b)) = (self.as_loc(&vals[0]), self.as_loc(&vals[1])) {
                    let x = self.read(&mut st, &a);
                    let y = self.read(&mut st, &b);
                    st.set(&a, y);
                    st.set(&b, x);
                    return Some(vec![(st, V::unit())]);
                }
            }
            "core::mem::drop" => return Some(vec![(st, V::unit())]),
            "core::intrinsics::discriminant_value" => {
                if let Some(l) = self.as_loc(&vals[0]) {
                    let v = self.read(&mut st, &l);
                    let d = self.discr(&mut st, v, l);
                    return Some(vec![(st, d)]);
                }
                let v = self.deref(&mut st, &vals[0]);
                let d = match &v {
                    V::Tok(_) | V::Kw(_) | V::TokC(_) | V::KwC(_) => self.discr(&mut st, v.clone(), Loc { base: Base::L(0), path: vec![], ty: p.tok }),
                    V::Adt(a) if a.vars.len() == 1 => V::int(p.adt(a.ty).unwrap().variants[a.vars[0].0 as usize].discr),
                    V::Node(n) if n.vars.len() == 1 => V::int(p.adt(n.ty).unwrap().variants[n.vars[0] as usize].discr),
                    _ => V::any(),
                };
                return Some(vec![(st, d)]);
            }
            "core::str::<impl str>::parse" => {
                let r = match &vals[0] {
                    V::Str(s) => match s.sym {
                        Some(x) => V::Pay(x, 0),
                        None => V::any(),
                    },
                    _ => V::any(),
                };
                let one = |i: u32, v: V| V::Adt(Rc::new(AdtV { ty: dty, vars: vec![(i, vec![v])] }));
                let mut no = st.clone();
                let w = self.local_fn(self.cur);
                self.event(&mut no, &format!("C03:{} goes on after a text that could not be read as a value", module(&w)));
                return Some(vec![(st, one(0, r)), (no, one(1, V::any()))]);
            }
            "core::str::<impl str>::len" if self.cfg.mode == Mode::Token => {
                let v = V::any();
                return Some(vec![(st, v)]);
            }
            "core::str::<impl str>::to_ascii_uppercase" | "alloc::str::<impl str>::to_ascii_uppercase" | "alloc::str::<impl str>::to_ascii_lowercase" => return Some(vec![(st, V::anystr())]),
            _ => {}
        }
        if path.starts_with("core::str::") || path.starts_with("alloc::string::") || path.starts_with("alloc::str::") || path.starts_with("core::char::") {
            if self.cfg.mode == Mode::Char {
                if let Some(r) = self.char_model(at, &st, path, ti, vals, dty) {
                    return Some(r);
                }
            }
            // pure functions on text; nothing of interest flows out, but indexing may panic
            if gf.has_body {
                return None;
            }
            for (i, v) in vals.iter().enumerate() {
                if let V::Ref(l) = v {
                    let mutable = gf.inputs.get(i).map(|x| matches!(p.pr.types[*x].kind, TyKind::Ref { mutable: true, .. })).unwrap_or(false);
                    if mutable {
                        let l = (**l).clone();
                        st.set(&l, V::any())
                    }
                }
            }
            let v = self.top(&mut st, dty, Default::default());
            let v = self.expand(&mut st, v, dty);
            return Some(vec![(st, v)]);
        }
        if path.starts_with("alloc::borrow::Cow") {
            match name {
                "to_mut" => {
                    // a reference into the text: writes append
                    return Some(vec![(st, vals[0].clone())]);
                }
                "into_owned" => {
                    let c = vals[0].clone();
                    let r = self.cow_str(&mut st, &c);
                    return Some(vec![(st, r)]);
                }
                _ => {}
            }
        }
        // iterator adaptors over known collections
        if ti.starts_with("core::iter::Iterator::") || ti.starts_with("core::iter::DoubleEndedIterator::") {
            if let Some(r) = self.iter_model(at, &st, ti, vals, dty, g) {
                return Some(r);
            }
        }
        None
    }
    /// a function of the crate that decodes the text of a literal
    fn decoder(&mut self, st: &St, g: FnId, vals: &[V]) -> Option<V> {
        let p = pg();
        let gf = p.f(g);
        if self.cfg.mode != Mode::Token || gf.inputs.len() != vals.len() || !matches!(p.path(gf.output), "alloc::borrow::Cow" | "alloc::string::String") {
            return None;
        }
        let mut text = None;
        let mut consts = vec![];
        for (i, v) in vals.iter().enumerate() {
            match v {
                V::Str(s) => match (s.sym, text) {
                    (Some(x), None) if st.ks(x).subset(&p.literals()) && !s.other => {
                        text = Some((i, x));
                        consts.push(None)
                    }
                    _ => return None,
                },
                v => match v.as_int() {
                    Some(k) => consts.push(Some(k.to_string())),
                    None => return None,
                },
            }
        }
        let (i, x) = text?;
        for k in st.ks(x).iter() {
            let q = if p.kind_name(k).contains("SingleQuotedString") { '\'' } else { '"' };
            self.seen.decoders.insert((gf.inst.clone(), consts.clone(), i, q));
        }
        Some(StrV::lit(x, x))
    }
    /// the text goes on with another one
    fn append(&self, st: &St, x: &V, y: &V) -> V {
        let (x, y) = match (x, y) {
            (V::Str(x), V::Str(y)) => (x, y),
            _ => return V::anystr(),
        };
        if x.konst.as_deref() == Some("") {
            return V::Str(y.clone());
        }
        if y.konst.as_deref() == Some("") {
            return V::Str(x.clone());
        }
        if let (Some((f, l)), Some((t, u))) = (x.lit, y.lit) {
            let is = |v: Option<&V>, s: Sym| matches!(v, Some(V::Tok(x)) if *x == s);
            let n = st.g.lits.len();
            let next = if is(cur_token(st).as_ref(), t) { is(st.g.lits.last(), l) } else { n == 2 && is(st.g.lits.last(), t) && is(st.g.lits.first(), l) };
            if next && t == u {
                return StrV::lit(f, t);
            }
        }
        V::anystr()
    }
    /// joining the texts of literals
    fn text_model(&mut self, st: &mut St, path: &str, ti: &str, vals: &[V]) -> R {
        if self.cfg.mode != Mode::Token {
            return None;
        }
        let name = path.rsplit("::").next().unwrap_or("");
        if path == "alloc::string::String::new" || path == "alloc::string::String::with_capacity" {
            return Some(vec![(st.clone(), V::Str(Rc::new(StrV { konst: Some(Rc::from("")), other: false, ..StrV::any() })))]);
        }
        let is_str = |v: &V| matches!(v, V::Str(s) if s.lit.is_some() || s.konst.as_deref() == Some(""));
        let a = self.text_of(st, vals.first()?);
        if !is_str(&a) {
            return None;
        }
        let name = if ti.is_empty() { name } else { ti.rsplit("::").next().unwrap_or("") };
        match (name, vals.len()) {
            ("as_ref" | "deref" | "borrow" | "as_str" | "to_string" | "to_owned" | "into_owned" | "into_string" | "clone" | "into" | "from", 1) => Some(vec![(st.clone(), a)]),
            ("deref_mut" | "to_mut" | "as_mut" | "borrow_mut" | "as_mut_str", 1) => Some(vec![(st.clone(), vals[0].clone())]),
            ("push_str" | "add_assign", 2) => {
                let y = self.text_of(st, &vals[1]);
                let v = self.append(st, &a, &y);
                let mut l = self.as_loc(&vals[0])?;
                // the innermost place
                while let V::Ref(m) = st.get(&l) {
                    l = (*m).clone()
                }
                st.set(&l, v);
                Some(vec![(st.clone(), V::unit())])
            }
            ("add", 2) => {
                let y = self.text_of(st, &vals[1]);
                let v = self.append(st, &a, &y);
                Some(vec![(st.clone(), v)])
            }
            ("is_empty" | "len", 1) => None,
            _ => None,
        }
    }
    pub fn text_of(&mut self, st: &mut St, v: &V) -> V {
        let mut v = v.clone();
        for _ in 0..4 {
            match &v {
                V::Ref(_) | V::RefVal(_) => v = self.deref(st, &v),
                V::Adt(a) if pg().path(a.ty) == "alloc::borrow::Cow" && a.vars.len() == 1 => v = a.vars[0].1[0].clone(),
                _ => break,
            }
        }
        v
    }
    pub fn derived_eq(&self) -> bool {
        pg().pr.impls.iter().any(|i| i.trait_.ends_with("PartialEq") && i.self_ty.contains("Token") && i.derived)
    }
    pub fn as_loc(&self, v: &V) -> Option<Loc> {
        match v {
            V::Ref(l) => Some((**l).clone()),
            _ => None,
        }
    }
    /// the text behind a string-like value
    pub fn cow_str(&mut self, st: &mut St, v: &V) -> V {
        match v {
            V::Str(_) => v.clone(),
            V::Ref(_) | V::RefVal(_) => {
                let d = self.deref(st, v);
                self.cow_str(st, &d)
            }
            V::Adt(a) if pg().path(a.ty) == "alloc::borrow::Cow" => {
                let mut r: Option<V> = None;
                for (_, f) in &a.vars {
                    let x = self.cow_str(st, &f[0]);
                    r = Some(match r {
                        None => x,
                        Some(o) => st.join_v(&o, &x),
                    })
                }
                r.unwrap_or(V::anystr())
            }
            _ => V::anystr(),
        }
    }
    fn str_eq(&mut self, st: St, a: Rc<StrV>, b: Rc<StrV>, eq: bool) -> Vec<(St, V)> {
        if let (Some(x), Some(y)) = (&a.konst, &b.konst) {
            return vec![(st, V::bool((x == y) == eq))];
        }
        let s2 = st.clone();
        vec![(st, V::bool(true)), (s2, V::bool(false))]
    }

    /// next token from the boundary
    fn lex(&mut self, mut st: St, lexer: &V, dty: TyId) -> Vec<(St, V)> {
        let p = pg();
        let l = match self.as_loc(lexer) {
            Some(l) => l,
            None => return vec![(st, V::any())],
        };
        let cur = st.get(&l);
        let last = match cur {
            V::Lexer(s) => s,
            _ => {
                let s = st.fresh(p.all(), false, false);
                st.set(&l, V::Lexer(s));
                s
            }
        };
        let mk = |s: Sym| -> V {
            let pos = |side| V::Pos(Rc::new(PosV { side, sym: Some(s), ks: KS::EMPTY, node: false, zero: false, add: vec![] }));
            let r = V::Adt(Rc::new(AdtV { ty: p.range, vars: vec![(0, vec![pos(Side::Start), pos(Side::End)])] }));
            V::Tup(Rc::new(vec![V::Tok(s), r]))
        };
        let _ = dty;
        let mut out = vec![];
        // at end of input it stays there
        let mut s1 = st.clone();
        if s1.refine(last, &KS::one(p.eof)) {
            let n = s1.fresh(KS::one(p.eof), false, true);
            s1.set(&l, V::Lexer(n));
            s1.g.trace = vec![V::Tok(n)];
            out.push((s1, mk(n)));
        }
        if st.refine(last, &p.all().minus(&KS::one(p.eof))) {
            if st.g.copy == 3 {
                st.g.copy = 0;
                let w = self.local_fn(self.cur);
                self.event(&mut st, &format!("C24:{} reads on although the data of COPY FROM STDIN was not kept", w))
            } else if st.g.copy == 2 {
                st.g.copy = 3
            } else if std::mem::replace(&mut st.g.copy, 0) == 1 && st.ks(last).has(p.semi) {
                let w = self.local_fn(self.cur);
                self.event(&mut st, &format!("C24:{} reads on after COPY FROM STDIN as if no data followed", w))
            }
            let n = st.fresh(p.full(), false, true);
            st.set(&l, V::Lexer(n));
            st.g.trace = vec![V::Tok(n)];
            st.g.adv = true;
            for l in st.g.loops.iter_mut() {
                l.adv = true
            }
            out.push((st, mk(n)));
        }
        out
    }

    /// equality of tokens or keywords
    pub fn tok_eq(&mut self, st: St, a: V, b: V, eq: bool) -> Vec<(St, V)> {
        let p = pg();
        let kind = |v: &V, st: &St| -> Option<(KS, Option<Sym>, bool)> {
            match v {
                V::Tok(s) => Some((st.ks(*s), Some(*s), true)),
                V::TokC(k) => Some((KS::one(*k as usize), None, true)),
                V::Kw(s) => Some((st.ks(*s).and(&p.idents()), Some(*s), false)),
                V::KwC(k) => Some((KS::one(p.tokbase[p.ident] + *k as usize), None, false)),
                _ => None,
            }
        };
        let (ka, kb) = match (kind(&a, &st), kind(&b, &st)) {
            (Some(x), Some(y)) => (x, y),
            _ => {
                let s2 = st.clone();
                return vec![(st, V::bool(true)), (s2, V::bool(false))];
            }
        };
        let mut out = vec![];
        if let (Some(x), Some(y)) = (ka.1, kb.1) {
            if st.known_same(x, y) {
                return vec![(st, V::bool(eq))];
            }
        }
        let both = ka.0.and(&kb.0);
        if !both.empty() {
            let mut s = st.clone();
            let mut ok = true;
            if let Some(x) = ka.1 {
                ok &= s.refine(x, &both)
            }
            if let Some(y) = kb.1 {
                ok &= s.refine(y, &both)
            }
            if ok {
                if let (Some(x), Some(y), V::Tok(_), V::Tok(_)) = (ka.1, kb.1, &a, &b) {
                    s.same(x, y)
                }
                out.push((s, V::bool(eq)))
            }
        }
        // different: refine when one side is a single payload-free kind
        let mut s = st.clone();
        let mut ok = true;
        let unit = |k: &KS, is_tok: bool| -> Option<usize> {
            let i = k.single()?;
            if !is_tok {
                return Some(i);
            }
            let (tv, _) = p.kinds[i];
            if p.adt(p.tok).unwrap().variants[tv].fields.is_empty() {
                Some(i)
            } else {
                None
            }
        };
        if let Some(i) = unit(&kb.0, kb.2) {
            if let Some(x) = ka.1 {
                let m = s.ks(x).minus(&KS::one(i));
                ok &= s.refine(x, &m)
            } else if ka.0.single() == Some(i) {
                ok = false
            }
        }
        if ok {
            if let Some(i) = unit(&ka.0, ka.2) {
                if let Some(y) = kb.1 {
                    let m = s.ks(y).minus(&KS::one(i));
                    ok &= s.refine(y, &m)
                } else if kb.0.single() == Some(i) {
                    ok = false
                }
            }
        }
        if ok {
            out.push((s, V::bool(!eq)))
        }
        out
    }

    pub fn minmax(&mut self, st: &mut St, a: &V, b: &V, min: bool) -> V {
        match (a, b) {
            (V::Pos(x), V::Pos(y)) => {
                if x == y {
                    return a.clone();
                }
                if let (Some(s), Some(t)) = (x.sym, y.sym) {
                    if x.add.is_empty() && y.add.is_empty() {
                        if s == t {
                            // start <= end of the same token
                            return match (x.side, y.side, min) {
                                (Side::Start, _, true) | (Side::End, _, false) => a.clone(),
                                (_, Side::Start, true) | (_, Side::End, false) => b.clone(),
                                _ => a.clone(),
                            };
                        }
                        if st.syms[s as usize].ord && st.syms[t as usize].ord {
                            let a_first = s < t;
                            return if a_first == min { a.clone() } else { b.clone() };
                        }
                    }
                }
                st.join_v(a, b)
            }
            (V::Int(_), V::Int(_)) => match (a.as_int(), b.as_int()) {
                (Some(x), Some(y)) => V::int(if min { x.min(y) } else { x.max(y) }),
                _ => st.join_v(a, b),
            },
            _ => st.join_v(a, b),
        }
    }

    /// elements are taken from (d > 0) or added to (d < 0) a collection
    pub fn dec(&mut self, at: &At, st: &mut St, l: Option<&Loc>, d: i8, iter: bool) {
        let info = pg().info(self.ctxs[at.ctx].f);
        for g in st.g.loops.iter_mut() {
            if let Some(Loc { base: Base::L(i), .. }) = l {
                if info.loop_assigned.get(&g.head).map(|v| v[*i as usize]).unwrap_or(false) {
                    continue;
                }
            }
            if iter {
                g.adv |= d > 0
            } else {
                g.dec = (g.dec + d).clamp(-3, 3)
            }
        }
    }

    fn ref_iter(&mut self, r: &V, content: &V) -> V {
        // iterator over references into a collection
        if let V::Vec(v) = content {
            let mk = |i: Option<u32>, x: &V| -> V {
                match r {
                    V::Ref(l) => {
                        let mut l = (**l).clone();
                        l.path.push(match i {
                            Some(i) => PE::Idx(i),
                            None => PE::Elem,
                        });
                        l.ty = elem_ty(l.ty);
                        V::Ref(Rc::new(l))
                    }
                    _ => V::RefVal(Rc::new(x.clone())),
                }
            };
            let n = VecV {
                exact: v.exact.as_ref().map(|e| e.iter().enumerate().map(|(i, x)| mk(Some(i as u32), x)).collect()),
                elem: v.elem.as_ref().map(|x| mk(None, x)),
                min: v.min,
            };
            return V::Iter(Rc::new(n));
        }
        V::any()
    }
    fn iter_next(&mut self, at: &At, mut st: St, path: &str, vals: &[V], dty: TyId) -> R {
        let l = match self.as_loc(&vals[0]) {
            Some(l) => l,
            None => return None,
        };
        let it = st.get(&l);
        match &it {
            V::Iter(v) => {
                let mut out = vec![];
                if let Some(e) = &v.exact {
                    if e.is_empty() {
                        out.push((st, opt_none(dty)));
                    } else {
                        st.set(&l, V::Iter(Rc::new(VecV { exact: Some(e[1..].to_vec()), elem: None, min: 0 })));
                        self.dec(at, &mut st, Some(&l), 1, true);
                        out.push((st, opt_some(dty, e[0].clone())));
                    }
                } else {
                    if v.min == 0 {
                        let mut s = st.clone();
                        s.set(&l, V::Iter(Rc::new(VecV::empty())));
                        out.push((s, opt_none(dty)));
                    }
                    if let Some(e) = &v.elem {
                        let e = st.unshare(e);
                        st.set(&l, V::Iter(Rc::new(VecV { exact: None, elem: v.elem.clone(), min: v.min.saturating_sub(1) })));
                        self.dec(at, &mut st, Some(&l), 1, true);
                        out.push((st, opt_some(dty, e)));
                    }
                }
                Some(out)
            }
            V::Chars(..) => None,
            _ => {
                if path.contains("core::str::") || path.contains("slice::Iter") || path.contains("vec::") || path.contains("Peekable") || path.contains("option::") {
                    let s2 = st.clone();
                    self.dec(at, &mut st, Some(&l), 1, true);
                    return Some(vec![(st, opt_some(dty, V::any())), (s2, opt_none(dty))]);
                }
                None
            }
        }
    }
    fn iter_model(&mut self, _at: &At, st: &St, ti: &str, _vals: &[V], dty: TyId, g: FnId) -> R {
        let mut st = st.clone();
        if pg().f(g).has_body && !ti.ends_with("::fold") && !ti.ends_with("::all") && !ti.ends_with("::any") && !ti.ends_with("::count") {
            return None;
        }
        let v = self.top(&mut st, dty, Default::default());
        let v = self.expand(&mut st, v, dty);
        Some(vec![(st, v)])
    }
    fn str_slice(&mut self, at: &At, st: &St, range: &V) {
        // slicing text by a span: both ends must be token boundaries
        if let V::Adt(a) = range {
            let mut ok = true;
            let full = pg().path(a.ty) == "core::ops::Range";
            for (_, f) in &a.vars {
                for (i, v) in f.iter().enumerate() {
                    match v {
                        // both ends: in order, too
                        V::Pos(p) => ok &= p.add.iter().all(|a| *a == 0) && (!full || p.side == [Side::Start, Side::End][i.min(1)]),
                        V::Int(i) => ok &= i.iter().all(|i| *i == 0),
                        _ => ok = false,
                    }
                }
            }
            if ok {
                self.obs.discharged += 1;
                return;
            }
        }
        self.panic(at, "slice of text at a position not known to be a token boundary", st)
    }
    fn slice_index(&mut self, at: &At, mut st: St, r: &V, v: Rc<VecV>, ix: &V) -> R {
        match ix {
            V::Adt(a) => {
                let p = pg().path(a.ty).to_string();
                let f = &a.vars[0].1;
                let int = |v: &V| v.as_int();
                let (from, to) = match p.as_str() {
                    "core::ops::RangeFrom" => (int(&f[0]), None),
                    "core::ops::RangeTo" => (Some(0), int(&f[0])),
                    "core::ops::Range" => (int(&f[0]), int(&f[1])),
                    "core::ops::RangeFull" => (Some(0), None),
                    _ => (None, None),
                };
                let need = match p.as_str() {
                    "core::ops::RangeFrom" | "core::ops::RangeFull" => from,
                    _ => to,
                };
                match need {
                    Some(n) if n as usize <= v.minlen() => self.obs.discharged += 1,
                    _ => self.panic(at, "slice range may be out of bounds", &st),
                }
                if let (Some(fr), None, V::Ref(l)) = (from, to, r) {
                    let mut l = (**l).clone();
                    if fr > 0 {
                        l.path.push(PE::From(fr as u32));
                    }
                    return Some(vec![(st, V::Ref(Rc::new(l)))]);
                }
                let content = match (&v.exact, from) {
                    (Some(e), Some(fr)) if (fr as usize) <= e.len() => {
                        let to = to.map(|t| (t as usize).min(e.len())).unwrap_or(e.len());
                        VecV { exact: Some(e[(fr as usize).min(to)..to].to_vec()), elem: None, min: 0 }
                    }
                    _ => {
                        let e = st.vec_elem(&v);
                        VecV { exact: None, elem: Some(e), min: 0 }
                    }
                };
                Some(vec![(st, V::RefVal(Rc::new(V::Vec(Rc::new(content)))))])
            }
            _ => {
                match ix.as_int() {
                    Some(n) if (n as usize) < v.minlen() => self.obs.discharged += 1,
                    _ => self.panic(at, "index may be out of bounds", &st),
                }
                if let V::Ref(l) = r {
                    let mut l = (**l).clone();
                    l.path.push(match ix.as_int() {
                        Some(n) => PE::Idx(n as u32),
                        None => PE::Elem,
                    });
                    l.ty = elem_ty(l.ty);
                    return Some(vec![(st, V::Ref(Rc::new(l)))]);
                }
                let e = st.vec_elem(&v);
                Some(vec![(st, V::RefVal(Rc::new(e)))])
            }
        }
    }
    fn vec_model(&mut self, at: &At, mut st: St, name: &str, _path: &str, vals: &[V], dty: TyId) -> R {
        let p = pg();
        match name {
            "new" | "with_capacity" => return Some(vec![(st, Self::mkvec(VecV::empty()))]),
            "as_slice" | "as_mut_slice" | "to_vec" | "into_boxed_slice" | "into_vec" => return Some(vec![(st, vals[0].clone())]),
            _ => {}
        }
        let l = self.as_loc(vals.first()?);
        let c = match &vals[0] {
            V::Vec(_) => vals[0].clone(),
            v => self.deref(&mut st, v),
        };
        let v = match &c {
            V::Vec(v) => v.clone(),
            _ => Rc::new(VecV { exact: None, elem: Some(V::any()), min: 0 }),
        };
        match name {
            "push" => {
                let ety = p.f(self.ctxs[at.ctx].f).local;
                let _ = ety;
                self.push_hook(at, &mut st, &vals[1]);
                if let Some(l) = &l {
                    if st.g.nest.on && !st.g.iss {
                        let t = elem_ty(l.ty);
                        let apart = st.g.nest.since.insert(t);
                        if v.nonempty() {
                            let w = self.local_fn(at.ctx);
                            let x = self.obs.pushes.entry((w.clone(), t)).or_insert((0, 0));
                            if apart {
                                x.0 += 1
                            } else {
                                x.1 += 1;
                                if crate::nest::listed(t) {
                                    st.g.nest.ev.insert(format!("accepts elements of a list of {} without a comma between", p.tyname(t)));
                                }
                            }
                        }
                    }
                    if elem_ty(l.ty) == p.issue {
                        let l = l.clone();
                        st.set(&l, Self::mkvec(VecV { exact: None, elem: Some(V::any()), min: 1 }));
                        self.dec(at, &mut st, Some(&l), -1, false);
                        return Some(vec![(st, V::unit())]);
                    }
                }
                let nv = match &v.exact {
                    Some(e) if e.len() < VEC_EXACT => {
                        let mut e = e.clone();
                        e.push(vals[1].clone());
                        VecV { exact: Some(e), elem: None, min: 0 }
                    }
                    _ => {
                        let e = st.vec_elem(&v);
                        let e = if v.exact.is_none() && v.elem.is_none() { vals[1].clone() } else { st.join_v(&e, &vals[1]) };
                        VecV { exact: None, elem: Some(e), min: (v.minlen() + 1).min(VEC_MIN as usize) as u8 }
                    }
                };
                if let Some(l) = &l {
                    st.set(l, Self::mkvec(nv));
                }
                self.dec(at, &mut st, l.as_ref(), -1, false);
                Some(vec![(st, V::unit())])
            }
            "pop" => {
                let l = l?;
                let mut out = vec![];
                if let Some(e) = &v.exact {
                    if e.is_empty() {
                        out.push((st, opt_none(dty)));
                    } else {
                        let x = e.last().unwrap().clone();
                        st.set(&l, Self::mkvec(VecV { exact: Some(e[..e.len() - 1].to_vec()), elem: None, min: 0 }));
                        self.dec(at, &mut st, Some(&l), 1, false);
                        out.push((st, opt_some(dty, x)));
                    }
                } else {
                    if v.min == 0 {
                        let mut s = st.clone();
                        s.set(&l, Self::mkvec(VecV::empty()));
                        out.push((s, opt_none(dty)));
                    }
                    if let Some(e) = &v.elem {
                        let e = st.unshare(e);
                        st.set(&l, Self::mkvec(VecV { exact: None, elem: v.elem.clone(), min: v.min.saturating_sub(1) }));
                        self.dec(at, &mut st, Some(&l), 1, false);
                        out.push((st, opt_some(dty, e)));
                    }
                }
                Some(out)
            }
            "is_empty" => {
                if v.surely_empty() {
                    return Some(vec![(st, V::bool(true))]);
                }
                if v.nonempty() {
                    return Some(vec![(st, V::bool(false))]);
                }
                let mut a = st.clone();
                let mut b = st;
                if let Some(l) = &l {
                    a.set(l, Self::mkvec(VecV::empty()));
                    b.set(l, Self::mkvec(VecV { exact: None, elem: v.elem.clone(), min: 1 }));
                }
                Some(vec![(a, V::bool(true)), (b, V::bool(false))])
            }
            "len" => {
                let r = match &v.exact {
                    Some(e) => V::int(e.len() as i128),
                    None => V::any(),
                };
                Some(vec![(st, r)])
            }
            "clear" | "truncate" => {
                if let Some(l) = l {
                    st.set(&l, Self::mkvec(VecV::empty()))
                }
                Some(vec![(st, V::unit())])
            }
            "last" | "last_mut" | "first" | "first_mut" => {
                let last = name.starts_with("last");
                let mk = |i: Option<u32>, x: &V| -> V {
                    match &l {
                        Some(l) => {
                            let mut l = l.clone();
                            l.path.push(match i {
                                Some(i) => PE::Idx(i),
                                None => PE::Elem,
                            });
                            l.ty = elem_ty(l.ty);
                            V::Ref(Rc::new(l))
                        }
                        None => V::RefVal(Rc::new(x.clone())),
                    }
                };
                match &v.exact {
                    Some(e) if e.is_empty() => Some(vec![(st, opt_none(dty))]),
                    Some(e) => {
                        let i = if last { e.len() - 1 } else { 0 };
                        let r = mk(Some(i as u32), &e[i]);
                        Some(vec![(st, opt_some(dty, r))])
                    }
                    None => {
                        let mut out = vec![];
                        if v.min == 0 {
                            let mut s = st.clone();
                            if let Some(l) = &l {
                                s.set(l, Self::mkvec(VecV::empty()));
                            }
                            out.push((s, opt_none(dty)));
                        }
                        if let Some(e) = &v.elem {
                            let r = mk(None, e);
                            if let (Some(l), 0) = (&l, v.min) {
                                st.set(l, Self::mkvec(VecV { exact: None, elem: v.elem.clone(), min: 1 }));
                            }
                            out.push((st, opt_some(dty, r)));
                        }
                        Some(out)
                    }
                }
            }
            "iter" | "iter_mut" => {
                let r = self.ref_iter(&vals[0], &Self::mkvec((*v).clone()));
                Some(vec![(st, r)])
            }
            "get" => {
                let e = st.vec_elem(&v);
                Some(vec![(st, opt_both(dty, V::RefVal(Rc::new(e))))])
            }
            _ => None,
        }
    }
    /// an element is appended to a collection; an Error issue makes the parse not clean
    fn push_hook(&mut self, _at: &At, st: &mut St, v: &V) {
        let p = pg();
        if let V::Adt(a) = v {
            if a.ty == p.issue {
                let fl = &p.adt(p.issue).unwrap().variants[0].fields;
                for (i, f) in fl.iter().enumerate() {
                    if f.ty == p.level {
                        if let V::Adt(l) = &a.vars[0].1[i] {
                            let la = p.adt(p.level).unwrap();
                            if st.g.warn.is_some() {
                                *self.seen.c04.entry(self.local_fn(_at.ctx)).or_insert(0) += 1
                            }
                            if l.vars.len() == 1 && la.variants[l.vars[0].0 as usize].name == "Error" {
                                {
                                    if st.g.warn.is_some() {
                                        let w = self.local_fn(_at.ctx);
                                        self.finding("C04", &w, "records an Error depending on a warning option", "")
                                    }
                                    st.g.iss = true;
                                    st.g.nest.reset();
                                    st.g.conf &= !crate::confine::OWED;
                                    st.g.bad = Default::default()
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}
fn uninit_content(v: V) -> V {
    match v {
        V::Adt(a) if a.vars.len() == 1 && a.vars[0].1.len() >= 1 => uninit_content(a.vars[0].1.last().unwrap().clone()),
        v => v,
    }
}
pub fn strip(t: &str) -> String {
    let mut s = String::new();
    for c in t.chars().take(60) {
        s.push(c)
    }
    s
}
impl Eng {
    pub fn char_model(&mut self, _at: &At, _st: &St, _path: &str, _ti: &str, _vals: &[V], _dty: TyId) -> R {
        None
    }
}

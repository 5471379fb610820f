//! Analysing the public entry points.
use crate::interp::*;
use crate::prog::*;
use crate::state::*;
use crate::val::*;
use ir::*;
use std::rc::Rc;

/// the public entry points that take source text, an issue sink and options
pub fn entries() -> Result<Vec<FnId>, String> {
    let p = pg();
    let mut v = vec![];
    for n in ["parse_statement", "parse_statements"] {
        v.push((0..p.pr.fns.len()).find(|f| p.f(*f).local && p.f(*f).path == n).ok_or_else(|| format!("anchor missing: fn {}", n))?)
    }
    Ok(v)
}

impl Eng {
    pub fn root(&mut self, f: FnId) -> CtxId {
        self.root_with(f, 0)
    }
    pub fn root_with(&mut self, f: FnId, conf: u8) -> CtxId {
        let p = pg();
        let gf = p.f(f);
        let mut st = St { locals: Locals::default(), cells: vec![], syms: vec![], k: 0, g: Ghost { conf, nest: crate::nest::Nest { on: self.cfg.nest, ..Default::default() }, ..Default::default() } };
        for i in 1..=gf.argc {
            let ty = gf.locals[i].ty;
            let v = self.root_val(&mut st, ty);
            st.locals[i] = v;
        }
        self.ctx_for(f, st, None)
    }
    pub fn root_val(&mut self, st: &mut St, ty: TyId) -> V {
        let p = pg();
        match &p.pr.types[ty].kind {
            TyKind::Ref { to, .. } if matches!(p.pr.types[*to].kind, TyKind::Str) => V::Str(Rc::new(StrV { sym: None, konst: None, ks: KS::EMPTY, other: true, lit: None })),
            TyKind::Ref { to, .. } => {
                let i = st.cells.len();
                st.cells.push(V::Dead);
                let v = self.root_val(st, *to);
                st.cells[i] = v;
                V::Ref(Rc::new(Loc { base: Base::C(i as u32), path: vec![], ty: *to }))
            }
            TyKind::Adt(a) if ty == p.opts => {
                let vals = a.variants[0]
                    .fields
                    .iter()
                    .enumerate()
                    .map(|(i, f)| (crate::opts::option_of(i).unwrap_or(&f.name), f))
                    .map(|(n, f)| match self.cfg.opts.get(n) {
                        Some(i) => match &p.pr.types[f.ty].kind {
                            TyKind::Adt(e) => V::Adt(Rc::new(AdtV { ty: f.ty, vars: vec![(*i as u32, e.variants[*i as usize].fields.iter().map(|_| V::any()).collect())] })),
                            _ => V::int(*i),
                        },
                        None => match &p.pr.types[f.ty].kind {
                            TyKind::Bool if n.starts_with("warn_") => V::Warn,
                            TyKind::Bool => V::Int(Rc::new(vec![0, 1])),
                            TyKind::Adt(e) if e.kind == AdtKind::Enum => {
                                V::Adt(Rc::new(AdtV { ty: f.ty, vars: e.variants.iter().enumerate().map(|(i, v)| (i as u32, v.fields.iter().map(|_| V::any()).collect())).collect() }))
                            }
                            _ => V::any(),
                        },
                    })
                    .collect();
                V::Adt(Rc::new(AdtV { ty, vars: vec![(0, vals)] }))
            }
            TyKind::Adt(a) if ty == p.issues => {
                let vals = a.variants[0].fields.iter().map(|f| if p.path(f.ty) == "alloc::vec::Vec" { V::Vec(Rc::new(VecV { exact: None, elem: Some(V::any()), min: 0 })) } else { V::anystr() }).collect();
                V::Adt(Rc::new(AdtV { ty, vars: vec![(0, vals)] }))
            }
            _ => self.top(st, ty, Tags::new()),
        }
    }
}

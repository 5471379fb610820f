//! Control-flow facts: loops, liveness, shape-liveness, recursion.
use crate::prog::*;
use ir::*;
use std::collections::HashMap;

pub fn succs(t: &Term) -> Vec<Bb> {
    match t {
        Term::Goto(b) => vec![*b],
        Term::Switch { arms, otherwise, .. } => {
            let mut v: Vec<Bb> = arms.iter().map(|a| a.1).collect();
            v.push(*otherwise);
            v
        }
        Term::Drop { target, .. } => vec![*target],
        Term::Call { target, .. } => target.iter().copied().collect(),
        Term::Assert { target, .. } => vec![*target],
        _ => vec![],
    }
}

pub fn place_uses(p: &Place, f: &mut dyn FnMut(Local)) {
    f(p.local);
    for e in &p.proj {
        if let Proj::Index(l) = e {
            f(*l)
        }
    }
}
pub fn op_uses(o: &Operand, f: &mut dyn FnMut(Local)) {
    match o {
        Operand::Copy(p) | Operand::Move(p) => place_uses(p, f),
        _ => {}
    }
}
pub fn rv_uses(r: &Rvalue, f: &mut dyn FnMut(Local)) {
    match r {
        Rvalue::Use(o) | Rvalue::Un(_, o) | Rvalue::Cast(_, o, _) | Rvalue::Repeat(o, _) => op_uses(o, f),
        Rvalue::Ref { place, .. } | Rvalue::AddrOf { place, .. } | Rvalue::Discr(place) | Rvalue::Len(place) => place_uses(place, f),
        Rvalue::Agg(_, v) => v.iter().for_each(|o| op_uses(o, f)),
        Rvalue::Bin(_, a, b) | Rvalue::CheckedBin(_, a, b) => {
            op_uses(a, f);
            op_uses(b, f)
        }
        Rvalue::ThreadLocal(_) | Rvalue::Other(_) => {}
    }
}
pub fn term_uses(t: &Term, f: &mut dyn FnMut(Local)) {
    match t {
        Term::Switch { discr, .. } => op_uses(discr, f),
        Term::Return => f(0),
        Term::Drop { place, .. } => place_uses(place, f),
        Term::Call { callee, args, dest, .. } => {
            if let Callee::Ptr(o) = callee {
                op_uses(o, f)
            }
            args.iter().for_each(|o| op_uses(o, f));
            if !dest.proj.is_empty() {
                place_uses(dest, f)
            }
        }
        Term::Assert { cond, ops, .. } => {
            op_uses(cond, f);
            ops.iter().for_each(|o| op_uses(o, f))
        }
        _ => {}
    }
}

pub fn callees(p: &Prog, f: FnId) -> Vec<FnId> {
    let mut v = vec![];
    for b in &p.f(f).blocks {
        if b.cleanup {
            continue;
        }
        if let Term::Call { callee: Callee::Fn(g), .. } = &b.term {
            v.push(*g)
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Members of non-trivial strongly connected components.
/// functions that never examine the kind of a token, themselves or through what they call
pub fn kindless(p: &Prog) -> Vec<bool> {
    let n = p.pr.fns.len();
    let boundary = |f: usize| p.f(f).local && p.f(f).path.starts_with("lexer::Lexer");
    let mut bad = vec![false; n];
    let mut callers: Vec<Vec<usize>> = vec![vec![]; n];
    for f in 0..n {
        let fun = p.f(f);
        if boundary(f) {
            continue;
        }
        if fun.local && fun.derived && matches!(fun.trait_item.as_deref(), Some("core::clone::Clone::clone")) {
            continue;
        }
        if !fun.local && !fun.has_body && fun.args.iter().any(|t| *t == p.tok || *t == p.kw) && fun.path.contains("discriminant") {
            bad[f] = true
        }
        if fun.has_body && !fun.path.starts_with("core::ptr::drop_in_place") {
            for b in &fun.blocks {
                for (s, _) in &b.stmts {
                    if let Stmt::Assign(_, Rvalue::Discr(pl)) = s {
                        let t = p.type_of_place(fun, pl);
                        if t == p.tok || t == p.kw {
                            bad[f] = true
                        }
                    }
                }
            }
        }
        for g in callees(p, f) {
            callers[g].push(f)
        }
    }
    let mut work: Vec<usize> = (0..n).filter(|f| bad[*f]).collect();
    while let Some(f) = work.pop() {
        for &c in &callers[f] {
            if !bad[c] {
                bad[c] = true;
                work.push(c)
            }
        }
    }
    bad.iter().map(|b| !b).collect()
}

pub fn recursive(p: &Prog) -> Vec<bool> {
    let n = p.pr.fns.len();
    let adj: Vec<Vec<usize>> = (0..n).map(|f| callees(p, f)).collect();
    let scc = sccs(&adj);
    let mut size = HashMap::new();
    for c in &scc {
        *size.entry(*c).or_insert(0) += 1;
    }
    (0..n).map(|f| size[&scc[f]] > 1 || adj[f].contains(&f)).collect()
}

pub fn sccs(adj: &[Vec<usize>]) -> Vec<usize> {
    let n = adj.len();
    let mut idx = vec![usize::MAX; n];
    let mut low = vec![0; n];
    let mut on = vec![false; n];
    let mut st = vec![];
    let mut comp = vec![usize::MAX; n];
    let (mut ctr, mut nc) = (0, 0);
    for r in 0..n {
        if idx[r] != usize::MAX {
            continue;
        }
        let mut work = vec![(r, 0usize)];
        while let Some((v, i)) = work.pop() {
            if i == 0 {
                idx[v] = ctr;
                low[v] = ctr;
                ctr += 1;
                st.push(v);
                on[v] = true;
            }
            let mut desc = false;
            for j in i..adj[v].len() {
                let w = adj[v][j];
                if idx[w] == usize::MAX {
                    work.push((v, j + 1));
                    work.push((w, 0));
                    desc = true;
                    break;
                } else if on[w] {
                    low[v] = low[v].min(idx[w]);
                }
            }
            if desc {
                continue;
            }
            if low[v] == idx[v] {
                loop {
                    let w = st.pop().unwrap();
                    on[w] = false;
                    comp[w] = nc;
                    if w == v {
                        break;
                    }
                }
                nc += 1;
            }
            if let Some((u, _)) = work.last() {
                low[*u] = low[*u].min(low[v]);
            }
        }
    }
    comp
}

pub struct Loops {
    pub succs: Vec<Vec<Bb>>,
    pub rpo: Vec<usize>,
    pub loops: HashMap<Bb, Vec<bool>>,
}

pub fn loops(fun: &Func) -> Loops {
    let n = fun.blocks.len();
    let su: Vec<Vec<Bb>> = fun.blocks.iter().map(|b| if b.cleanup { vec![] } else { succs(&b.term) }).collect();
    // rpo
    let mut rpo = vec![usize::MAX; n];
    let mut post = vec![];
    let mut seen = vec![false; n];
    let mut st = vec![(0usize, 0usize)];
    if n > 0 {
        seen[0] = true;
    }
    while let Some((b, i)) = st.pop() {
        if n == 0 {
            break;
        }
        if i < su[b].len() {
            st.push((b, i + 1));
            let c = su[b][i];
            if !seen[c] {
                seen[c] = true;
                st.push((c, 0))
            }
        } else {
            post.push(b)
        }
    }
    post.reverse();
    for (i, b) in post.iter().enumerate() {
        rpo[*b] = i
    }
    let mut preds = vec![vec![]; n];
    for b in &post {
        for s in &su[*b] {
            preds[*s].push(*b)
        }
    }
    // dominators
    let mut idom = vec![usize::MAX; n];
    if n > 0 {
        idom[0] = 0;
    }
    let mut ch = true;
    while ch {
        ch = false;
        for &b in post.iter().skip(1) {
            let mut d = usize::MAX;
            for &q in &preds[b] {
                if idom[q] == usize::MAX {
                    continue;
                }
                if d == usize::MAX {
                    d = q
                } else {
                    let (mut x, mut y) = (d, q);
                    while x != y {
                        while rpo[x] > rpo[y] {
                            x = idom[x]
                        }
                        while rpo[y] > rpo[x] {
                            y = idom[y]
                        }
                    }
                    d = x
                }
            }
            if idom[b] != d {
                idom[b] = d;
                ch = true
            }
        }
    }
    let dom = |a: usize, mut b: usize| -> bool {
        loop {
            if a == b {
                return true;
            }
            if b == 0 {
                return false;
            }
            b = idom[b]
        }
    };
    let mut lp: HashMap<Bb, Vec<bool>> = HashMap::new();
    for &b in &post {
        for &s in &su[b] {
            // a retreating edge whose target does not dominate its source would be
            // irreducible; rustc does not produce these
            if dom(s, b) || rpo[s] <= rpo[b] {
                let body = lp.entry(s).or_insert_with(|| {
                    let mut v = vec![false; n];
                    v[s] = true;
                    v
                });
                let mut st = vec![b];
                while let Some(x) = st.pop() {
                    if !body[x] {
                        body[x] = true;
                        st.extend(preds[x].iter().copied())
                    }
                }
            }
        }
    }
    Loops { succs: su, rpo, loops: lp }
}

fn liveness(fun: &Func, su: &[Vec<Bb>]) -> (Vec<Vec<bool>>, Vec<bool>) {
    let n = fun.blocks.len();
    let nl = fun.locals.len();
    let mut addr = vec![false; nl];
    for b in &fun.blocks {
        for (s, _) in &b.stmts {
            if let Stmt::Assign(_, Rvalue::Ref { place, .. } | Rvalue::AddrOf { place, .. }) = s {
                if !place.proj.iter().any(|p| matches!(p, Proj::Deref)) {
                    addr[place.local] = true
                }
            }
        }
    }
    let mut live: Vec<Vec<bool>> = vec![vec![false; nl]; n];
    let mut ch = true;
    while ch {
        ch = false;
        for b in (0..n).rev() {
            if fun.blocks[b].cleanup {
                continue;
            }
            let mut l = vec![false; nl];
            for &s in &su[b] {
                for i in 0..nl {
                    l[i] |= live[s][i]
                }
            }
            if let Term::Call { dest, .. } = &fun.blocks[b].term {
                if dest.proj.is_empty() {
                    l[dest.local] = false
                }
            }
            term_uses(&fun.blocks[b].term, &mut |x| l[x] = true);
            for (s, _) in fun.blocks[b].stmts.iter().rev() {
                match s {
                    Stmt::Assign(d, r) => {
                        if d.proj.is_empty() {
                            l[d.local] = false
                        } else {
                            place_uses(d, &mut |x| l[x] = true)
                        }
                        rv_uses(r, &mut |x| l[x] = true)
                    }
                    Stmt::SetDiscr(d, _) => l[d.local] = true,
                    Stmt::Assume(o) => op_uses(o, &mut |x| l[x] = true),
                    _ => {}
                }
            }
            if l != live[b] {
                live[b] = l;
                ch = true
            }
        }
    }
    (live, addr)
}

fn base(o: &Operand) -> Option<Local> {
    match o {
        Operand::Copy(p) | Operand::Move(p) => Some(p.local),
        _ => None,
    }
}

/// does the result's / effect's shape depend on the shape of argument i?
fn call_sens(p: &Prog, sens: &[Vec<bool>], g: FnId, i: usize) -> bool {
    let fun = p.f(g);
    if fun.local {
        return sens[g].get(i).copied().unwrap_or(false);
    }
    let path = &fun.path;
    if path.contains("vec::Vec") && (path.ends_with("::push") || path.ends_with("::extend") || path.ends_with("::insert")) {
        return i == 0;
    }
    if fun.derived || path.contains("boxed::Box") {
        return false;
    }
    true
}
/// result of the call carries the shape of its argument
fn call_flow(p: &Prog, g: FnId) -> bool {
    let fun = p.f(g);
    !fun.local || fun.is_closure || fun.output != fun.locals.first().map(|l| l.ty).unwrap_or(fun.output) || true
}

fn shape_live(p: &Prog, fun: &Func, su: &[Vec<Bb>], sens: &[Vec<bool>]) -> Vec<Vec<bool>> {
    let n = fun.blocks.len();
    let nl = fun.locals.len();
    let mut live: Vec<Vec<bool>> = vec![vec![false; nl]; n];
    let mut ch = true;
    while ch {
        ch = false;
        for b in (0..n).rev() {
            if fun.blocks[b].cleanup {
                continue;
            }
            let mut l = vec![false; nl];
            for &s in &su[b] {
                for i in 0..nl {
                    l[i] |= live[s][i]
                }
            }
            match &fun.blocks[b].term {
                Term::Switch { discr, .. } => {
                    if let Some(x) = base(discr) {
                        l[x] = true
                    }
                }
                Term::Return => l[0] = true,
                Term::Assert { cond, .. } => {
                    if let Some(x) = base(cond) {
                        l[x] = true
                    }
                }
                Term::Call { callee, args, dest, .. } => {
                    let dl = l[dest.local];
                    if dest.proj.is_empty() {
                        l[dest.local] = false
                    }
                    for (i, a) in args.iter().enumerate() {
                        if let Some(x) = base(a) {
                            let s = match callee {
                                Callee::Fn(g) => call_sens(p, sens, *g, i) || (dl && call_flow(p, *g)),
                                _ => true,
                            };
                            if s {
                                l[x] = true
                            }
                        }
                    }
                }
                _ => {}
            }
            for (s, _) in fun.blocks[b].stmts.iter().rev() {
                if let Stmt::Assign(d, r) = s {
                    let dl = l[d.local];
                    if d.proj.is_empty() {
                        l[d.local] = false
                    }
                    if dl {
                        let stop = matches!(r, Rvalue::Agg(AggKind::Adt{ty,..}, _) if p.ast[*ty]);
                        if !stop {
                            rv_uses(r, &mut |x| l[x] = true)
                        }
                    }
                }
            }
            if l != live[b] {
                live[b] = l;
                ch = true
            }
        }
    }
    live
}

pub fn sensitivity(p: &Prog) -> Vec<Vec<bool>> {
    let n = p.pr.fns.len();
    let mut sens: Vec<Vec<bool>> = p.pr.fns.iter().map(|f| vec![false; f.argc]).collect();
    let lo: Vec<Option<Loops>> = p.pr.fns.iter().map(|f| if f.local && f.has_body { Some(loops(f)) } else { None }).collect();
    let mut callers: Vec<Vec<usize>> = vec![vec![]; n];
    for f in 0..n {
        for g in callees(p, f) {
            callers[g].push(f)
        }
    }
    let mut work: Vec<usize> = (0..n).filter(|f| lo[*f].is_some()).collect();
    let mut inw: Vec<bool> = (0..n).map(|f| lo[f].is_some()).collect();
    while let Some(f) = work.pop() {
        inw[f] = false;
        let l = shape_live_noret(p, p.f(f), &lo[f].as_ref().unwrap().succs, &sens);
        let mut ch = false;
        for i in 0..p.f(f).argc {
            if l.get(i + 1).copied().unwrap_or(false) && !sens[f][i] {
                sens[f][i] = true;
                ch = true
            }
        }
        if ch {
            for &c in &callers[f] {
                if lo[c].is_some() && !inw[c] {
                    inw[c] = true;
                    work.push(c)
                }
            }
        }
    }
    sens
}
fn shape_live_noret(p: &Prog, fun: &Func, su: &[Vec<Bb>], sens: &[Vec<bool>]) -> Vec<bool> {
    // `return` itself does not examine: flow to the result is handled by call_flow
    let l = shape_live_ret(p, fun, su, sens, false);
    l.into_iter().next().unwrap_or_default()
}
fn shape_live_ret(p: &Prog, fun: &Func, su: &[Vec<Bb>], sens: &[Vec<bool>], ret: bool) -> Vec<Vec<bool>> {
    if ret {
        return shape_live(p, fun, su, sens);
    }
    let mut f2 = fun.clone();
    for b in f2.blocks.iter_mut() {
        if matches!(b.term, Term::Return) {
            b.term = Term::Unreachable
        }
    }
    shape_live(p, &f2, su, sens)
}

impl FnInfo {
    /// immediate postdominators over the blocks that can return (None: only the end of the function)
    pub fn ipdom(&self, fun: &Func) -> Vec<Option<Bb>> {
        let n = fun.blocks.len();
        let mut can = vec![false; n];
        loop {
            let mut ch = false;
            for b in 0..n {
                if !can[b] && !fun.blocks[b].cleanup && (matches!(fun.blocks[b].term, Term::Return) || self.succs[b].iter().any(|s| can[*s])) {
                    can[b] = true;
                    ch = true
                }
            }
            if !ch {
                break;
            }
        }
        // postdominators as sets
        let mut pd: Vec<Option<std::collections::BTreeSet<Bb>>> = vec![None; n];
        loop {
            let mut ch = false;
            for b in (0..n).rev() {
                if !can[b] {
                    continue;
                }
                let mut s: Option<std::collections::BTreeSet<Bb>> = if matches!(fun.blocks[b].term, Term::Return) { Some(Default::default()) } else { None };
                for x in self.succs[b].iter().filter(|x| can[**x]) {
                    if let Some(y) = &pd[*x] {
                        s = Some(match s {
                            None => y.clone(),
                            Some(z) => z.intersection(y).copied().collect(),
                        })
                    }
                }
                if let Some(mut s) = s {
                    s.insert(b);
                    if pd[b].as_ref() != Some(&s) {
                        pd[b] = Some(s);
                        ch = true
                    }
                }
            }
            if !ch {
                break;
            }
        }
        (0..n)
            .map(|b| {
                let s = pd[b].as_ref()?;
                // the nearest one has the most postdominators itself
                s.iter().copied().filter(|x| *x != b).max_by_key(|x| pd[*x].as_ref().map(|y| y.len()).unwrap_or(0))
            })
            .collect()
    }
}

pub fn analyse(p: &Prog, f: FnId) -> FnInfo {
    let fun = p.f(f);
    let lo = loops(fun);
    let (live_in, addr) = liveness(fun, &lo.succs);
    let shape_in = shape_live(p, fun, &lo.succs, &p.sens);
    let mut loop_assigned = HashMap::new();
    for (h, body) in &lo.loops {
        let mut v = vec![false; fun.locals.len()];
        for (b, blk) in fun.blocks.iter().enumerate() {
            if !body[b] {
                continue;
            }
            for (s, _) in &blk.stmts {
                match s {
                    Stmt::Live(l) => v[*l] = true,
                    Stmt::Assign(p, _) if p.proj.is_empty() => v[p.local] = true,
                    _ => {}
                }
            }
            if let Term::Call { dest, .. } = &blk.term {
                if dest.proj.is_empty() {
                    v[dest.local] = true
                }
            }
        }
        loop_assigned.insert(*h, v);
    }
    FnInfo { loop_assigned, succs: lo.succs, rpo: lo.rpo, loops: lo.loops, live_in, addr, shape_in, sens: p.sens[f].clone(), rec: p.rec[f], callees: callees(p, f) }
}

mod cfg;
mod chars;
mod confine;
mod nest;
mod cover;
mod facts;
mod interp;
mod lex;
mod model;
mod opts;
mod order;
mod prec;
mod prog;
mod report;
mod root;
mod scan;
mod state;
mod tape;
mod val;
use prog::*;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(2).map(|s| s == "token").unwrap_or(false) {
        // engine DUMP token SPEC OUT
        load(&a[1]);
        let spec: facts::RawSpec = match std::fs::read(&a[3]) {
            Ok(b) => serde_json::from_slice(&b).expect("spec"),
            Err(_) => Default::default(),
        };
        let r = report::token_all(&spec, a.get(5).map(|s| s.as_str()).unwrap_or(""));
        std::fs::write(&a[4], serde_json::to_vec_pretty(&r).unwrap()).unwrap();
        return;
    }
    if a.get(2).map(|s| s == "lex").unwrap_or(false) {
        load(&a[1]);
        let spec: serde_json::Value = serde_json::from_slice(&std::fs::read(std::path::Path::new(&a[3]).with_file_name("tokens.json")).unwrap()).unwrap();
        let pats: Vec<tape::Pat> = serde_json::from_value(spec["tokens"].clone()).expect("tokens");
        let names = serde_json::from_value(spec["token_names"].clone()).expect("token_names");
        let words = ["reserved", "expr_ident"].iter().filter_map(|k| Some((k.to_string(), serde_json::from_value(spec.get(*k)?.clone()).ok()?))).collect();
        // the decoders found by the token analysis
        let mut dec: Vec<(String, Vec<Option<String>>, usize, char)> = vec![];
        if let Some(f) = a.get(5) {
            let t: serde_json::Value = serde_json::from_slice(&std::fs::read(f).unwrap()).unwrap();
            for r in t.as_array().unwrap() {
                let d: Vec<(String, Vec<Option<String>>, usize, char)> = serde_json::from_value(r["decoders"].clone()).unwrap();
                dec.extend(d)
            }
            dec.sort();
            dec.dedup()
        }
        std::fs::write(&a[4], serde_json::to_vec_pretty(&lex::all(&pats, &names, &words, &dec)).unwrap()).unwrap();
        return;
    }
    if a.get(2).map(|s| s == "nest").unwrap_or(false) {
        load(&a[1]);
        let spec: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[3]).unwrap()).unwrap();
        std::fs::write(&a[4], serde_json::to_vec_pretty(&nest::all(serde_json::from_value(spec["spaced"].clone()).expect("spaced"), serde_json::from_value(spec["no_element"].clone()).expect("no_element"))).unwrap()).unwrap();
        return;
    }
    if a.get(2).map(|s| s == "confine").unwrap_or(false) {
        load(&a[1]);
        std::fs::write(&a[4], serde_json::to_vec_pretty(&confine::all()).unwrap()).unwrap();
        return;
    }
    if a.get(2).map(|s| s == "options").unwrap_or(false) {
        load(&a[1]);
        std::fs::write(&a[4], serde_json::to_vec_pretty(&opts::all()).unwrap()).unwrap();
        return;
    }
    if a.get(2).map(|s| s == "scan").unwrap_or(false) {
        load(&a[1]);
        std::fs::write(&a[4], serde_json::to_vec_pretty(&scan::all()).unwrap()).unwrap();
        return;
    }
    if a.get(2).map(|s| s == "prec").unwrap_or(false) {
        load(&a[1]);
        let o = a[4].clone();
        let spec: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[3]).unwrap()).unwrap();
        let levels: Vec<Vec<String>> = serde_json::from_value(spec["levels"].clone()).expect("levels");
        std::thread::Builder::new().stack_size(1 << 30).spawn(move || std::fs::write(o, serde_json::to_vec_pretty(&prec::all(&levels)).unwrap()).unwrap()).unwrap().join().unwrap();
        return;
    }
    if a.get(2).map(|s| s == "cover").unwrap_or(false) {
        load(&a[1]);
        let o = a[4].clone();
        std::thread::Builder::new().stack_size(1 << 30).spawn(move || std::fs::write(o, serde_json::to_vec_pretty(&cover::all()).unwrap()).unwrap()).unwrap().join().unwrap();
        return;
    }
    load(&a[1]);
    std::thread::Builder::new().stack_size(1 << 30).spawn(move || run(a)).unwrap().join().unwrap();
}
fn load(f: &str) {
    let pr: ir::Program = serde_json::from_reader(std::io::BufReader::new(std::fs::File::open(f).unwrap())).unwrap();
    let p = match Prog::new(pr) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{}", e);
            std::process::exit(2)
        }
    };
    let _ = PROG.set(p);
}
fn run(a: Vec<String>) {
    println!("kinds {} rec {}", pg().start, pg().rec.iter().filter(|x| **x).count());
    let mut opts = std::collections::HashMap::new();
    if let Some(d) = a.get(2) {
        opts.insert("dialect".to_string(), d.parse().unwrap());
    }
    let mut e = interp::Eng::new(interp::Cfg { mode: interp::Mode::Token, opts, delim: std::env::var("SA_DELIM").ok().map(|d| pg().kind_named(&d).unwrap()), nest: std::env::var("SA_NEST").is_ok() });
    if let Ok(b) = std::env::var("SA_BUDGET") {
        e.budget = b.parse().unwrap()
    }
    e.learn.on = true;
    let t = std::time::Instant::now();
    let mut roots = vec![];
    for f in root::entries().unwrap() {
        roots.push(e.root(f));
        e.solve();
    }
    println!("time {:?} ctxs {} blocks {} exhausted {} calls {}", t.elapsed(), e.ctxs.len(), e.obs.blocks_run, e.exhausted, e.obs.calls);
    let mut cnt: std::collections::BTreeMap<String, (usize, usize, usize)> = Default::default();
    for c in &e.ctxs {
        let x = cnt.entry(pg().short(c.f)).or_default();
        x.0 += 1;
        x.1 += c.blocks.len();
        x.2 += c.exits.len();
    }
    let mut l: Vec<_> = cnt.into_iter().collect();
    l.sort_by_key(|x| std::cmp::Reverse(x.1 .1));
    for (n, x) in l.iter().take(25) {
        println!("  {:6} ctx {:8} states {:6} exits  {}", x.0, x.1, x.2, n)
    }
    if let Ok(n) = std::env::var("SA_CTX") {
        for c in &e.ctxs { if c.entry.g.copy > 0 { println!("COPYCTX {} {:?}", pg().short(c.f), c.deps.iter().map(|x| (pg().short(e.ctxs[x.0].f), x.1)).collect::<Vec<_>>()) } }
        for c in &e.ctxs {
            if pg().short(c.f) == n {
                for x in &c.exits { println!("EXIT copy={} adv={} iss={} {:?}", x.1.g.copy, x.1.g.adv, x.1.g.iss, x.1.locals[0]); }
                println!("CTX copy={} {:?} {:?} {:?}", c.entry.g.copy, c.entry.locals.iter().filter(|v| !matches!(v, val::V::Dead)).collect::<Vec<_>>(), c.entry.cells, c.entry.syms.iter().map(|s| (s.ks, s.ord)).collect::<Vec<_>>());
            }
        }
    }
    println!("unmodelled:");
    for (k, n) in &e.obs.unmodelled {
        println!("  {} {}", n, k)
    }
    println!("panics: (discharged {})", e.obs.discharged);
    for (k, n) in &e.obs.panics {
        println!("  {} | {} | {}", k.func, k.what, n)
    }
    println!("rules:");
    for (k, n) in &e.obs.rules {
        println!("  {} | {} | {} | {}", k.rule, k.func, k.what, n)
    }
    println!("seen c11 {:?} c20 {:?} c12 {} c11x {}", e.seen.c11, e.seen.c20, e.seen.c12.len(), e.seen.c11_exits.len());
    println!("noprogress: of {}", e.obs.backedges.len());
    for (k, n) in &e.obs.noprogress {
        println!("  {} | {} | {}", k.func, k.what, n)
    }
    if std::env::var("SA_LEARN").is_ok() {
        for (k, (s, t)) in &e.learn.spans {
            println!("SPAN {} | {} | {} | n={}", k, s.show(), t.show(), s.n)
        }
    }
    for r in roots {
        for (_, s) in &e.ctxs[r].exits {
            let mut t = val::Tags::new();
            s.locals[0].tags(&mut t);
            let bad: Vec<String> = s.g.bad.iter().map(|i| e.tag_name(i)).collect();
            println!("   last {:?} bad {:#?}", s.g.trace.last().map(|t| match t { val::V::Tok(s1) => pg().ks_names(&s.ks(*s1)), _ => "?".into() }), bad);
            println!("exit {} iss={} adv={} {:?} tags {}", pg().short(e.ctxs[r].f), s.g.iss, s.g.adv, s.locals[0], t.iter().count());
        }
    }
}

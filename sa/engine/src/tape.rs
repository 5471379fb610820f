//! Regular specification of the tokens: patterns to automaton.
use serde::Deserialize;
use std::collections::{BTreeSet, HashMap};

/// symbols: 0..=127 ASCII, 128 every other character, 129 end of input
pub const OTHER: usize = 128;
pub const END: usize = 129;

#[derive(Deserialize, Clone, Debug)]
pub struct Pat {
    /// kind of token; none: skipped
    #[serde(default)]
    pub token: Option<String>,
    pub re: String,
    /// what of it is the text: characters cut off in front and behind
    #[serde(default)]
    pub text: Option<(usize, usize)>,
    /// "upper": looked up by the upper-case text; otherwise the keyword itself
    #[serde(default)]
    pub keyword: Option<String>,
    /// decimal value of the text
    #[serde(default)]
    pub value: bool,
    /// never a token
    #[serde(default)]
    pub invalid: bool,
}
enum Re {
    Set(Vec<bool>),
    Seq(Vec<Re>),
    Alt(Vec<Re>),
    Star(Box<Re>),
    Opt(Box<Re>),
}
struct Parse<'a> {
    c: Vec<char>,
    i: usize,
    src: &'a str,
}
impl<'a> Parse<'a> {
    fn alt(&mut self) -> Re {
        let mut v = vec![self.seq()];
        while self.c.get(self.i) == Some(&'|') {
            self.i += 1;
            v.push(self.seq())
        }
        Re::Alt(v)
    }
    fn seq(&mut self) -> Re {
        let mut v = vec![];
        while let Some(c) = self.c.get(self.i) {
            if matches!(c, '|' | ')') {
                break;
            }
            let mut a = self.atom();
            while let Some(c) = self.c.get(self.i) {
                match c {
                    '*' => a = Re::Star(Box::new(a)),
                    '?' => a = Re::Opt(Box::new(a)),
                    _ => break,
                }
                self.i += 1
            }
            v.push(a)
        }
        Re::Seq(v)
    }
    fn esc(&mut self) -> usize {
        let c = self.c[self.i];
        self.i += 1;
        (match c {
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            c => c,
        }) as usize
    }
    fn atom(&mut self) -> Re {
        let c = self.c[self.i];
        self.i += 1;
        let mut s = vec![false; 129];
        match c {
            '(' => {
                let r = self.alt();
                assert!(self.c.get(self.i) == Some(&')'), "pattern {}", self.src);
                self.i += 1;
                return r;
            }
            '.' => s = vec![true; 129],
            '\\' => s[self.esc()] = true,
            '[' => {
                let neg = self.c[self.i] == '^';
                if neg {
                    self.i += 1
                }
                while self.c[self.i] != ']' {
                    let mut a = self.c[self.i] as usize;
                    self.i += 1;
                    if a == '\\' as usize {
                        a = self.esc()
                    }
                    let mut b = a;
                    if self.c[self.i] == '-' && self.c[self.i + 1] != ']' {
                        b = self.c[self.i + 1] as usize;
                        self.i += 2
                    }
                    s[a..=b].iter_mut().for_each(|x| *x = true)
                }
                self.i += 1;
                if neg {
                    s.iter_mut().for_each(|x| *x = !*x)
                }
            }
            c => s[c as usize] = true,
        }
        Re::Set(s)
    }
}
#[derive(Default)]
struct Nfa {
    eps: Vec<Vec<usize>>,
    step: Vec<Option<(Vec<bool>, usize)>>,
    acc: Vec<Option<usize>>,
}
impl Nfa {
    fn node(&mut self) -> usize {
        self.eps.push(vec![]);
        self.step.push(None);
        self.acc.push(None);
        self.eps.len() - 1
    }
    /// build from `a`; gives the node reached
    fn add(&mut self, r: &Re, a: usize) -> usize {
        match r {
            Re::Set(s) => {
                let m = self.node();
                self.eps[a].push(m);
                let b = self.node();
                self.step[m] = Some((s.clone(), b));
                b
            }
            Re::Seq(v) => v.iter().fold(a, |a, r| self.add(r, a)),
            Re::Alt(v) => {
                let e = self.node();
                for r in v {
                    let s = self.node();
                    self.eps[a].push(s);
                    let b = self.add(r, s);
                    self.eps[b].push(e)
                }
                e
            }
            Re::Star(r) => {
                let h = self.node();
                self.eps[a].push(h);
                let b = self.add(r, h);
                self.eps[b].push(h);
                let e = self.node();
                self.eps[h].push(e);
                e
            }
            Re::Opt(r) => {
                let e = self.node();
                self.eps[a].push(e);
                let b = self.add(r, a);
                self.eps[b].push(e);
                e
            }
        }
    }
}
/// automaton over symbols
pub struct Dfa {
    pub pats: Vec<Pat>,
    pub delta: Vec<Vec<Option<u16>>>,
    /// pattern matched in a state
    pub acc: Vec<Option<usize>>,
    /// no way on
    pub last: Vec<bool>,
}
impl Dfa {
    pub fn new(pats: &[Pat]) -> Dfa {
        let mut n = Nfa::default();
        let root = n.node();
        for (i, p) in pats.iter().enumerate() {
            let mut ps = Parse { c: p.re.chars().collect(), i: 0, src: &p.re };
            let r = ps.alt();
            assert!(ps.i == ps.c.len(), "pattern {}", p.re);
            let s = n.node();
            n.eps[root].push(s);
            let e = n.add(&r, s);
            n.acc[e] = Some(i)
        }
        let close = |v: BTreeSet<usize>| {
            let mut todo: Vec<usize> = v.iter().copied().collect();
            let mut v = v;
            while let Some(x) = todo.pop() {
                for y in &n.eps[x] {
                    if v.insert(*y) {
                        todo.push(*y)
                    }
                }
            }
            v
        };
        let s0 = close(BTreeSet::from([root]));
        let mut ids: HashMap<BTreeSet<usize>, u16> = HashMap::new();
        ids.insert(s0.clone(), 0);
        let mut states = vec![s0];
        let mut d = Dfa { pats: pats.to_vec(), delta: vec![], acc: vec![], last: vec![] };
        let mut i = 0;
        while i < states.len() {
            let cur = states[i].clone();
            let mut row = vec![None; 130];
            for (c, cell) in row.iter_mut().enumerate().take(129) {
                let t: BTreeSet<usize> = cur.iter().filter_map(|x| n.step[*x].as_ref()).filter(|(s, _)| s[c]).map(|(_, b)| *b).collect();
                if t.is_empty() {
                    continue;
                }
                let t = close(t);
                let k = ids.len() as u16;
                let id = *ids.entry(t.clone()).or_insert(k);
                if id == k {
                    states.push(t)
                }
                *cell = Some(id)
            }
            d.last.push(row.iter().all(|x| x.is_none()));
            d.delta.push(row);
            d.acc.push(cur.iter().filter_map(|x| n.acc[*x]).min());
            i += 1
        }
        d
    }
}
impl Dfa {
    pub fn accepts(&self, s: &str) -> bool {
        let mut q = 0usize;
        for c in s.chars() {
            match self.delta[q][if c.is_ascii() { c as usize } else { OTHER }] {
                Some(n) => q = n as usize,
                None => return false,
            }
        }
        self.acc[q].is_some()
    }
}

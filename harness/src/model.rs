//! The reference semantics of noodle expressions, written from `noodle_help.md` and independent
//! of the library: an AST, a renderer to query text, a sampler, a textbook automaton with edit
//! costs (the oracle), and a naive recursive matcher (which checks the oracle).

use crate::rng::Rng;
use std::collections::HashMap;

pub type Sym = u8; // 0..=25 letters, 26 punctuation, 27 space
pub type Mask = u32;
pub const LETTERS: Mask = (1 << 26) - 1;
pub const PUNCT: Mask = 1 << 26;
pub const SPACE: Mask = 1 << 27;
pub const ALL: Mask = (1 << 28) - 1;
pub const SYM_PUNCT: Sym = 26;
pub const SYM_SPACE: Sym = 27;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Standard,
    Super,
    Sub,
    Add(usize),
    Del(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ast {
    Class(Mask),
    Seq(Vec<Ast>),
    Alt(Vec<Ast>),
    Rep(Box<Ast>, usize, Option<usize>),
    Ana(Kind, Vec<Sym>),
    Subset(Vec<Ast>),
    Superset(Vec<Ast>),
    Substr(Vec<Ast>),
    Num(usize),
}

pub fn lit(s: &str) -> Ast {
    Ast::Seq(syms(s).into_iter().map(|c| Ast::Class(1 << c)).collect())
}

/// Symbols of ASCII text (without a trailing word end)
pub fn syms(s: &str) -> Vec<Sym> {
    s.chars()
        .map(|c| match c {
            'a'..='z' => c as u8 - b'a',
            'A'..='Z' => c as u8 - b'A',
            ' ' | '_' => SYM_SPACE,
            _ => SYM_PUNCT,
        })
        .collect()
}

pub fn sym_char(s: Sym) -> char {
    match s {
        SYM_PUNCT => '\'',
        SYM_SPACE => '_',
        _ => (b'a' + s) as char,
    }
}

impl Ast {
    /// Smallest & largest length in symbols
    pub fn fixed_len(&self) -> Option<usize> {
        fn seq(xs: &[Ast]) -> Option<usize> {
            xs.iter().map(|x| x.fixed_len()).sum()
        }
        match self {
            Ast::Class(_) => Some(1),
            Ast::Seq(xs) => seq(xs),
            Ast::Alt(xs) => {
                let l = xs[0].fixed_len()?;
                for x in xs {
                    if x.fixed_len()? != l {
                        return None;
                    }
                }
                Some(l)
            }
            Ast::Rep(x, min, max) => {
                if Some(*min) == *max {
                    Some(x.fixed_len()? * min)
                } else {
                    None
                }
            }
            Ast::Ana(kind, bank) => match kind {
                Kind::Standard => Some(bank.len()),
                Kind::Add(n) => Some(bank.len() + n),
                Kind::Del(n) => Some(bank.len().saturating_sub(*n)),
                _ => None,
            },
            Ast::Subset(_) | Ast::Superset(_) | Ast::Substr(_) => None,
            Ast::Num(n) => Some(n + 1),
        }
    }

    /// Which of space / punctuation are mentioned explicitly
    pub fn mentions(&self) -> Mask {
        match self {
            Ast::Class(m) => m & (SPACE | PUNCT),
            Ast::Seq(xs) | Ast::Alt(xs) | Ast::Subset(xs) | Ast::Substr(xs) => {
                xs.iter().fold(0, |a, x| a | x.mentions())
            }
            Ast::Superset(_) => SPACE | PUNCT,
            Ast::Rep(x, _, _) => x.mentions(),
            Ast::Ana(_, _) => 0,
            Ast::Num(_) => SPACE,
        }
    }

    pub fn has(&self, f: &dyn Fn(&Ast) -> bool) -> bool {
        f(self)
            || match self {
                Ast::Seq(xs) | Ast::Alt(xs) | Ast::Subset(xs) | Ast::Superset(xs)
                | Ast::Substr(xs) => xs.iter().any(|x| x.has(f)),
                Ast::Rep(x, _, _) => x.has(f),
                _ => false,
            }
    }

    pub fn has_anagram(&self) -> bool {
        self.has(&|x| matches!(x, Ast::Ana(..)))
    }

    pub fn has_substr(&self) -> bool {
        self.has(&|x| matches!(x, Ast::Substr(..)))
    }

    /// Rough number of automaton states
    pub fn size(&self) -> usize {
        match self {
            Ast::Class(_) => 1,
            Ast::Seq(xs) | Ast::Alt(xs) | Ast::Subset(xs) | Ast::Superset(xs)
            | Ast::Substr(xs) => 1 + xs.iter().map(|x| x.size()).sum::<usize>(),
            Ast::Rep(x, min, max) => 2 + x.size() * max.unwrap_or(*min).max(*min).max(1),
            Ast::Ana(_, bank) => 3 * bank.len(),
            Ast::Num(n) => n + 1,
        }
    }

    /// A random string of the language (`None` if an empty class is in the way)
    pub fn sample(&self, rng: &mut Rng, out: &mut Vec<Sym>) -> Option<()> {
        match self {
            Ast::Class(m) => {
                let n = m.count_ones() as usize;
                if n == 0 {
                    return None;
                }
                let mut k = rng.below(n);
                for s in 0..28u8 {
                    if m & (1 << s) != 0 {
                        if k == 0 {
                            out.push(s);
                            break;
                        }
                        k -= 1;
                    }
                }
            }
            Ast::Seq(xs) => {
                for x in xs {
                    x.sample(rng, out)?;
                }
            }
            Ast::Alt(xs) => rng.pick(xs).sample(rng, out)?,
            Ast::Rep(x, min, max) => {
                let hi = max.unwrap_or(min + 3).min(min + 6);
                let n = match rng.below(4) {
                    0 => *min,
                    1 if max.is_some() && max.unwrap() <= min + 40 => max.unwrap(),
                    _ => rng.range(*min, hi),
                };
                for _ in 0..n {
                    x.sample(rng, out)?;
                }
            }
            Ast::Ana(kind, bank) => {
                let mut b = bank.clone();
                rng.shuffle(&mut b);
                match kind {
                    Kind::Standard => {}
                    Kind::Super => {
                        for _ in 0..rng.below(4) {
                            b.push(rng.below(26) as u8);
                        }
                    }
                    Kind::Sub => {
                        let n = rng.below(b.len() + 1);
                        b.truncate(n);
                    }
                    Kind::Add(n) => {
                        for _ in 0..*n {
                            let c = if rng.pct(50) {
                                *rng.pick(bank)
                            } else {
                                rng.below(26) as u8
                            };
                            b.push(c);
                        }
                    }
                    Kind::Del(n) => b.truncate(bank.len().saturating_sub(*n)),
                }
                rng.shuffle(&mut b);
                out.extend(b);
            }
            Ast::Subset(xs) => {
                for x in xs {
                    if rng.pct(60) {
                        x.sample(rng, out)?;
                    }
                }
            }
            Ast::Superset(xs) => {
                for x in xs {
                    if rng.pct(40) {
                        out.push(rng.below(26) as u8);
                    }
                    x.sample(rng, out)?;
                }
                if rng.pct(40) {
                    out.push(rng.below(26) as u8);
                }
            }
            Ast::Substr(xs) => {
                let i = rng.below(xs.len());
                let j = rng.range(i, xs.len() - 1);
                for x in &xs[i..=j] {
                    x.sample(rng, out)?;
                }
            }
            Ast::Num(n) => {
                for _ in 0..*n {
                    out.push(rng.below(26) as u8);
                }
                out.push(SYM_SPACE);
            }
        }
        Some(())
    }
}

// --- Rendering

/// How much syntactic variation the renderer adds
#[derive(Clone, Copy)]
pub struct Style {
    pub upper: usize,    // percent of letters written in upper case
    pub space: usize,    // percent of token gaps with whitespace
    pub comment: usize,  // percent of token gaps with a block comment
    pub group: usize,    // percent of terms with a redundant group
    pub classes: usize,  // percent of classes spelled in an unusual way
}

pub const PLAIN: Style = Style {
    upper: 0,
    space: 0,
    comment: 0,
    group: 0,
    classes: 0,
};

pub const VARIED: Style = Style {
    upper: 20,
    space: 10,
    comment: 3,
    group: 5,
    classes: 30,
};

fn letter(rng: &mut Rng, st: &Style, s: Sym) -> char {
    let c = sym_char(s);
    if rng.pct(st.upper) {
        c.to_ascii_uppercase()
    } else {
        c
    }
}

fn class_tokens(rng: &mut Rng, st: &Style, m: Mask, out: &mut Vec<String>) {
    if m == LETTERS && !rng.pct(st.classes / 3) {
        out.push(".".into());
        return;
    }
    if m.count_ones() == 1 && !rng.pct(st.classes / 3) {
        out.push(letter(rng, st, m.trailing_zeros() as u8).to_string());
        return;
    }
    let only_letters = m & !LETTERS == 0;
    let mut body = m;
    out.push("[".into());
    if m == 0 || (only_letters && (m != LETTERS) && rng.pct(if m.count_ones() > 13 { 70 } else { st.classes / 4 })) {
        out.push("^".into());
        body = LETTERS & !m;
    }
    let mut items: Vec<Vec<String>> = vec![];
    let mut s = 0u8;
    while s < 28 {
        if body & (1 << s) == 0 {
            s += 1;
            continue;
        }
        let mut e = s;
        while e < 25 && body & (1 << (e + 1)) != 0 {
            e += 1;
        }
        if s < 26 && e >= s + 1 && (e > s + 3 || rng.pct(st.classes + 30)) {
            items.push(vec![
                letter(rng, st, s).to_string(),
                "-".into(),
                letter(rng, st, e).to_string(),
            ]);
            s = e + 1;
        } else {
            items.push(vec![letter(rng, st, s).to_string()]);
            s += 1;
        }
    }
    if rng.pct(st.classes) {
        rng.shuffle(&mut items);
        if !items.is_empty() && rng.pct(st.classes) {
            let dup = rng.pick(&items).clone();
            items.push(dup);
        }
    }
    out.extend(items.into_iter().flatten());
    out.push("]".into());
}

/// Tokens of a single grammar term
fn term_tokens(ast: &Ast, rng: &mut Rng, st: &Style, out: &mut Vec<String>) {
    let redundant = rng.pct(st.group);
    if redundant {
        out.push("(".into());
    }
    match ast {
        Ast::Class(m) => class_tokens(rng, st, *m, out),
        Ast::Seq(_) | Ast::Alt(_) | Ast::Rep(..) => {
            out.push("(".into());
            expr_tokens(ast, rng, st, out);
            out.push(")".into());
        }
        Ast::Ana(kind, bank) => {
            let mut s = String::from("<");
            for &c in bank {
                s.push(letter(rng, st, c));
            }
            match kind {
                Kind::Standard => {}
                Kind::Super => s.push('+'),
                Kind::Sub => s.push('-'),
                Kind::Add(n) => s.push_str(&format!("+{}", n)),
                Kind::Del(n) => s.push_str(&format!("-{}", n)),
            }
            s.push('>');
            out.push(s);
        }
        Ast::Subset(xs) | Ast::Superset(xs) | Ast::Substr(xs) => {
            out.push("(".into());
            for x in xs {
                term_tokens(x, rng, st, out);
            }
            out.push(
                match ast {
                    Ast::Subset(_) => ":-)",
                    Ast::Superset(_) => ":+)",
                    _ => ":^)",
                }
                .into(),
            );
        }
        Ast::Num(n) => out.push(n.to_string()),
    }
    if redundant {
        out.push(")".into());
    }
}

/// Tokens of a `sequence` element
fn item_tokens(ast: &Ast, rng: &mut Rng, st: &Style, out: &mut Vec<String>) {
    match ast {
        Ast::Rep(x, min, max) => {
            term_tokens(x, rng, st, out);
            let n = |x: usize| x.to_string();
            let plain = rng.pct(st.classes);
            match (*min, *max) {
                (0, Some(1)) if !plain => out.push("?".into()),
                (0, None) if !plain => out.push("*".into()),
                (1, None) if !plain => out.push("+".into()),
                (0, Some(m)) => out.extend(["{,".into(), n(m), "}".into()]),
                (m, None) => out.extend(["{".into(), n(m), ",}".into()]),
                (a, Some(b)) if a == b && !plain => out.extend(["{".into(), n(a), "}".into()]),
                (a, Some(b)) => out.extend(["{".into(), n(a), ",".into(), n(b), "}".into()]),
            }
        }
        _ => term_tokens(ast, rng, st, out),
    }
}

fn seq_tokens(ast: &Ast, rng: &mut Rng, st: &Style, out: &mut Vec<String>) {
    match ast {
        Ast::Seq(xs) if !xs.is_empty() => xs.iter().for_each(|x| match x {
            // A sequence inside of a sequence does not need a group
            Ast::Seq(ys) if ys.len() > 1 && !rng.pct(60) => seq_tokens(x, rng, st, out),
            _ => item_tokens(x, rng, st, out),
        }),
        _ => item_tokens(ast, rng, st, out),
    }
}

fn expr_tokens(ast: &Ast, rng: &mut Rng, st: &Style, out: &mut Vec<String>) {
    match ast {
        Ast::Alt(xs) => {
            for (i, x) in xs.iter().enumerate() {
                if i > 0 {
                    out.push("|".into());
                }
                seq_tokens(x, rng, st, out);
            }
        }
        _ => seq_tokens(ast, rng, st, out),
    }
}

pub fn join_tokens(tokens: &[String], rng: &mut Rng, st: &Style) -> String {
    let mut s = String::new();
    for (i, t) in tokens.iter().enumerate() {
        if i > 0 {
            let digits = |t: &String| t.bytes().all(|b| b.is_ascii_digit());
            if digits(&tokens[i - 1]) && digits(t) {
                s.push(' ');
            }
            if rng.pct(st.space) {
                for _ in 0..rng.range(1, 2) {
                    s.push(' ');
                }
            }
            if rng.pct(st.comment) {
                s.push_str(rng.pick(&["/**/", "/* x */", "/*a|(b*/", "/* * / */"]));
            }
        }
        s.push_str(t);
    }
    s
}

pub fn render(ast: &Ast, rng: &mut Rng, st: &Style) -> String {
    let mut tokens = vec![];
    expr_tokens(ast, rng, st, &mut tokens);
    join_tokens(&tokens, rng, st)
}

/// One line of a query
#[derive(Clone, Debug)]
pub struct Expr {
    pub ast: Ast,
    pub fuzz: Option<usize>,
    pub space: bool, // `!_` is written
    pub punct: bool, // `!'` is written
}

impl Expr {
    pub fn new(ast: Ast) -> Self {
        Expr {
            ast,
            fuzz: None,
            space: false,
            punct: false,
        }
    }

    pub fn render(&self, rng: &mut Rng, st: &Style) -> String {
        let mut s = render(&self.ast, rng, st);
        let mut opts = vec![];
        if self.space {
            opts.push("!_".to_string());
        }
        if self.punct {
            opts.push("!'".to_string());
        }
        if let Some(k) = self.fuzz {
            opts.push(format!("!{}", k));
        }
        if rng.pct(st.classes) {
            rng.shuffle(&mut opts);
        }
        for o in opts {
            s.push(' ');
            s.push_str(&o);
        }
        if rng.pct(st.comment * 3) {
            s.push_str(rng.pick(&[" // done", "-- x", " // /* (", "//", " /* z */"]));
        }
        s
    }
}

// --- Automaton with edit costs

pub const INF: u8 = 255;

#[derive(Default)]
struct Builder {
    eps: Vec<Vec<u32>>,
    edges: Vec<Vec<(Mask, u32)>>,
    substr_may_be_empty: bool,
}

impl Builder {
    fn fresh(&mut self) -> u32 {
        self.eps.push(vec![]);
        self.edges.push(vec![]);
        (self.eps.len() - 1) as u32
    }
    fn link(&mut self, a: u32, b: u32) {
        self.eps[a as usize].push(b);
    }
    fn edge(&mut self, a: u32, m: Mask, b: u32) {
        self.edges[a as usize].push((m, b));
    }

    fn build(&mut self, ast: &Ast, from: u32) -> u32 {
        match ast {
            Ast::Class(m) => {
                let e = self.fresh();
                self.edge(from, *m, e);
                e
            }
            Ast::Seq(xs) => {
                let mut cur = from;
                for x in xs {
                    cur = self.build(x, cur);
                }
                let e = self.fresh();
                self.link(cur, e);
                e
            }
            Ast::Alt(xs) => {
                let end = self.fresh();
                for x in xs {
                    let s = self.fresh();
                    self.link(from, s);
                    let e = self.build(x, s);
                    self.link(e, end);
                }
                end
            }
            Ast::Rep(x, min, max) => {
                let end = self.fresh();
                let mut cur = self.fresh();
                self.link(from, cur);
                for _ in 0..*min {
                    cur = self.build(x, cur);
                }
                match max {
                    Some(max) => {
                        for _ in *min..*max {
                            self.link(cur, end);
                            let s = self.fresh();
                            self.link(cur, s);
                            cur = self.build(x, s);
                        }
                        self.link(cur, end);
                    }
                    None => {
                        let l = self.fresh();
                        self.link(cur, l);
                        let s = self.fresh();
                        self.link(l, s);
                        let e = self.build(x, s);
                        self.link(e, l);
                        self.link(l, end);
                    }
                }
                end
            }
            Ast::Subset(xs) => {
                let xs = xs
                    .iter()
                    .map(|x| Ast::Rep(Box::new(x.clone()), 0, Some(1)))
                    .collect();
                self.build(&Ast::Seq(xs), from)
            }
            Ast::Superset(xs) => {
                let any = Ast::Rep(Box::new(Ast::Class(ALL)), 0, None);
                let mut ys = vec![any.clone()];
                for x in xs {
                    ys.push(x.clone());
                    ys.push(any.clone());
                }
                self.build(&Ast::Seq(ys), from)
            }
            Ast::Substr(xs) => {
                let end = self.fresh();
                if self.substr_may_be_empty {
                    self.link(from, end);
                }
                let mut prev: Option<u32> = None;
                for x in xs {
                    let s = self.fresh();
                    self.link(from, s);
                    if let Some(p) = prev {
                        self.link(p, s);
                    }
                    let e = self.build(x, s);
                    self.link(e, end);
                    prev = Some(e);
                }
                end
            }
            Ast::Num(n) => {
                let x = Ast::Seq(vec![
                    Ast::Rep(Box::new(Ast::Class(LETTERS)), *n, Some(*n)),
                    Ast::Class(SPACE),
                ]);
                self.build(&x, from)
            }
            Ast::Ana(kind, bank) => self.anagram(*kind, bank, from),
        }
    }

    /// States are how many of each letter of the bank were used, plus the number of extra letters
    fn anagram(&mut self, kind: Kind, bank: &[Sym], from: u32) -> u32 {
        let mut letters: Vec<Sym> = bank.to_vec();
        letters.sort_unstable();
        letters.dedup();
        let need: Vec<usize> = letters
            .iter()
            .map(|l| bank.iter().filter(|b| *b == l).count())
            .collect();
        let end = self.fresh();
        let mut ids: HashMap<(Vec<usize>, usize), u32> = HashMap::new();
        let zero = (vec![0; letters.len()], 0);
        let s = self.fresh();
        self.link(from, s);
        ids.insert(zero.clone(), s);
        let mut todo = vec![zero];
        while let Some(key) = todo.pop() {
            let id = ids[&key];
            let used: usize = key.0.iter().sum();
            let full = key.0 == need;
            let accept = match kind {
                Kind::Standard | Kind::Super => full,
                Kind::Sub => true,
                Kind::Add(n) => full && key.1 == n,
                Kind::Del(n) => used == bank.len().saturating_sub(n),
            };
            if accept {
                self.link(id, end);
            }
            let mut next: Vec<(Mask, (Vec<usize>, usize))> = vec![];
            for (i, &l) in letters.iter().enumerate() {
                let mut k = key.clone();
                if k.0[i] < need[i] {
                    k.0[i] += 1;
                    next.push((1 << l, k));
                }
            }
            match kind {
                Kind::Super => next.push((LETTERS, key.clone())),
                Kind::Add(n) if key.1 < n => {
                    let mut k = key.clone();
                    k.1 += 1;
                    next.push((LETTERS, k));
                }
                _ => {}
            }
            for (m, k) in next {
                let t = match ids.get(&k) {
                    Some(&t) => t,
                    None => {
                        let t = self.fresh();
                        ids.insert(k.clone(), t);
                        todo.push(k);
                        t
                    }
                };
                self.edge(id, m, t);
            }
        }
        end
    }
}

pub struct Nfa {
    closure: Vec<Vec<u32>>,
    edges: Vec<Vec<(Mask, u32)>>,
    start: u32,
    accept: u32,
    fuzz: u8,
}

impl Nfa {
    /// Automaton of `ast`, followed by any number of trailing spaces
    pub fn new(ast: &Ast, fuzz: usize, substr_may_be_empty: bool) -> Nfa {
        let mut b = Builder {
            substr_may_be_empty,
            ..Default::default()
        };
        let start = b.fresh();
        let tail = Ast::Rep(Box::new(Ast::Class(SPACE)), 0, None);
        let accept = b.build(&Ast::Seq(vec![ast.clone(), tail]), start);
        let n = b.eps.len();
        let mut closure = vec![];
        let mut mark = vec![usize::MAX; n];
        for i in 0..n {
            let mut out = vec![i as u32];
            mark[i] = i;
            let mut k = 0;
            while k < out.len() {
                for &j in &b.eps[out[k] as usize] {
                    if mark[j as usize] != i {
                        mark[j as usize] = i;
                        out.push(j);
                    }
                }
                k += 1;
            }
            // Only states with edges (and the accepting one) matter
            out.retain(|&j| j == accept || !b.edges[j as usize].is_empty());
            closure.push(out);
        }
        Nfa {
            closure,
            edges: b.edges,
            start,
            accept,
            fuzz: fuzz.min(200) as u8,
        }
    }

    pub fn states(&self) -> usize {
        self.edges.len()
    }

    fn insertions(&self, cost: &mut [u8]) {
        for k in 0..self.fuzz {
            // Costs only ever grow along an insertion, so one pass per level is enough
            for s in 0..cost.len() {
                if cost[s] != k {
                    continue;
                }
                for &(m, t) in &self.edges[s] {
                    if m & LETTERS != 0 {
                        for &u in &self.closure[t as usize] {
                            if cost[u as usize] > k + 1 {
                                cost[u as usize] = k + 1;
                            }
                        }
                    }
                }
            }
        }
    }

    pub fn begin(&self) -> Vec<u8> {
        let mut cost = vec![INF; self.edges.len()];
        for &u in &self.closure[self.start as usize] {
            cost[u as usize] = 0;
        }
        self.insertions(&mut cost);
        cost
    }

    /// Returns false if no state is left within the allowed cost
    pub fn step(&self, cost: &[u8], sym: Sym) -> Option<Vec<u8>> {
        let mut out = vec![INF; cost.len()];
        let mut alive = false;
        let bit = 1u32 << sym;
        for s in 0..cost.len() {
            let c = cost[s];
            if c == INF {
                continue;
            }
            for &(m, t) in &self.edges[s] {
                let c2 = if m & bit != 0 {
                    c
                } else if m & LETTERS != 0 && c < self.fuzz {
                    c + 1
                } else {
                    continue;
                };
                for &u in &self.closure[t as usize] {
                    if out[u as usize] > c2 {
                        out[u as usize] = c2;
                        alive = true;
                    }
                }
            }
            if c < self.fuzz && out[s] > c + 1 {
                out[s] = c + 1;
                alive = true;
            }
        }
        if !alive {
            return None;
        }
        self.insertions(&mut out);
        Some(out)
    }

    pub fn accepts(&self, cost: &[u8]) -> bool {
        cost[self.accept as usize] <= self.fuzz
    }

    pub fn matches(&self, input: &[Sym]) -> bool {
        let mut cost = self.begin();
        for &s in input {
            match self.step(&cost, s) {
                Some(c) => cost = c,
                None => return false,
            }
        }
        self.accepts(&cost)
    }
}

/// What the oracle knows about a line: everything `must` accepts has to match, and only what
/// `may` accepts is allowed to match (`None`: anything)
pub struct RefExpr {
    pub must: Nfa,
    pub may: Option<Nfa>,
    pub exact: bool,
    pub drop_space: bool,
    pub drop_punct: bool,
}

impl RefExpr {
    pub fn new(e: &Expr) -> RefExpr {
        let fuzz = e.fuzz.unwrap_or(0);
        let mentions = e.ast.mentions();
        let anagram_exact = !e.ast.has_anagram() || (fuzz == 0 && single_anagram_exact(&e.ast));
        let substr = e.ast.has_substr();
        RefExpr {
            must: Nfa::new(&e.ast, fuzz, false),
            may: Some(if anagram_exact {
                Nfa::new(&e.ast, fuzz, substr)
            } else {
                Nfa::new(&without_anagrams(&e.ast), fuzz, substr)
            }),
            exact: anagram_exact && !substr,
            drop_space: !(e.space || mentions & SPACE != 0),
            drop_punct: !(e.punct || mentions & PUNCT != 0),
        }
    }

    pub fn keeps(&self, s: Sym) -> bool {
        !((self.drop_space && s == SYM_SPACE) || (self.drop_punct && s == SYM_PUNCT))
    }

    pub fn filter(&self, input: &[Sym]) -> Vec<Sym> {
        input.iter().copied().filter(|&s| self.keeps(s)).collect()
    }

    /// (must match, may match)
    pub fn verdict(&self, input: &[Sym]) -> (bool, bool) {
        let x = self.filter(input);
        let must = self.must.matches(&x);
        if self.exact {
            return (must, must);
        }
        (must, self.may.as_ref().map_or(true, |n| n.matches(&x)))
    }
}

/// Every anagram replaced by what is known about it even where false positives are possible: its
/// length, and which letters it is made of
pub fn without_anagrams(ast: &Ast) -> Ast {
    let all = |xs: &[Ast]| xs.iter().map(without_anagrams).collect();
    match ast {
        Ast::Class(_) | Ast::Num(_) => ast.clone(),
        Ast::Seq(xs) => Ast::Seq(all(xs)),
        Ast::Alt(xs) => Ast::Alt(all(xs)),
        Ast::Subset(xs) => Ast::Subset(all(xs)),
        Ast::Superset(xs) => Ast::Superset(all(xs)),
        Ast::Substr(xs) => Ast::Substr(all(xs)),
        Ast::Rep(x, min, max) => Ast::Rep(Box::new(without_anagrams(x)), *min, *max),
        Ast::Ana(kind, bank) => {
            let own = bank.iter().fold(0, |m, c| m | 1 << c);
            let n = bank.len();
            let (mask, min, max) = match *kind {
                Kind::Standard => (own, n, Some(n)),
                Kind::Super => (LETTERS, n, None),
                Kind::Sub => (own, 0, Some(n)),
                Kind::Add(k) => (LETTERS, n + k, Some(n + k)),
                Kind::Del(k) => (own, n.saturating_sub(k), Some(n.saturating_sub(k))),
            };
            Ast::Rep(Box::new(Ast::Class(mask)), min, max)
        }
    }
}

/// Anagrams are only exact if they are at a fixed position: a single one, in a sequence whose
/// other elements have a fixed length
pub fn single_anagram_exact(ast: &Ast) -> bool {
    match ast {
        Ast::Ana(..) => true,
        // The word end after the last word is optional, so a match of it has no fixed length
        Ast::Seq(_) if ast.mentions() & SPACE != 0 => false,
        Ast::Seq(xs) => {
            let mut count = 0;
            for x in xs {
                if x.has_anagram() {
                    count += 1;
                    if !single_anagram_exact(x) {
                        return false;
                    }
                } else if x.fixed_len().is_none() {
                    return false;
                }
            }
            count == 1
        }
        _ => false,
    }
}

// --- Naive matcher, used to check the automaton (no edit costs)

pub fn naive(ast: &Ast, input: &[Sym], from: &[bool], substr_may_be_empty: bool) -> Vec<bool> {
    let n = input.len();
    let go = |a: &Ast, f: &[bool]| naive(a, input, f, substr_may_be_empty);
    let or = |a: &mut Vec<bool>, b: &[bool]| (0..=n).for_each(|i| a[i] |= b[i]);
    match ast {
        Ast::Class(m) => {
            let mut out = vec![false; n + 1];
            for i in 0..n {
                out[i + 1] = from[i] && m & (1 << input[i]) != 0;
            }
            out
        }
        Ast::Seq(xs) => xs.iter().fold(from.to_vec(), |f, x| go(x, &f)),
        Ast::Alt(xs) => {
            let mut out = vec![false; n + 1];
            xs.iter().for_each(|x| or(&mut out, &go(x, from)));
            out
        }
        Ast::Rep(x, min, max) => {
            let mut cur = from.to_vec();
            let mut out = vec![false; n + 1];
            let last = max.unwrap_or(min + n + 1);
            for k in 0..=last {
                if k >= *min {
                    or(&mut out, &cur);
                }
                if k < last {
                    cur = go(x, &cur);
                }
            }
            out
        }
        Ast::Subset(xs) => xs.iter().fold(from.to_vec(), |f, x| {
            let mut o = go(x, &f);
            or(&mut o, &f);
            o
        }),
        Ast::Superset(xs) => {
            let fill = |f: Vec<bool>| {
                let mut f = f;
                for i in 0..n {
                    f[i + 1] |= f[i];
                }
                f
            };
            xs.iter()
                .fold(fill(from.to_vec()), |f, x| fill(go(x, &f)))
        }
        Ast::Substr(xs) => {
            let mut out = vec![false; n + 1];
            if substr_may_be_empty {
                or(&mut out, from);
            }
            for i in 0..xs.len() {
                let mut f = from.to_vec();
                for x in &xs[i..] {
                    f = go(x, &f);
                    or(&mut out, &f);
                }
            }
            out
        }
        Ast::Num(k) => go(
            &Ast::Seq(vec![
                Ast::Rep(Box::new(Ast::Class(LETTERS)), *k, Some(*k)),
                Ast::Class(SPACE),
            ]),
            from,
        ),
        Ast::Ana(kind, bank) => {
            let count = |s: &[Sym], c: Sym| s.iter().filter(|&&x| x == c).count();
            let mut out = vec![false; n + 1];
            for i in 0..=n {
                if !from[i] {
                    continue;
                }
                for j in i..=n {
                    let s = &input[i..j];
                    let letters = s.iter().all(|&c| c < 26);
                    let ge = (0..26).all(|c| count(s, c) >= count(bank, c));
                    let le = (0..26).all(|c| count(s, c) <= count(bank, c));
                    out[j] |= letters
                        && match kind {
                            Kind::Standard => ge && le,
                            Kind::Super => ge,
                            Kind::Sub => le,
                            Kind::Add(k) => ge && s.len() == bank.len() + k,
                            Kind::Del(k) => le && s.len() == bank.len().saturating_sub(*k),
                        };
                }
            }
            out
        }
    }
}

pub fn naive_matches(ast: &Ast, input: &[Sym], substr_may_be_empty: bool) -> bool {
    let n = input.len();
    let mut from = vec![false; n + 1];
    from[0] = true;
    let out = naive(ast, input, &from, substr_may_be_empty);
    (0..=n).any(|i| out[i] && input[i..].iter().all(|&c| c == SYM_SPACE))
}

/// Textbook Levenshtein distance, used to check the edit costs
pub fn levenshtein(a: &[Sym], b: &[Sym]) -> usize {
    let mut row: Vec<usize> = (0..=b.len()).collect();
    for i in 0..a.len() {
        let mut prev = row[0];
        row[0] = i + 1;
        for j in 0..b.len() {
            let c = (prev + (a[i] != b[j]) as usize)
                .min(row[j] + 1)
                .min(row[j + 1] + 1);
            prev = row[j + 1];
            row[j + 1] = c;
        }
    }
    row[b.len()]
}

//! Workload generation: expressions, word lists built around strings the expressions accept, and
//! whole scenarios. Sizes are heavy-tailed, so that set representations cross machine-word limits.

use crate::model::*;
use crate::rng::Rng;

#[derive(Clone)]
pub struct Profile {
    pub space: usize,   // percent: leaf is `_`
    pub punct: usize,   // percent: leaf is `'`
    pub ana: usize,     // percent: leaf is an anagram
    pub setops: usize,  // percent: node is a subset/superset/substring
    pub num: usize,     // percent: leaf is a number
    pub fuzz: usize,    // percent: expression is fuzzy
    pub max_fuzz: usize,
    pub opts: usize,    // percent: `!_` / `!'` is written
}

pub const REGEX: Profile = Profile {
    space: 0,
    punct: 0,
    ana: 0,
    setops: 0,
    num: 0,
    fuzz: 0,
    max_fuzz: 0,
    opts: 0,
};

pub const MIXED: Profile = Profile {
    space: 3,
    punct: 2,
    ana: 3,
    setops: 8,
    num: 1,
    fuzz: 10,
    max_fuzz: 2,
    opts: 10,
};

#[derive(Clone)]
pub struct Alphabet(pub Vec<Sym>);

impl Alphabet {
    pub fn gen(rng: &mut Rng) -> Alphabet {
        let n = match rng.below(10) {
            0 => 1,
            1..=3 => 2,
            4..=6 => 3,
            7 => 5,
            8 => 9,
            _ => 26,
        };
        let mut xs: Vec<Sym> = if rng.pct(60) { (0..26).take(n.max(4)).collect() } else { (0..26).collect() };
        rng.shuffle(&mut xs);
        xs.truncate(n);
        Alphabet(xs)
    }

    pub fn pick(&self, rng: &mut Rng) -> Sym {
        *rng.pick(&self.0)
    }

    pub fn word(&self, rng: &mut Rng, lo: usize, hi: usize) -> Vec<Sym> {
        let n = rng.range(lo, hi);
        (0..n).map(|_| self.pick(rng)).collect()
    }
}

pub fn gen_class(rng: &mut Rng, al: &Alphabet, p: &Profile) -> Ast {
    for (pct, sym) in [(p.space, SPACE), (p.punct, PUNCT)] {
        if rng.pct(pct) {
            return Ast::Class(sym | match rng.below(20) {
                0..=12 => 0,
                13..=15 => 1 << al.pick(rng),
                16 => LETTERS,
                17 => LETTERS & !(1 << al.pick(rng)),
                18 => LETTERS & !(0..rng.range(1, 4)).fold(0, |m, _| m | 1 << al.pick(rng)),
                _ => SPACE | PUNCT | if rng.pct(50) { LETTERS } else { LETTERS & !(1 << al.pick(rng)) },
            });
        }
    }
    Ast::Class(match rng.below(20) {
        0..=11 => 1 << al.pick(rng),
        12 | 13 => LETTERS,
        14..=16 => (0..rng.range(1, 4)).fold(0, |m, _| m | 1 << al.pick(rng)),
        17 => {
            let (a, b) = (rng.below(26), rng.below(26));
            (a.min(b)..=a.max(b)).fold(0, |m, c| m | 1 << c)
        }
        18 => LETTERS & !(0..rng.range(1, 3)).fold(0, |m, _| m | 1 << al.pick(rng)),
        _ => {
            if rng.pct(2) {
                0
            } else {
                LETTERS & !(1 << al.pick(rng))
            }
        }
    })
}

pub fn gen_anagram(rng: &mut Rng, al: &Alphabet, max: usize) -> Ast {
    let n = match rng.below(8) {
        0 => 1,
        1..=5 => rng.range(2, 4),
        _ => rng.range(3, 7),
    }
    .min(max.max(1));
    let bank = al.word(rng, n, n);
    let kind = match rng.below(5) {
        0 => Kind::Standard,
        1 => Kind::Super,
        2 => Kind::Sub,
        3 => Kind::Add(rng.below(4)),
        _ => {
            let over = if rng.pct(5) { 3 } else { 1 };
            Kind::Del(rng.below(bank.len() + over))
        },
    };
    Ast::Ana(kind, bank)
}

fn gen_leaf(rng: &mut Rng, al: &Alphabet, p: &Profile, budget: usize) -> Ast {
    if rng.pct(p.ana) {
        return gen_anagram(rng, al, 4);
    }
    if rng.pct(p.num) {
        return Ast::Num(rng.below(5));
    }
    if budget >= 2 && rng.pct(25) {
        let n = rng.range(2, budget.min(4));
        return Ast::Seq((0..n).map(|_| gen_class(rng, al, p)).collect());
    }
    gen_class(rng, al, p)
}

/// Random tree with about `budget` leaves
pub fn gen_ast(rng: &mut Rng, al: &Alphabet, p: &Profile, budget: usize) -> Ast {
    if budget <= 1 || rng.pct(12) {
        return gen_leaf(rng, al, p, budget);
    }
    let split = |rng: &mut Rng, n: usize| -> Vec<usize> {
        let mut parts = vec![1; n];
        for _ in 0..budget.saturating_sub(n) {
            let i = rng.below(n);
            parts[i] += 1;
        }
        parts
    };
    if rng.pct(p.setops) {
        let n = rng.range(1, budget.min(5));
        let xs: Vec<Ast> = split(rng, n)
            .into_iter()
            .map(|b| gen_ast(rng, al, p, b))
            .collect();
        return match rng.below(3) {
            0 => Ast::Subset(xs),
            1 => Ast::Superset(xs),
            _ => Ast::Substr(xs),
        };
    }
    match rng.below(10) {
        0..=3 => {
            let n = rng.range(2, budget.min(6));
            Ast::Seq(
                split(rng, n)
                    .into_iter()
                    .map(|b| gen_ast(rng, al, p, b))
                    .collect(),
            )
        }
        4..=6 => {
            let n = rng.range(2, budget.min(4));
            Ast::Alt(
                split(rng, n)
                    .into_iter()
                    .map(|b| gen_ast(rng, al, p, b))
                    .collect(),
            )
        }
        _ => {
            let x = Box::new(gen_ast(rng, al, p, budget - 1));
            let (min, max) = match rng.below(10) {
                0 | 1 => (0, Some(1)),
                2 | 3 => (0, None),
                4 => (1, None),
                5 => {
                    let n = rng.below(4);
                    (n, Some(n))
                }
                6 => (rng.below(4), None),
                7 => (0, Some(rng.below(4))),
                _ => {
                    let a = rng.below(4);
                    (a, Some(a + rng.below(4)))
                }
            };
            Ast::Rep(x, min, max)
        }
    }
}

/// Expressions with many states, close to the sizes where bit sets get another word
pub fn gen_large(rng: &mut Rng, al: &Alphabet, p: &Profile) -> Ast {
    let target = *rng.pick(&[28, 31, 32, 33, 60, 63, 64, 65, 70, 95, 96, 97, 126, 127, 128, 129, 140, 190, 256]);
    let mut xs = vec![];
    let mut size = 0;
    while size < target {
        let x = match rng.below(6) {
            0 => {
                let n = rng.range(5, 40).min(target - size + 1);
                let slack = if rng.pct(50) { 0 } else { rng.below(n + 1) };
                Ast::Rep(Box::new(gen_class(rng, al, p)), n - slack, Some(n))
            }
            1 => gen_ast(rng, al, p, 6),
            2 => {
                let n = rng.range(2, 12);
                let xs: Vec<Ast> = (0..n)
                    .map(|_| {
                        let w = al.word(rng, 1, 4);
                        Ast::Seq(w.into_iter().map(|c| Ast::Class(1 << c)).collect())
                    })
                    .collect();
                let x = Ast::Alt(xs);
                if rng.pct(40) {
                    Ast::Rep(Box::new(x), 0, None)
                } else {
                    x
                }
            }
            _ => {
                let w = al.word(rng, 3, 15);
                Ast::Seq(w.into_iter().map(|c| Ast::Class(1 << c)).collect())
            }
        };
        size += x.size();
        xs.push(x);
    }
    Ast::Seq(xs)
}

pub fn gen_expr(rng: &mut Rng, al: &Alphabet, p: &Profile, large: usize) -> Expr {
    let ast = if rng.pct(large) {
        gen_large(rng, al, p)
    } else {
        let budget = match rng.below(10) {
            0 => 1,
            1..=4 => rng.range(2, 4),
            5..=7 => rng.range(3, 8),
            8 => rng.range(6, 14),
            _ => rng.range(10, 25),
        };
        gen_ast(rng, al, p, budget)
    };
    let mut e = Expr::new(ast);
    if rng.pct(p.fuzz) {
        e.fuzz = Some(if rng.pct(10) { 0 } else { rng.range(1, p.max_fuzz.max(1)) });
    }
    e.space = rng.pct(p.opts);
    e.punct = rng.pct(p.opts);
    e
}

// --- Words

#[derive(Clone, Debug)]
pub struct W {
    pub text: String,
    pub syms: Vec<Sym>, // with the trailing word end
    pub tranche: u8,
}

impl W {
    pub fn new(syms: &[Sym], rng: &mut Rng, tranche: u8) -> W {
        let text: String = syms
            .iter()
            .map(|&s| match s {
                SYM_PUNCT => {
                    if rng.pct(80) {
                        *rng.pick(&['\'', '\'', '-', '.', '!', ','])
                    } else {
                        // What has a meaning somewhere, or takes several bytes
                        *rng.pick(&['"', '\\', '<', '&', '/', '%', '$', '\u{2019}', '\u{8a9e}', '\u{1f600}', '\u{ad}'])
                    }
                }
                SYM_SPACE => ' ',
                _ => {
                    let c = sym_char(s);
                    if rng.pct(5) {
                        c.to_ascii_uppercase()
                    } else {
                        c
                    }
                }
            })
            .collect();
        let mut v = syms.to_vec();
        v.push(SYM_SPACE);
        let mut w = W {
            text,
            syms: v,
            tranche,
        };
        if rng.pct(2) {
            w.ligatures();
        }
        w
    }

    /// The same, with characters which stand for several letters each, some of them for more than
    /// they have bytes
    pub fn ligatures(&mut self) {
        for (long, short) in LIGATURES {
            self.text = self.text.replace(long, short);
        }
    }
}

pub const LIGATURES: &[(&str, &str)] = &[
    ("a.m.", "\u{33c2}"),
    ("''''", "\u{2057}"),
    ("...", "\u{2026}"),
    ("viii", "\u{2177}"),
    ("ffi", "\u{fb03}"),
    ("bar", "\u{3374}"),
    ("mol", "\u{33d6}"),
    ("cal", "\u{3388}"),
    ("rad", "\u{33ad}"),
    ("ff", "\u{fb00}"),
    ("fi", "\u{fb01}"),
    ("fl", "\u{fb02}"),
    ("st", "\u{fb06}"),
    ("cm", "\u{339d}"),
    ("cd", "\u{33c5}"),
    ("da", "\u{3372}"),
    ("db", "\u{33c8}"),
    ("dz", "\u{01f3}"),
    ("ha", "\u{33ca}"),
    ("in", "\u{33cc}"),
    ("iv", "\u{2173}"),
    ("kg", "\u{338f}"),
    ("lj", "\u{01c9}"),
    ("lm", "\u{33d0}"),
    ("ln", "\u{33d1}"),
    ("ma", "\u{3383}"),
    ("mb", "\u{33d4}"),
    ("mg", "\u{338e}"),
    ("na", "\u{3381}"),
    ("nj", "\u{01cc}"),
    ("pa", "\u{33a9}"),
    ("pc", "\u{3376}"),
    ("sr", "\u{33db}"),
    ("xi", "\u{217a}"),
    ("ae", "\u{00e6}"),
    ("oe", "\u{0153}"),
];

pub fn mutate(rng: &mut Rng, al: &Alphabet, s: &mut Vec<Sym>) {
    let c = if rng.pct(80) { al.pick(rng) } else { rng.below(28) as u8 };
    match rng.below(5) {
        0 | 1 if !s.is_empty() => {
            let i = rng.below(s.len());
            s[i] = c;
        }
        2 if !s.is_empty() => {
            let i = rng.below(s.len());
            s.remove(i);
        }
        3 if s.len() > 1 => {
            let i = rng.below(s.len() - 1);
            s.swap(i, i + 1);
        }
        _ => {
            let i = rng.below(s.len() + 1);
            s.insert(i, c);
        }
    }
}

/// Cut a sample into words: at some of its spaces, and anywhere else
fn cut(rng: &mut Rng, s: &[Sym], pieces: usize) -> Vec<Vec<Sym>> {
    let mut out = vec![];
    let mut cur = vec![];
    let p = if s.is_empty() { 0 } else { (pieces.saturating_sub(1)) * 100 / s.len().max(1) };
    for &c in s {
        if c == SYM_SPACE && rng.pct(85) {
            out.push(std::mem::take(&mut cur));
            continue;
        }
        cur.push(c);
        if rng.pct(p.min(70)) {
            out.push(std::mem::take(&mut cur));
        }
    }
    out.push(cur);
    out
}

pub struct WordsProfile {
    pub count: usize,
    pub pieces: usize,   // how many words a sample is cut into, at most
    pub noise: usize,    // percent of words which are noise
    pub punct: usize,    // percent of words with extra punctuation / spaces inside
    pub tranches: usize, // number of different tranches
}

pub fn gen_words(rng: &mut Rng, al: &Alphabet, exprs: &[Expr], wp: &WordsProfile) -> Vec<W> {
    let mut list: Vec<Vec<Sym>> = vec![];
    let mut guard = 0;
    while list.len() < wp.count && guard < wp.count * 10 {
        guard += 1;
        if exprs.is_empty() || rng.pct(wp.noise) {
            let hi = if rng.pct(3) { 60 } else { 6 };
            list.push(al.word(rng, 0, hi));
            continue;
        }
        let e = rng.pick(exprs);
        let mut s = vec![];
        if e.ast.sample(rng, &mut s).is_none() {
            s = al.word(rng, 0, 5);
        }
        s.truncate(240);
        let edits = match rng.below(10) {
            0..=5 => 0,
            6 | 7 => 1,
            _ => rng.range(1, 3),
        } + if e.fuzz.is_some() { rng.below(e.fuzz.unwrap() + 2) } else { 0 };
        for _ in 0..edits {
            mutate(rng, al, &mut s);
        }
        let pieces = rng.range(1, wp.pieces.max(1));
        for mut w in cut(rng, &s, pieces) {
            if rng.pct(wp.punct) {
                let i = rng.below(w.len() + 1);
                w.insert(i, if rng.pct(70) { SYM_PUNCT } else { SYM_SPACE });
            }
            if rng.pct(5) && !w.is_empty() {
                // A prefix of another word
                let n = rng.range(1, w.len());
                list.push(w[..n].to_vec());
            }
            list.push(w);
        }
        if rng.pct(4) {
            if let Some(w) = list.last().cloned() {
                list.push(w);
            }
        }
    }
    // Words without any letters are kept, but should not dominate
    let mut blanks = 0;
    list.retain(|w| {
        if w.is_empty() {
            blanks += 1;
            return blanks <= 1;
        }
        true
    });
    rng.shuffle(&mut list);
    list.truncate(wp.count.max(1));
    let tranches: Vec<u8> = {
        let mut t: Vec<u8> = (0..wp.tranches.max(1))
            .map(|_| if rng.pct(80) { rng.below(6) as u8 } else { rng.below(256) as u8 })
            .collect();
        t.sort_unstable();
        t
    };
    let mut words: Vec<W> = list
        .iter()
        .map(|s| {
            let t = *rng.pick(&tranches);
            W::new(s, rng, t)
        })
        .collect();
    if rng.pct(80) {
        words.sort_by(|a, b| (a.tranche, &a.syms, &a.text).cmp(&(b.tranche, &b.syms, &b.text)));
    } else {
        words.sort_by_key(|w| w.tranche);
    }
    words
}

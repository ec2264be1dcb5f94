//! Properties of the query engine, decided against the reference semantics

use crate::ctx::Ctx;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::scen::*;
use noodle::parser::{ExpressionAst, QueryAst};
use noodle::{Expression, QueryEvaluator, QueryResponse, Word};

#[derive(Clone)]
pub struct Cfg {
    pub profile: Profile,
    pub exprs: (usize, usize),
    pub depth: &'static [usize],
    pub large: usize, // percent of scenarios with large expressions
    pub style: Style,
    pub wide: usize, // percent of scenarios with more words
    pub punct_words: usize,
    pub node_cap: usize,
    pub result_cap: usize,
}

pub const BASE: Cfg = Cfg {
    profile: REGEX,
    exprs: (1, 1),
    depth: &[1],
    large: 6,
    style: VARIED,
    wide: 10,
    punct_words: 5,
    node_cap: 20_000,
    result_cap: 2_000,
};

pub struct Case {
    pub scen: Scen,
    pub refs: Vec<RefExpr>,
    pub reference: Reference,
}

pub type AstGen<'a> = &'a dyn Fn(&mut Rng, &Alphabet) -> Expr;

/// Draw scenarios until the reference search is small enough
pub fn scenario(rng: &mut Rng, cfg: &Cfg, gen: Option<AstGen>) -> Case {
    let mut depth_cut = 0;
    loop {
        let al = Alphabet::gen(rng);
        let n = rng.range(cfg.exprs.0, cfg.exprs.1);
        let large = if rng.pct(cfg.large) { 100 } else { 0 };
        let mut exprs: Vec<Expr> = (0..n)
            .map(|_| match gen {
                Some(g) => g(rng, &al),
                None => gen_expr(rng, &al, &cfg.profile, large),
            })
            .collect();
        // Several random expressions rarely have anything in common, so derive some from others
        for i in 1..exprs.len() {
            if rng.pct(45) {
                let j = rng.below(i);
                exprs[i] = relax(rng, &exprs[j], &al);
            }
        }
        let cost: usize = exprs
            .iter()
            .map(|e| e.ast.size() * (1 + e.fuzz.unwrap_or(0)))
            .sum();
        if cost > 600 {
            continue;
        }
        let mut depth = *rng.pick(cfg.depth);
        if depth > 2 && depth_cut > 3 {
            depth = 2;
        }
        let wp = WordsProfile {
            count: if rng.pct(cfg.wide) {
                rng.range(30, 300)
            } else if depth > 1 {
                rng.range(1, 14)
            } else {
                rng.range(1, 30)
            },
            pieces: if depth == 1 { 1 + rng.below(2) } else { depth.min(6) },
            noise: *rng.pick(&[5, 20, 50]),
            punct: cfg.punct_words,
            tranches: 1 + rng.below(4),
        };
        let words = gen_words(rng, &al, &exprs, &wp);
        let refs: Vec<RefExpr> = exprs.iter().map(RefExpr::new).collect();
        let r = reference(&refs, &words, depth, cfg.node_cap, cfg.result_cap);
        match r {
            None => {
                depth_cut += 1;
                continue;
            }
            Some(reference) => {
                let query = render_query(&exprs, rng, &cfg.style);
                return Case {
                    scen: Scen {
                        exprs,
                        query,
                        words,
                        depth,
                    },
                    refs,
                    reference,
                };
            }
        }
    }
}

/// An expression with something in common with `e`
pub fn relax(rng: &mut Rng, e: &Expr, al: &Alphabet) -> Expr {
    fn walk(rng: &mut Rng, a: &Ast, al: &Alphabet) -> Ast {
        if rng.pct(8) {
            return match rng.below(3) {
                0 => Ast::Rep(Box::new(a.clone()), 0, Some(rng.range(1, 2))),
                1 => Ast::Rep(Box::new(Ast::Class(LETTERS)), 0, None),
                _ => Ast::Alt(vec![a.clone(), Ast::Class(1 << al.pick(rng))]),
            };
        }
        match a {
            Ast::Class(m) if m & LETTERS != 0 && rng.pct(40) => Ast::Class(m | 1 << al.pick(rng)),
            Ast::Class(_) | Ast::Ana(..) | Ast::Num(_) => a.clone(),
            Ast::Seq(xs) => Ast::Seq(xs.iter().map(|x| walk(rng, x, al)).collect()),
            Ast::Alt(xs) => Ast::Alt(xs.iter().map(|x| walk(rng, x, al)).collect()),
            Ast::Rep(x, a, b) => Ast::Rep(Box::new(walk(rng, x, al)), *a, *b),
            Ast::Subset(xs) => Ast::Subset(xs.iter().map(|x| walk(rng, x, al)).collect()),
            Ast::Superset(xs) => Ast::Superset(xs.iter().map(|x| walk(rng, x, al)).collect()),
            Ast::Substr(xs) => Ast::Substr(xs.iter().map(|x| walk(rng, x, al)).collect()),
        }
    }
    let mut e = e.clone();
    match rng.below(5) {
        0 => e.ast = Ast::Superset(vec![walk(rng, &e.ast, al)]),
        1 => {
            // Length only
            if e.ast.mentions() == 0 {
                let lo = rng.below(3);
                e.ast = Ast::Rep(Box::new(Ast::Class(LETTERS)), lo, Some(lo + rng.range(1, 12)));
            } else {
                e.ast = walk(rng, &e.ast, al)
            }
        }
        _ => e.ast = walk(rng, &e.ast, al),
    }
    e
}

fn observe(c: &Case, t: &Trace, ctx: &mut Ctx) {
    let s = &c.scen;
    ctx.add("matches_checked", t.matches().count());
    ctx.add("phrases_checked", t.matches().filter(|m| m.len() > 1).count());
    ctx.add("reference_nodes", c.reference.nodes);
    ctx.add("words", s.words.len());
    ctx.max("longest_phrase", t.matches().map(|m| m.len()).max().unwrap_or(0));
    ctx.max("reference_states", c.refs.iter().map(|r| r.must.states()).max().unwrap_or(0));
    ctx.max("results_in_a_case", t.matches().count());
    ctx.max("expressions", s.exprs.len());
    // Non-trivial: something matches, and something does not
    let matched: std::collections::HashSet<u32> =
        t.paths().iter().filter(|p| p.len() == 1).map(|p| p[0]).collect();
    let phrases = t.matches().any(|m| m.len() > 1);
    let nontrivial = if s.depth == 1 {
        !matched.is_empty() && matched.len() < s.words.len()
    } else {
        phrases
    };
    ctx.case(&s.describe(), nontrivial);
}

/// Run the scenario and compare with the reference
pub fn check(c: &Case, ctx: &mut Ctx) -> Result<Trace, Fail> {
    let ast = parse(&c.scen.query)?;
    let words = c.scen.wordlist();
    for (w, m) in words.iter().zip(&c.scen.words) {
        if w.chars.iter().map(|c| c.as_index() as u8).ne(m.syms.iter().copied()) {
            return Err(format!("word {:?} was read as {:?}", m.text, w.chars));
        }
    }
    let t = run(&ast, &words, c.scen.depth, None, 100_000).map_err(|e| format!("{}; {}", e, c.scen.describe()))?;
    compare(&c.scen, &words, &t, &c.reference)?;
    observe(c, &t, ctx);
    Ok(t)
}

// C01
pub fn single_words(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg {
        wide: 40,
        punct_words: 10,
        ..BASE
    };
    let c = scenario(rng, &cfg, None);
    check(&c, ctx)?;
    Ok(())
}

// C02
pub fn phrases(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg {
        exprs: (1, 2),
        depth: &[2, 2, 3, 3, 4, 5, 7, 10],
        wide: 6,
        large: 4,
        ..BASE
    };
    let c = scenario(rng, &cfg, None);
    check(&c, ctx)?;
    Ok(())
}

// C03
pub fn conjunction(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg {
        exprs: (2, 6),
        depth: &[1, 2, 2, 3, 4],
        profile: if rng.pct(50) { MIXED } else { REGEX },
        large: 3,
        punct_words: 8,
        ..BASE
    };
    let c = scenario(rng, &cfg, None);
    let t = check(&c, ctx)?;
    let words = c.scen.wordlist();
    let mut got = t.paths();
    got.sort();

    // The order of the expressions, and repeating one, make no difference
    let mut exprs = c.scen.exprs.clone();
    rng.shuffle(&mut exprs);
    if rng.pct(30) {
        let e = rng.pick(&exprs).clone();
        exprs.push(e);
        ctx.add("duplicated_expression", 1);
    }
    let query = render_query(&exprs, rng, &PLAIN);
    let t2 = run(&parse(&query)?, &words, c.scen.depth, None, 100_000)?;
    let mut got2 = t2.paths();
    got2.sort();
    if got != got2 {
        return Err(format!(
            "reordered query {:?} gives {} results instead of {}; {}",
            query,
            got2.len(),
            got.len(),
            c.scen.describe()
        ));
    }
    ctx.add("permutations_compared", 1);

    // Every result of the query is a result of each of its expressions, and the other way round
    if c.scen.depth == 1 || c.reference.nodes < 3000 {
        let mut common: Option<Vec<Vec<u32>>> = None;
        for e in &c.scen.exprs {
            let q = e.render(rng, &PLAIN);
            let one = run(&parse(&q)?, &words, c.scen.depth, Some(20_000), 100_000)?.paths();
            if one.len() >= 20_000 {
                return Ok(());
            }
            let set: std::collections::HashSet<Vec<u32>> = one.into_iter().collect();
            common = Some(match common {
                None => set.into_iter().collect(),
                Some(c) => c.into_iter().filter(|p| set.contains(p)).collect(),
            });
        }
        let mut common = common.unwrap();
        common.sort();
        if common != got {
            return Err(format!(
                "{} results, but the separate expressions have {} in common; {}",
                got.len(),
                common.len(),
                c.scen.describe()
            ));
        }
        ctx.add("intersections_compared", 1);
    }
    Ok(())
}

// C04
pub fn anagrams(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), Fail> {
    let exact = rng.pct(60);
    let gen = move |rng: &mut Rng, al: &Alphabet| -> Expr {
        let a = gen_anagram(rng, al, 7);
        let ast = if exact {
            // At a fixed position: alone, or between parts with a fixed length
            if rng.pct(60) {
                a
            } else {
                let part = |rng: &mut Rng| match rng.below(4) {
                    0 => {
                        let x = Box::new(gen_class(rng, al, &REGEX));
                        let n = rng.below(3);
                        Ast::Rep(x, n, Some(n))
                    }
                    1 => {
                        let x = al.word(rng, 2, 2);
                        let y = al.word(rng, 2, 2);
                        let seq = |w: Vec<u8>| {
                            Ast::Seq(w.into_iter().map(|c| Ast::Class(1 << c)).collect())
                        };
                        Ast::Alt(vec![seq(x), seq(y)])
                    }
                    _ => gen_class(rng, al, &REGEX),
                };
                let mut xs = vec![];
                for _ in 0..rng.below(3) {
                    xs.push(part(rng));
                }
                xs.push(a);
                for _ in 0..rng.below(3) {
                    xs.push(part(rng));
                }
                Ast::Seq(xs)
            }
        } else {
            let p = Profile {
                ana: 30,
                setops: 6,
                ..REGEX
            };
            let n = rng.range(2, 7);
            gen_ast(rng, al, &p, n)
        };
        Expr::new(ast)
    };
    let cfg = Cfg {
        exprs: if rng.pct(80) { (1, 1) } else { (1, 3) },
        depth: &[1, 1, 1, 2, 3],
        wide: 25,
        ..BASE
    };
    let c = scenario(rng, &cfg, Some(&gen));
    check(&c, ctx)?;
    for e in &c.scen.exprs {
        for (kind, name) in [
            (Kind::Standard, "anagrams"),
            (Kind::Super, "superanagrams"),
            (Kind::Sub, "subanagrams"),
            (Kind::Add(0), "transadds"),
            (Kind::Del(0), "transdeletes"),
        ] {
            let same = |k: &Kind| std::mem::discriminant(k) == std::mem::discriminant(&kind);
            let found = e.ast.has(&|a| matches!(a, Ast::Ana(k, _) if same(k)));
            ctx.add(name, found as usize);
        }
    }
    ctx.add("exact_cases", c.refs.iter().all(|r| r.exact) as usize);
    Ok(())
}

// C05
pub fn set_operators(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), Fail> {
    let which = rng.below(3);
    let gen = move |rng: &mut Rng, al: &Alphabet| -> Expr {
        let p = Profile {
            setops: if rng.pct(50) { 0 } else { 15 },
            ..REGEX
        };
        let n = rng.range(1, 6);
        let xs: Vec<Ast> = (0..n)
            .map(|_| {
                let b = if rng.pct(60) { 1 } else { rng.range(1, 4) };
                gen_ast(rng, al, &p, b)
            })
            .collect();
        let x = match which {
            0 => Ast::Subset(xs),
            1 => Ast::Superset(xs),
            _ => Ast::Substr(xs),
        };
        let ast = match rng.below(8) {
            0 => Ast::Seq(vec![gen_class(rng, al, &p), x, gen_class(rng, al, &p)]),
            1 => Ast::Seq(vec![x, gen_ast(rng, al, &p, 3)]),
            2 => Ast::Alt(vec![gen_ast(rng, al, &p, 2), x]),
            3 => Ast::Rep(Box::new(x), rng.below(3), if rng.pct(50) { None } else { Some(3) }),
            _ => x,
        };
        Expr::new(ast)
    };
    let cfg = Cfg {
        exprs: if rng.pct(85) { (1, 1) } else { (1, 3) },
        depth: &[1, 1, 1, 2, 3],
        wide: 25,
        punct_words: 20,
        ..BASE
    };
    let c = scenario(rng, &cfg, Some(&gen));
    check(&c, ctx)?;
    ctx.add(["subsets", "supersets", "substrings"][which], 1);
    Ok(())
}

// C06
pub fn fuzzy(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), Fail> {
    let symbols = rng.pct(35);
    let p = Profile {
        fuzz: 100,
        max_fuzz: if rng.pct(20) { 5 } else { 2 },
        setops: 5,
        space: if symbols { *rng.pick(&[0, 5, 15]) } else { 0 },
        punct: if symbols { *rng.pick(&[0, 5, 15]) } else { 0 },
        num: if symbols { 2 } else { 0 },
        opts: if symbols { *rng.pick(&[0, 30]) } else { 0 },
        ..REGEX
    };
    let long = rng.pct(25) && !symbols;
    let gen = |rng: &mut Rng, al: &Alphabet| -> Expr {
        let mut e = if long {
            let w = al.word(rng, 4, 30);
            Expr::new(Ast::Seq(w.into_iter().map(|c| Ast::Class(1 << c)).collect()))
        } else {
            let b = rng.range(1, 9);
            Expr::new(gen_ast(rng, al, &p, b))
        };
        if symbols {
            e.space = rng.pct(p.opts);
            e.punct = rng.pct(p.opts);
        }
        if rng.pct(90) {
            e.fuzz = Some(rng.range(0, p.max_fuzz));
        }
        e
    };
    let cfg = Cfg {
        exprs: if rng.pct(75) { (1, 1) } else { (1, 3) },
        depth: &[1, 1, 1, 2, 3],
        wide: 20,
        punct_words: if symbols { 30 } else { 5 },
        node_cap: 6_000,
        ..BASE
    };
    let c = scenario(rng, &cfg, Some(&gen));
    let t = check(&c, ctx)?;
    ctx.max("edit_distance", c.scen.exprs.iter().filter_map(|e| e.fuzz).max().unwrap_or(0));

    // A plain word against the textbook distance
    if c.scen.exprs.len() == 1 && long {
        let e = &c.scen.exprs[0];
        let target: Option<Vec<Sym>> = match &e.ast {
            Ast::Seq(xs) => xs
                .iter()
                .map(|x| match x {
                    Ast::Class(m) if m.count_ones() == 1 => Some(m.trailing_zeros() as u8),
                    _ => None,
                })
                .collect(),
            _ => None,
        };
        if let Some(target) = target {
            let got: std::collections::HashSet<u32> =
                t.paths().iter().filter(|p| p.len() == 1).map(|p| p[0]).collect();
            for (i, w) in c.scen.words.iter().enumerate() {
                let letters: Vec<Sym> = w.syms.iter().copied().filter(|&s| s < 26).collect();
                let d = levenshtein(&target, &letters);
                if got.contains(&(i as u32)) != (d <= e.fuzz.unwrap_or(0)) {
                    return Err(format!(
                        "{:?} is at distance {}: {}; {}",
                        w.text,
                        d,
                        if got.contains(&(i as u32)) { "matched" } else { "not matched" },
                        c.scen.describe()
                    ));
                }
                ctx.add("distances_compared", 1);
            }
        }
    }
    Ok(())
}

// C07
pub fn explicit_symbols(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), Fail> {
    let p = Profile {
        space: *rng.pick(&[0, 10, 25]),
        punct: *rng.pick(&[0, 10, 25]),
        num: *rng.pick(&[0, 0, 30]),
        setops: 4,
        opts: *rng.pick(&[0, 20, 50]),
        ..REGEX
    };
    let enumeration = rng.pct(15);
    let gen = |rng: &mut Rng, al: &Alphabet| -> Expr {
        if enumeration {
            let n = rng.range(1, 3);
            let mut xs: Vec<Ast> = vec![];
            for _ in 0..n {
                if rng.pct(85) {
                    xs.push(Ast::Num(rng.range(0, 4)));
                } else {
                    xs.push(gen_class(rng, al, &p));
                }
            }
            return Expr::new(Ast::Seq(xs));
        }
        gen_expr(rng, al, &p, 0)
    };
    let cfg = Cfg {
        exprs: if rng.pct(70) { (1, 1) } else { (2, 3) },
        depth: &[1, 1, 2, 2, 3, 4],
        punct_words: 35,
        ..BASE
    };
    let c = scenario(rng, &cfg, Some(&gen));
    check(&c, ctx)?;
    for r in &c.refs {
        ctx.add("spaces_ignored", r.drop_space as usize);
        ctx.add("spaces_explicit", !r.drop_space as usize);
        ctx.add("punctuation_ignored", r.drop_punct as usize);
        ctx.add("punctuation_explicit", !r.drop_punct as usize);
    }
    Ok(())
}

fn mixed_cfg(rng: &mut Rng, depth: &'static [usize]) -> Cfg {
    Cfg {
        profile: if rng.pct(40) { MIXED } else { REGEX },
        exprs: (1, 3),
        depth,
        punct_words: 10,
        large: 4,
        ..BASE
    }
}

// C11
pub fn deadlines(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg {
        node_cap: 60_000,
        ..mixed_cfg(rng, &[1, 2, 3, 3, 4, 5])
    };
    let c = scenario(rng, &cfg, None);
    let ast = parse(&c.scen.query)?;
    let words = c.scen.wordlist();
    let total = c.reference.must.len() + c.reference.maybe.len();
    let limit = if rng.pct(60) { None } else { Some(rng.below(total + 2)) };
    let plain = run(&ast, &words, c.scen.depth, limit, 100_000)?;
    for _ in 0..2 {
        let t = run_interrupted(&ast, &words, c.scen.depth, limit, 100_000, rng)
            .map_err(|e| format!("{}; {}", e, c.scen.describe()))?;
        let a: Vec<_> = plain.matches().collect();
        let b: Vec<_> = t.matches().collect();
        if a != b {
            let i = (0..a.len().min(b.len())).find(|&i| a[i] != b[i]).unwrap_or(a.len().min(b.len()));
            return Err(format!(
                "interrupted run has {} results instead of {}, first difference at {}: {:?} / {:?}; {}",
                b.len(),
                a.len(),
                i,
                b.get(i),
                a.get(i),
                c.scen.describe()
            ));
        }
        ctx.add("timeouts", t.timeouts);
        ctx.add("interrupted_runs", 1);
        ctx.case(&format!("{} timeouts={}", c.scen.describe(), t.timeouts), t.timeouts > 0);
    }
    Ok(())
}

/// CPU time which this thread has taken
fn cpu_time() -> std::time::Duration {
    extern "C" {
        fn clock_gettime(clock: i32, time: *mut [i64; 2]) -> i32;
    }
    const CLOCK_THREAD_CPUTIME_ID: i32 = 3;
    let mut t = [0; 2];
    assert_eq!(unsafe { clock_gettime(CLOCK_THREAD_CPUTIME_ID, &mut t) }, 0, "HARNESS: clock");
    std::time::Duration::new(t[0] as u64, t[1] as u32)
}

/// A call may go on for as long after its deadline (and for a few times as long as a few hundred
/// words take)
const SLACK: std::time::Duration = std::time::Duration::from_millis(500);

/// C11, third part: so does a search which is still looking for single words
pub fn long_lists(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), Fail> {
    use std::time::{Duration, Instant};
    let letters = "abcdefghijklmnopqrstuvwxyz".as_bytes();
    let word = |rng: &mut Rng| -> Vec<u8> { (0..rng.range(10, 16)).map(|_| *rng.pick(letters)).collect() };
    let n = 30_000;
    let list: Vec<Word> = (0..n).map(|i| Word::new(&String::from_utf8(word(rng)).unwrap(), 0, i as u32)).collect();
    // Of many states, and (almost) never a result
    let kind = rng.below(3);
    let k = if kind == 1 { rng.range(4, 8) } else { rng.range(2, 4) };
    let parts: Vec<String> = (0..k)
        .map(|_| format!("{}.*{}", String::from_utf8(word(rng)).unwrap(), String::from_utf8(word(rng)).unwrap()))
        .collect();
    let query = match kind {
        // Every word may be part of a phrase
        0 => format!(".*({}).* !{}", parts.join("|"), rng.range(1, 3)),
        // None is, but that turns out at its end only
        1 => format!(".*({}).*", parts.join("|")).replace('.', "[a-y]").replace('z', "y"),
        // Every word is looked at by the second expression
        _ => format!(".*; .*({}).* !{}", parts.join("|"), rng.range(1, 3)),
    };
    let list: Vec<Word> = match kind {
        1 => list.iter().map(|w| Word::new(&format!("{}zz", w.text.replace('z', "y")), 0, w.score)).collect(),
        _ => list,
    };
    let ast = parse(&query)?;
    let start = |list| {
        let mut ev = QueryEvaluator::from_ast(&ast, list);
        ev.set_search_depth_limit(2);
        ev
    };

    // How long do a few hundred words take?
    let mut ev = start(&list[..256]);
    let cpu = cpu_time();
    let hour = Instant::now() + Duration::from_secs(3600);
    let _ = ev.next_within_deadline(Some(hour));
    let batch = cpu_time() - cpu;

    let mut ev = start(&list[..]);
    let mut timeouts = 0;
    let mut matches = 0;
    while timeouts < 5 && matches < 100 {
        let budget = Duration::from_millis(rng.below(20) as u64);
        let cpu = cpu_time();
        let r = ev.next_within_deadline(Some(Instant::now() + budget));
        let over = cpu_time().saturating_sub(cpu + budget);
        ctx.max("worst_overrun_on_long_lists_us", over.as_micros() as usize);
        if over > SLACK + batch * 8 {
            return Err(format!("{:?} of CPU time after the deadline, while 256 words take {:?}; {} random words, {}", over, batch, n, query));
        }
        match r {
            QueryResponse::Timeout => timeouts += 1,
            QueryResponse::Match(_) => matches += 1,
            _ => break,
        }
    }
    let whole = batch * (n as u32 / 256);
    ctx.max("longest_list_ms", whole.as_millis() as usize);
    ctx.add("timeouts_on_long_lists", timeouts);
    ctx.case(&format!("long list: {}", query), timeouts >= 5 && whole > 4 * (SLACK + batch * 8));
    Ok(())
}

/// C11, second part: a search which takes practically forever still hands over control
pub fn responsiveness(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), Fail> {
    use std::time::{Duration, Instant};
    // All of the words are usable in all of the positions, but no phrase is a result (or few are)
    let n = rng.range(20, 200);
    let words: Vec<W> = (0..n)
        .map(|i| {
            let mut s = vec![];
            let mut x = i + 2;
            while x > 0 {
                s.push((x % 3) as u8);
                x /= 3;
            }
            W::new(&s, rng, (i / 50) as u8)
        })
        .collect();
    let list = wordlist(&words);
    // Parity-like constraint, never satisfied together
    let k = rng.range(40, 60);
    let query = match rng.below(3) {
        0 => format!("[abc]*; [abc]{{{}}}z?; .{{{}}}", k, k + 1),
        1 => "((a|b|c)(a|b|c))*; ((a|b|c)(a|b|c))*(a|b|c)".to_string(),
        _ => "(..)*; (..)*.".to_string(),
    };
    let ast = parse(&query)?;
    let mut ev = QueryEvaluator::from_ast(&ast, &list);
    ev.set_search_depth_limit(30);
    let start = Instant::now();
    let mut timeouts = 0;
    let mut worst = Duration::ZERO;
    while timeouts < 20 {
        let before = Instant::now();
        let cpu = cpu_time();
        let budget = Duration::from_millis(rng.below(20) as u64 + 20);
        match ev.next_within_deadline(Some(before + budget)) {
            QueryResponse::Timeout => timeouts += 1,
            QueryResponse::Complete(_) => {
                // Everything was ruled out in advance
                ctx.add("completed_early", 1);
                ctx.case(&format!("{} words, {}", n, query), false);
                return Ok(());
            }
            _ => {}
        }
        // CPU time, which no other process can add to
        let over = cpu_time().saturating_sub(cpu + budget);
        worst = worst.max(over);
        if over > SLACK {
            return Err(format!("{:?} of CPU time after the deadline; {} words, {}", over, n, query));
        }
        let _ = ev.progress();
        if start.elapsed() > Duration::from_secs(300) {
            break;
        }
    }
    // Each call does at most a few hundred steps after its deadline, which is microseconds. (If the
    // deadline were ignored, the call would not return at all: the watchdog reports that.)
    ctx.max("worst_overrun_us", worst.as_micros() as usize);
    ctx.add("timeouts_of_endless_searches", timeouts);
    ctx.case(&format!("endless search: {} words, {}", n, query), timeouts >= 20);
    Ok(())
}

// C12
pub fn limits(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), Fail> {
    let cfg = mixed_cfg(rng, &[1, 2, 3, 4]);
    let c = scenario(rng, &cfg, None);
    let words = c.scen.wordlist();
    let ast = parse(&c.scen.query)?;
    let full = run(&ast, &words, c.scen.depth, None, 100_000)?;
    compare(&c.scen, &words, &full, &c.reference)?;
    let full: Vec<_> = full.matches().cloned().collect();
    let fail = |what: String| Err(format!("{}; {}", what, c.scen.describe()));

    // A limit gives exactly the first results
    for _ in 0..2 {
        let limit = match rng.below(5) {
            0 => 0,
            1 => full.len(),
            2 => full.len() + 1,
            3 => full.len().saturating_sub(1),
            _ => rng.below(full.len() + 1),
        };
        let depth = rng.below(c.scen.depth + 1);
        let t = run(&ast, &words, c.scen.depth, Some(limit), 100_000)?;
        let want: Vec<_> = full.iter().take(limit).cloned().collect();
        let got: Vec<_> = t.matches().cloned().collect();
        if got != want {
            return fail(format!("limit {} gives {} of {} results", limit, got.len(), full.len()));
        }
        ctx.add("limits_compared", 1);

        // The same limit, and perhaps another number of words, while single words are given
        let singles = full.iter().filter(|m| m.len() == 1).count();
        if singles > 0 {
            let done = rng.range(1, singles);
            let mut ev = QueryEvaluator::from_ast(&ast, &words);
            ev.set_search_depth_limit(c.scen.depth);
            ev.set_results_limit(None);
            let mut t = Trace::default();
            for _ in 0..done {
                t.push(ev.next_within_deadline(None));
            }
            ev.set_results_limit(Some(limit));
            let mut want: Vec<_> = full.clone();
            if c.scen.depth > 2 && rng.pct(50) {
                let depth = rng.range(2, c.scen.depth);
                ev.set_search_depth_limit(depth);
                want = run(&ast, &words, depth, None, 100_000)?.matches().cloned().collect();
            }
            want.truncate(limit.max(done));
            t.events.extend(drain(ev, 100_000)?.events);
            if !t.matches().eq(want.iter()) {
                return fail(format!(
                    "limit {} after {} single words gives {} of {} results",
                    limit, done, t.matches().count(), full.len()
                ));
            }
            ctx.add("limits_changed_in_between", 1);
        }

        // Fewer words per phrase give the shorter results; both through pragmas this time
        let spell = |name: &str, rng: &mut Rng| -> String {
            if rng.pct(20) {
                name.to_uppercase()
            } else {
                name.to_string()
            }
        };
        let mut lines: Vec<String> = vec![c.scen.query.clone()];
        let words_line = format!("{} {}", spell("#words", rng), depth);
        let limit_line = format!("{} {}", spell("#limit", rng), limit);
        for l in [words_line, limit_line] {
            // The last one counts
            if rng.pct(20) {
                let pre = format!("{} {}", l.split(' ').next().unwrap(), rng.below(9));
                let i = rng.below(lines.len() + 1);
                lines.insert(i, pre);
                lines.push(l);
            } else {
                let i = rng.below(lines.len() + 1);
                lines.insert(i, l);
            }
        }
        let query = lines.join("\n");
        let ast2 = parse(&query)?;
        if ast2.options.max_words != Some(depth) || ast2.options.results_limit != Some(limit) {
            return fail(format!("options of {:?} are {:?}", query, ast2.options));
        }
        let t = drain(QueryEvaluator::from_ast(&ast2, &words), 100_000)?;
        let mut got = t.paths();
        let mut want: Vec<Vec<u32>> = full
            .iter()
            .filter(|m| m.len() <= depth.max(1))
            .map(|m| m.iter().map(|w| w.score).collect())
            .collect();
        if got.len() != want.len().min(limit) {
            return fail(format!("{:?} gives {} results", query, got.len()));
        }
        if limit >= want.len() {
            got.sort();
            want.sort();
            if got != want {
                return fail(format!("{:?} gives other results", query));
            }
        } else if got.iter().any(|p| !want.contains(p)) {
            return fail(format!("{:?} gives other results", query));
        }
        ctx.add("pragmas_compared", 1);
        ctx.case(&format!("{} limit={} words={}", c.scen.describe(), limit, depth), limit < full.len() && limit > 0);
    }
    Ok(())
}

/// C12, second part: without pragmas there are up to 300 results of up to 10 words
pub fn defaults(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), Fail> {
    if rng.pct(50) {
        // Count of results
        let n = rng.range(250, 420);
        let phrase = rng.pct(50);
        let words: Vec<W> = (0..if phrase { 20 } else { n })
            .map(|i| {
                let s = [(i % 26) as u8, (i / 26) as u8, 3];
                W::new(&s, rng, 0)
            })
            .collect();
        let list = wordlist(&words);
        let query = if phrase { "......" } else { "..." };
        let t = drain(QueryEvaluator::from_ast(&parse(query)?, &list), 100_000)?;
        let total = if phrase { 400 } else { n };
        let got = t.matches().count();
        if got != total.min(300) {
            return Err(format!("{} results by default, of {} for {:?}", got, total, query));
        }
        ctx.add("default_limit_checked", 1);
        ctx.case(&format!("default limit {} {}", query, n), total > 300);
    } else {
        // Count of words
        let k = rng.range(8, 13);
        let s = vec![rng.below(26) as u8];
        let words = vec![W::new(&s, rng, rng.clone().below(3) as u8)];
        let list = wordlist(&words);
        let query = format!("{}{{{}}}", sym_char(s[0]), k);
        let t = drain(QueryEvaluator::from_ast(&parse(&query)?, &list), 100_000)?;
        let got: Vec<usize> = t.matches().map(|m| m.len()).collect();
        let want = if k <= 10 { vec![k] } else { vec![] };
        if got != want {
            return Err(format!("{:?} over one letter: phrases of {:?} words by default", query, got));
        }
        ctx.add("default_words_checked", 1);
        ctx.case(&query, k > 10);
    }
    Ok(())
}

// C13
pub fn order(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), Fail> {
    let cfg = mixed_cfg(rng, &[1, 2, 2, 3, 4, 6]);
    let c = scenario(rng, &cfg, None);
    let words = c.scen.wordlist();
    let ast = parse(&c.scen.query)?;
    let t = run(&ast, &words, c.scen.depth, None, 100_000)?;
    compare(&c.scen, &words, &t, &c.reference)?;
    let paths = t.paths();
    check_order(&c.scen, &paths)?;
    let t2 = run(&parse(&c.scen.query)?, &words, c.scen.depth, None, 100_000)?;
    if t2.paths() != paths {
        return Err(format!("a second run gives other results; {}", c.scen.describe()));
    }
    ctx.add("ordered_results", paths.len());
    let keys: std::collections::BTreeSet<(usize, u8)> = paths
        .iter()
        .map(|p| (p.len(), p.iter().map(|&i| c.scen.words[i as usize].tranche).max().unwrap()))
        .collect();
    ctx.max("length_tranche_classes", keys.len());
    ctx.case(&c.scen.describe(), keys.len() > 1);
    Ok(())
}

/// Phrases of dozens of words, for which the number of possible phrases exceeds all bounds. The
/// words have no letter in common, so that there is one way to read each result only
fn long_phrases(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), Fail> {
    let k = rng.range(1, 4);
    let mut letters: Vec<Sym> = (0..26).collect();
    rng.shuffle(&mut letters);
    let mut words: Vec<W> = vec![];
    let mut tranche = 0;
    for i in 0..k {
        let n = rng.range(1, 3);
        let s: Vec<Sym> = letters[i * 3..i * 3 + n].to_vec();
        tranche += rng.below(2) as u8;
        words.push(W::new(&s, rng, tranche));
    }
    words.sort_by(|a, b| (a.tranche, &a.syms).cmp(&(b.tranche, &b.syms)));
    let lit = |i: usize| {
        let s = &words[i].syms;
        Ast::Seq(s[..s.len() - 1].iter().map(|&c| Ast::Class(1 << c)).collect())
    };
    let mut branches = vec![];
    let mut want: std::collections::BTreeSet<Vec<u32>> = Default::default();
    let mut longest = 0;
    for _ in 0..rng.range(1, 3) {
        let (i, j) = (rng.below(k), rng.below(k));
        let lo = rng.range(1, 60);
        let hi = lo + rng.below(30);
        let (lo2, hi2) = *rng.pick(&[(0, 0), (0, 1), (1, 1), (0, 3), (2, 4)]);
        let rep = |i, a: usize, b| Ast::Rep(Box::new(lit(i)), a, Some(b));
        branches.push(Ast::Seq(if lo2 + hi2 == 0 { vec![rep(i, lo, hi)] } else { vec![rep(i, lo, hi), rep(j, lo2, hi2)] }));
        longest = longest.max(hi + hi2);
        for a in lo..=hi {
            for b in lo2..=hi2 {
                let mut p = vec![i as u32; a];
                p.extend(vec![j as u32; b]);
                want.insert(p);
            }
        }
    }
    let e = Expr::new(if branches.len() == 1 { branches.pop().unwrap() } else { Ast::Alt(branches) });
    let depth = if rng.pct(70) { longest + rng.below(10) } else { rng.range(1, longest) };
    want.retain(|p| p.len() <= depth);
    let scen = Scen {
        query: render_query(&[e.clone()], rng, &PLAIN),
        exprs: vec![e],
        words,
        depth,
    };
    let list = scen.wordlist();
    let ast = parse(&scen.query)?;
    let t = run(&ast, &list, depth, None, 100_000).map_err(|e| format!("{}; {}", e, scen.describe()))?;
    let paths = t.paths();
    check_order(&scen, &paths)?;
    let got: std::collections::BTreeSet<Vec<u32>> = paths.iter().cloned().collect();
    if got.len() != paths.len() {
        return Err(format!("a result is reported twice; {}", scen.describe()));
    }
    if let Some(p) = want.symmetric_difference(&got).next() {
        let what = if want.contains(p) { "missing" } else { "wrong" };
        return Err(format!("{} match: {}; {}", what, show(&scen.words, p), scen.describe()));
    }
    ctx.add("ordered_results", paths.len());
    ctx.add("matches_checked", paths.len());
    ctx.max("longest_phrase", paths.iter().map(|p| p.len()).max().unwrap_or(0));
    ctx.case(&scen.describe(), paths.iter().any(|p| p.len() >= 20));
    Ok(())
}

// C02, C13
pub fn many_words(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), Fail> {
    long_phrases(rng, ctx)
}

// C10
pub fn display(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg {
        profile: Profile {
            ana: 8,
            ..MIXED
        },
        exprs: (1, 2),
        depth: &[1, 1, 2],
        punct_words: 15,
        ..BASE
    };
    let c = scenario(rng, &cfg, None);
    let words = c.scen.wordlist();
    let ast = parse(&c.scen.query)?;
    let t = run(&ast, &words, c.scen.depth, None, 100_000)?;
    compare(&c.scen, &words, &t, &c.reference)?;
    let texts: Vec<String> = ast.expressions.iter().map(|e| e.to_string()).collect();
    let shown = texts.join("\n");
    let again = QueryAst::new_from_str(&shown)
        .map_err(|e| format!("displayed as {:?}, which is rejected: {}; {}", shown, e, c.scen.describe()))?;
    let t2 = run(&again, &words, c.scen.depth, None, 100_000)?;
    if t.paths() != t2.paths() {
        return Err(format!(
            "displayed as {:?}, which gives {} results instead of {}; {}",
            shown,
            t2.matches().count(),
            t.matches().count(),
            c.scen.describe()
        ));
    }
    for (a, b) in ast.expressions.iter().zip(&again.expressions) {
        let e = Expression::from_ast(a);
        let f = Expression::from_ast(b);
        if (e.fuzz, e.ignore_punctuation, e.ignore_word_boundaries)
            != (f.fuzz, f.ignore_punctuation, f.ignore_word_boundaries)
        {
            return Err(format!("the options of {:?} are lost; {}", a.to_string(), c.scen.describe()));
        }
        if e.text != a.to_string() {
            return Err(format!("text {:?} is not the displayed {:?}", e.text, a.to_string()));
        }
    }
    if again.expressions.len() != ast.expressions.len() {
        return Err(format!("{:?} has another number of expressions", shown));
    }
    // Trees of single expressions, in which anagrams are not expanded yet
    let mut single = vec![];
    for line in c.scen.query.split(['\n', ';']).filter(|l| !l.trim().is_empty()) {
        let a = ExpressionAst::new_from_str(line)
            .map_err(|e| format!("{:?} is rejected on its own: {}; {}", line, e, c.scen.describe()))?;
        let text = a.to_string();
        let b = ExpressionAst::new_from_str(&text)
            .map_err(|e| format!("{:?} is displayed as {:?}, which is rejected: {}", line, text, e))?;
        let (x, y) = (&a.options, &b.options);
        if (x.explicit_word_boundaries, x.explicit_punctuation, x.fuzz)
            != (y.explicit_word_boundaries, y.explicit_punctuation, y.fuzz)
        {
            return Err(format!("the options of {:?} are lost in {:?}", line, text));
        }
        if !text.contains('<') {
            let e = Expression::new(line).map_err(|e| format!("{:?} is rejected as an expression: {}", line, e))?;
            if e.text != text {
                return Err(format!("the text of {:?} is {:?}, but it is displayed as {:?}", line, e.text, text));
            }
        }
        ctx.add("anagrams_displayed", text.matches('<').count());
        single.push(text);
    }
    let shown = single.join("\n");
    let again = QueryAst::new_from_str(&shown)
        .map_err(|e| format!("displayed one by one as {:?}, which is rejected: {}; {}", shown, e, c.scen.describe()))?;
    let t3 = run(&again, &words, c.scen.depth, None, 100_000)?;
    if t.paths() != t3.paths() {
        return Err(format!(
            "displayed one by one as {:?}, which gives {} results instead of {}; {}",
            shown,
            t3.matches().count(),
            t.matches().count(),
            c.scen.describe()
        ));
    }
    ctx.add("displayed", texts.len());
    ctx.add("results_compared", t.matches().count());
    ctx.case(&shown, t.matches().count() > 0);
    Ok(())
}

/// C16: expressions of thousands of states, up to the largest ones which are accepted. Nothing is
/// known about how long they have to take, but that minutes are not it.
pub fn large(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), Fail> {
    let letters = ["a", "b", "c", "ab", "abc", "ba", "cab", "aaa", "bbbb", "abab", "ababab", "cccabc", "dab", "z", "aab"];
    let list: Vec<Word> = letters.iter().enumerate().map(|(i, l)| Word::new(l, 0, i as u32)).collect();
    let in_abc = |w: &str| w.chars().all(|c| "abc".contains(c));
    let kind = rng.below(7);
    let (query, want): (String, Box<dyn Fn(&str) -> bool>) = match kind {
        0 => (format!("a{{{}}}", rng.range(9_000, 16_000)), Box::new(|_| false)),
        1 => (format!("[abc]{{,{}}}", rng.range(6_000, 12_000)), Box::new(in_abc)),
        2 => (format!("(ab){{,{}}}", rng.range(1_000, 3_900)), Box::new(|w| w.replace("ab", "").is_empty())),
        3 => {
            let k = rng.range(1, 4);
            (format!("a{{{}}} !{}", rng.range(1_000, 12_000 / (k + 1)), k), Box::new(|_| false))
        }
        4 => {
            let k = rng.range(1, 4);
            let n = rng.range(1_000, 12_000 / (k + 1));
            (format!("[abc]{{,{}}} !{}", n, k), Box::new(move |w| w.chars().filter(|c| !"abc".contains(*c)).count() <= k))
        }
        5 => {
            // Any number of letters, but each of them at most as often as in the bank
            let mut bank: Vec<&str> = vec![];
            for c in ["a", "b", "c", "z"] {
                bank.extend(std::iter::repeat(c).take(rng.range(1, 5)));
            }
            let b = bank.concat();
            let count = |s: &str, c: char| s.chars().filter(|&x| x == c).count();
            let q = format!("<{}->", b);
            (q, Box::new(move |w| w.chars().all(|c| count(w, c) <= count(&b, c))))
        }
        _ => {
            // One after another
            let n = rng.range(500, 2_500);
            let q: String = (0..n).map(|_| *rng.pick(&["[ab]?", "c?", "a", "(a|bc)", "ab", ".{0,2}", "b"])).collect();
            let least = q.matches('a').count();
            (q, Box::new(move |w| w.len() >= least.min(100)))
        }
    };
    let cpu = cpu_time();
    let ast = match QueryAst::new_from_str(&query) {
        Ok(a) => a,
        Err(e) => return Err(format!("{:?} is rejected: {}", query, e)),
    };
    let t = run(&ast, &list, 1, None, 1_000)?;
    let took = cpu_time() - cpu;
    let mut got: Vec<u32> = t.paths().iter().map(|p| p[0]).collect();
    got.sort();
    let wanted: Vec<u32> = (0..list.len()).filter(|&i| want(letters[i])).map(|i| i as u32).collect();
    if got != wanted {
        return Err(format!("{:?}: results {:?} instead of {:?} of {:?}", query, got, wanted, letters));
    }
    ctx.add("large_expressions", 1);
    ctx.max("largest_expression_ms", took.as_millis() as usize);
    if took > std::time::Duration::from_secs(30) {
        return Err(format!("{:?} takes {:?} of CPU time over {} words", query, took, list.len()));
    }
    ctx.case(&query, true);
    Ok(())
}

/// C16, C15: expressions which are far too large. They may be rejected, and are; if they were not,
/// they would have to be evaluated as any other.
pub fn oversized(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), Fail> {
    let n = rng.range(8_300, 16_000);
    let k = rng.range(20, 40);
    let query = match rng.below(12) {
        0 => format!("<{}>", "a".repeat(n)),
        1 => format!("<{}+>", "a".repeat(n)),
        2 => format!("<{}->", "ab".repeat(n / 2)),
        3 => format!("<{}+{}>", "ab".repeat(n / 8), n),
        4 => format!("<{}-{}>", "a".repeat(n), rng.range(1, 5)),
        5 => format!("a{{{}}} !{}", n, rng.range(900, 2_000)),
        6 => format!("a{{{}}}", n + 8_200),
        7 => format!("(a{{{0}}}){{{0}}}b{{{1}}}", k * 4, n),
        8 => format!("((a{{{0}}}){{,{0}}}){{{0}}}", k),
        9 => format!("(a|bc|{}){{{}}}", "d".repeat(rng.range(1, 30)), n),
        10 => format!("({}:^){{{}}}", "ab".repeat(rng.range(1, 9)), n),
        _ => "[ab]?".repeat(n),
    };
    let words: Vec<Word> = ["a", "ab", "abc"].iter().enumerate().map(|(i, l)| Word::new(l, 0, i as u32)).collect();
    ctx.add("oversized", 1);
    match QueryAst::new_from_str(&query) {
        Err(_) => ctx.add("oversized_rejected", 1),
        Ok(ast) => {
            let t = run(&ast, &words, 1, None, 100)?;
            ctx.add("oversized_results", t.matches().count());
        }
    }
    ctx.case(&query, true);
    Ok(())
}

/// C16: one expression and one word which both are large, in a process of their own
pub fn huge(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), Fail> {
    // (Kept apart from the others because of the known finding)
    let _ = rng;
    let (query, n) = ("a{2000}", 20_000);
    let exe = std::env::current_exe().map_err(|e| format!("HARNESS: {}", e))?;
    let out = std::process::Command::new(exe)
        .args(["huge", query, &n.to_string()])
        .output()
        .map_err(|e| format!("HARNESS: {}", e))?;
    ctx.add("huge_words", 1);
    ctx.case(&format!("{} over a word of {} letters", query, n), true);
    if out.status.code() == Some(0) {
        return Ok(());
    }
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    if err.contains("memory allocation of") {
        return Err(format!("{} over a word of {} letters needs more than 4 GB of memory", query, n));
    }
    Err(format!("{} over a word of {} letters: {} {}", query, n, out.status, err.chars().take(300).collect::<String>()))
}

pub fn huge_child(query: &str, n: usize) -> i32 {
    let words: Vec<Word> = [n, 3, 2_000].iter().map(|&n| Word::new(&"a".repeat(n), 0, n as u32)).collect();
    let ast = QueryAst::new_from_str(query).unwrap();
    let got: Vec<usize> = QueryEvaluator::from_ast(&ast, &words)
        .filter_map(|r| match r {
            QueryResponse::Match(p) if p.len() == 1 => Some(p[0].text.len()),
            _ => None,
        })
        .collect();
    (got != [2_000]) as i32
}

// C16
pub fn robustness(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg {
        node_cap: 4_000,
        result_cap: 500,
        exprs: (0, 4),
        profile: Profile { ana: 5, ..MIXED },
        ..mixed_cfg(rng, &[0, 1, 2, 3])
    };
    let mut c = scenario(rng, &cfg, None);
    let kind = rng.below(10);
    match kind {
        0 => c.scen.words.clear(),
        6 => {
            // Characters which stand for more letters than they have bytes, in all of the longest words
            let n = rng.range(1, 6);
            let longest = (0..n).map(|_| {
                let syms: &[Sym] = match rng.below(3) {
                    0 => &[0, SYM_PUNCT, 12, SYM_PUNCT],
                    1 => &[SYM_PUNCT; 4],
                    _ => &[0, SYM_PUNCT, 12, SYM_PUNCT, SYM_PUNCT, SYM_PUNCT, SYM_PUNCT, SYM_PUNCT],
                };
                let mut w = W::new(syms, &mut Rng::new(0), 0);
                w.text = w.syms.iter().map(|&s| match s {
                    0 => 'a',
                    12 => 'm',
                    _ => '.',
                }).collect();
                w.text.pop();
                w.text = w.text.replace("a.m.", "\u{33c2}").replace("....", "\u{2057}");
                w
            }).collect::<Vec<_>>();
            if rng.pct(60) {
                c.scen.words.retain(|w| w.syms.len() <= 3);
            } else {
                c.scen.words.clear();
            }
            for w in c.scen.words.iter_mut() {
                w.tranche = 0;
            }
            c.scen.words.extend(longest);
            // Some expressions which let them pass
            if rng.pct(60) {
                let e = *rng.pick(&[".*", "[a-z]* !'", "('|.)*", "a'm'+", "(.'?)+", "'*.*'*"]);
                c.scen.query = if rng.pct(50) { format!("{};{}", c.scen.query, e) } else { e.to_string() };
            }
        }
        1 => {
            // Only blanks and punctuation
            for w in c.scen.words.iter_mut() {
                let n = rng.below(4);
                let s: Vec<Sym> = (0..n).map(|_| if rng.pct(50) { SYM_PUNCT } else { SYM_SPACE }).collect();
                *w = W::new(&s, rng, w.tranche);
            }
        }
        2 => {
            // A very long word
            let al = Alphabet((0..26).collect());
            let t = c.scen.words.last().map_or(0, |w| w.tranche);
            let n = rng.range(200, 3000);
            let s = al.word(rng, n, n);
            c.scen.words.push(W::new(&s, rng, t));
        }
        3 => {
            // All the same
            if let Some(w) = c.scen.words.first().cloned() {
                let n = c.scen.words.len();
                c.scen.words = vec![w; n];
            }
        }
        4 => c.scen.words.truncate(1),
        5 => c.scen.words.iter_mut().for_each(|w| w.tranche = 255),
        _ => {}
    }
    let modified = kind < 7;
    let limit = match rng.below(4) {
        0 => Some(0),
        1 => Some(rng.below(5)),
        2 => Some(usize::MAX),
        _ => Some(5_000),
    };
    let small = c.scen.words.len() < 3 || c.scen.exprs.is_empty();
    let depth = if small && rng.pct(30) { *rng.pick(&[20, 100]) } else { c.scen.depth };
    let words = c.scen.wordlist();
    let ast = parse(&c.scen.query)?;
    let mut ev = QueryEvaluator::from_ast(&ast, &words);
    if !rng.pct(20) {
        ev.set_search_depth_limit(depth);
        ev.set_results_limit(limit.map(|l| l.min(5_000)));
    } else {
        ev.set_search_depth_limit(depth.min(3));
    }
    let mut t = Trace::default();
    loop {
        let p = ev.progress();
        if p.contains("NaN") || p.contains("inf") {
            return Err(format!("progress is {:?}; {}", p, c.scen.describe()));
        }
        if let Some(percent) = p.split('(').nth(1).and_then(|s| s.split('%').next()).and_then(|s| s.parse::<u64>().ok()) {
            ctx.add("percentages", 1);
            if percent > 100 {
                return Err(format!("progress is {:?}; {}", p, c.scen.describe()));
            }
        }
        let _ = ev.expressions().iter().map(|e| e.text.len() + e.states_len()).sum::<usize>();
        ctx.add("progress_calls", 1);
        let more = t.push(ev.next_within_deadline(None));
        if !more {
            break;
        }
        if t.events.len() > 20_000 {
            return Err(format!("too many responses; {}", c.scen.describe()));
        }
        // An expired deadline, to have a look at the inside of a search
        if rng.pct(30) {
            let d = Some(std::time::Instant::now());
            match ev.next_within_deadline(d) {
                QueryResponse::Timeout => ctx.add("looked_inside", 1),
                r => {
                    if !t.push(r) {
                        break;
                    }
                }
            }
        }
    }
    for _ in 0..3 {
        let _ = ev.progress();
        let _ = ev.expressions();
        if !matches!(ev.next_within_deadline(None), QueryResponse::Complete(_)) {
            return Err("something followed Complete".into());
        }
    }
    if !modified && limit == Some(5_000) && depth == c.scen.depth && c.reference.must.len() < 300 {
        ctx.add("compared", 1);
        if c.scen.exprs.is_empty() {
            if t.matches().count() > 0 {
                return Err(format!("a query without expressions has results; {}", c.scen.describe()));
            }
        }
    }
    ctx.case(&format!("kind={} depth={} limit={:?} {}", kind, depth, limit, c.scen.describe()), true);
    Ok(())
}

// C22
pub fn locality(rng: &mut Rng, ctx: &mut Ctx) -> Result<(), Fail> {
    let cfg = mixed_cfg(rng, &[1, 2, 2, 3]);
    let c = scenario(rng, &cfg, None);
    let ast = parse(&c.scen.query)?;
    let words = c.scen.wordlist();
    let t = run(&ast, &words, c.scen.depth, None, 100_000)?;
    let paths = t.paths();

    // Any part of the list gives exactly the results which are made of that part
    let keep: Vec<bool> = (0..words.len()).map(|_| rng.pct(60)).collect();
    let part: Vec<_> = words.iter().filter(|w| keep[w.score as usize]).cloned().collect();
    let t2 = run(&ast, &part, c.scen.depth, None, 100_000)?;
    let mut want: Vec<_> = paths
        .iter()
        .filter(|p| p.iter().all(|&i| keep[i as usize]))
        .cloned()
        .collect();
    let mut got = t2.paths();
    want.sort();
    got.sort();
    if want != got {
        let diff = want.iter().find(|p| !got.contains(p)).or(got.iter().find(|p| !want.contains(p)));
        return Err(format!(
            "a part of the list gives {} results instead of {} (e.g. {:?}); kept={:?}; {}",
            got.len(),
            want.len(),
            diff,
            keep,
            c.scen.describe()
        ));
    }
    ctx.add("restrictions_compared", 1);

    // Other tranches, or another order, make no difference to the set of results
    let mut other = words.clone();
    let shift: Vec<u8> = (0..3).map(|_| rng.below(5) as u8).collect();
    for w in other.iter_mut() {
        w.tranche = shift[w.score as usize % 3];
    }
    rng.shuffle(&mut other);
    if rng.pct(70) {
        other.sort();
    } else {
        other.sort_by_key(|w| w.tranche);
    }
    let mut got = run(&ast, &other, c.scen.depth, None, 100_000)?.paths();
    let mut want = paths.clone();
    want.sort();
    got.sort();
    if want != got {
        return Err(format!(
            "another order of the list gives {} results instead of {}; {}",
            got.len(),
            want.len(),
            c.scen.describe()
        ));
    }
    ctx.add("reorderings_compared", 1);
    ctx.case(&c.scen.describe(), !paths.is_empty());
    Ok(())
}

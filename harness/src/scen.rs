//! A scenario: expressions, words and options; the reference answer; and the recorded run of the
//! real evaluator.

use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use noodle::parser::QueryAst;
use noodle::{QueryEvaluator, QueryResponse, Word};
use std::collections::HashMap;
use std::time::{Duration, Instant};

pub type Fail = String;
pub type Res = Result<(), Fail>;

#[derive(Clone)]
pub struct Scen {
    pub exprs: Vec<Expr>,
    pub query: String,
    pub words: Vec<W>,
    pub depth: usize,
}

impl Scen {
    pub fn describe(&self) -> String {
        let words: Vec<String> = self
            .words
            .iter()
            .map(|w| format!("{}:{}", w.tranche, w.text))
            .collect();
        format!(
            "query={:?} max_words={} words={:?}",
            self.query, self.depth, words
        )
    }

    /// Word list for the library; the score of a word is its index
    pub fn wordlist(&self) -> Vec<Word> {
        wordlist(&self.words)
    }
}

pub fn wordlist(words: &[W]) -> Vec<Word> {
    words
        .iter()
        .enumerate()
        .map(|(i, w)| Word::new(&w.text, w.tranche, i as u32))
        .collect()
}

pub fn render_query(exprs: &[Expr], rng: &mut Rng, st: &Style) -> String {
    let lines: Vec<String> = exprs.iter().map(|e| e.render(rng, st)).collect();
    let mut s = String::new();
    for (i, l) in lines.iter().enumerate() {
        if i > 0 {
            s.push(if rng.pct(50) { ';' } else { '\n' });
            if rng.pct(st.space / 2) {
                s.push_str("\n;");
            }
        }
        s.push_str(l);
    }
    s
}

// --- Reference search

pub struct Reference {
    pub must: Vec<Vec<u32>>,
    pub maybe: Vec<Vec<u32>>, // allowed, but not required
    pub nodes: usize,
}

#[derive(Clone)]
struct Cost {
    must: Option<Vec<u8>>,
    may: Option<Vec<u8>>,
}

/// Every phrase of up to `depth` words which matches all of the expressions; `None` if the search
/// has too many nodes or results.
pub fn reference(
    refs: &[RefExpr],
    words: &[W],
    depth: usize,
    node_cap: usize,
    result_cap: usize,
) -> Option<Reference> {
    struct S<'a> {
        refs: &'a [RefExpr],
        words: &'a [W],
        out: Reference,
        node_cap: usize,
        result_cap: usize,
        work: usize,
    }
    impl S<'_> {
        fn go(&mut self, depth: usize, costs: &[Cost], path: &mut Vec<u32>) -> Option<()> {
            for w in 0..self.words.len() {
                self.out.nodes += 1;
                if self.out.nodes > self.node_cap || self.work > self.node_cap * 2000 {
                    return None;
                }
                let mut next = Vec::with_capacity(costs.len());
                let mut must = true;
                let mut may = true;
                for (r, c) in self.refs.iter().zip(costs) {
                    let mut c = c.clone();
                    for &s in &self.words[w].syms {
                        if !r.keeps(s) {
                            continue;
                        }
                        self.work += r.must.states();
                        if let Some(x) = &c.must {
                            c.must = r.must.step(x, s);
                        }
                        if let Some(x) = &c.may {
                            c.may = r.may.as_ref().unwrap().step(x, s);
                        }
                    }
                    let this = c.must.as_ref().map_or(false, |x| r.must.accepts(x));
                    must &= this;
                    if r.exact {
                        may &= this;
                    } else {
                        may &= c.may.as_ref().map_or(false, |x| r.may.as_ref().unwrap().accepts(x));
                    }
                    let dead = c.must.is_none() && (r.exact || c.may.is_none());
                    next.push(c);
                    if dead {
                        must = false;
                        may = false;
                        break;
                    }
                }
                let alive = next.len() == costs.len()
                    && next
                        .iter()
                        .zip(self.refs)
                        .all(|(c, r)| c.must.is_some() || (!r.exact && c.may.is_some()));
                path.push(w as u32);
                if must {
                    self.out.must.push(path.clone());
                } else if may {
                    self.out.maybe.push(path.clone());
                }
                if self.out.must.len() + self.out.maybe.len() > self.result_cap {
                    return None;
                }
                if alive && depth > 1 {
                    self.go(depth - 1, &next, path)?;
                }
                path.pop();
            }
            Some(())
        }
    }
    let mut s = S {
        refs,
        words,
        out: Reference {
            must: vec![],
            maybe: vec![],
            nodes: 0,
        },
        node_cap,
        result_cap,
        work: 0,
    };
    let costs: Vec<Cost> = refs
        .iter()
        .map(|r| Cost {
            must: Some(r.must.begin()),
            may: if r.exact {
                None
            } else {
                r.may.as_ref().map(|n| n.begin())
            },
        })
        .collect();
    let mut path = vec![];
    if !refs.is_empty() {
        s.go(depth.max(1), &costs, &mut path)?;
    }
    Some(s.out)
}

// --- Recorded runs of the evaluator

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Match(Vec<Word>),
    Logs,
    Timeout,
    Complete(String),
}

#[derive(Clone, Default)]
pub struct Trace {
    pub events: Vec<Ev>,
    pub timeouts: usize,
    pub logs: usize,
}

impl Trace {
    pub fn matches(&self) -> impl Iterator<Item = &Vec<Word>> {
        self.events.iter().filter_map(|e| match e {
            Ev::Match(m) => Some(m),
            _ => None,
        })
    }

    pub fn paths(&self) -> Vec<Vec<u32>> {
        self.matches()
            .map(|m| m.iter().map(|w| w.score).collect())
            .collect()
    }

    pub fn completes(&self) -> usize {
        self.events
            .iter()
            .filter(|e| matches!(e, Ev::Complete(_)))
            .count()
    }

    pub fn push(&mut self, r: QueryResponse) -> bool {
        match r {
            QueryResponse::Match(m) => self.events.push(Ev::Match(m)),
            QueryResponse::Logs(_) => {
                self.logs += 1;
                self.events.push(Ev::Logs)
            }
            QueryResponse::Timeout => {
                self.timeouts += 1;
                self.events.push(Ev::Timeout)
            }
            QueryResponse::Complete(s) => {
                self.events.push(Ev::Complete(s));
                return false;
            }
        }
        true
    }
}

pub fn parse(query: &str) -> Result<QueryAst, Fail> {
    QueryAst::new_from_str(query)
        .map_err(|e| format!("valid query rejected: query={:?} error={}", query, e))
}

/// Run to the end without deadlines; stops after `cap` responses
pub fn run(ast: &QueryAst, words: &[Word], depth: usize, limit: Option<usize>, cap: usize) -> Result<Trace, Fail> {
    let mut ev = QueryEvaluator::from_ast(ast, words);
    ev.set_search_depth_limit(depth);
    ev.set_results_limit(limit);
    drain(ev, cap)
}

pub fn drain(ev: QueryEvaluator, cap: usize) -> Result<Trace, Fail> {
    let mut t = Trace::default();
    let mut last = true;
    for r in ev {
        if !last {
            return Err("a response followed Complete".into());
        }
        last = t.push(r);
        if t.events.len() > cap {
            return Err(format!("more than {} responses", cap));
        }
    }
    if last {
        return Err("iteration ended without Complete".into());
    }
    if t.timeouts > 0 {
        return Err("Timeout without a deadline".into());
    }
    Ok(t)
}

/// Same, through `next_within_deadline` with a schedule of deadlines and observers in between
pub fn run_interrupted(
    ast: &QueryAst,
    words: &[Word],
    depth: usize,
    limit: Option<usize>,
    cap: usize,
    rng: &mut Rng,
) -> Result<Trace, Fail> {
    let mut ev = QueryEvaluator::from_ast(ast, words);
    ev.set_search_depth_limit(depth);
    ev.set_results_limit(limit);
    let mut t = Trace::default();
    let mode = rng.below(5);
    let mut stalled = 0;
    let start = Instant::now();
    loop {
        if rng.pct(20) {
            let _ = ev.progress();
        }
        if rng.pct(5) {
            let _ = ev.expressions().len();
        }
        let deadline = match (mode, rng.below(10)) {
            _ if stalled > 40 || start.elapsed() > Duration::from_secs(10) => None,
            (0, _) => Some(Instant::now() + Duration::from_micros(rng.below(50) as u64)),
            (1, _) => Some(Instant::now()),
            (2, 0..=4) => None,
            (2, _) => Some(Instant::now() - Duration::from_millis(1)),
            (3, _) => Some(Instant::now() + Duration::from_micros(rng.below(2000) as u64)),
            (_, 0) => None,
            (_, _) => Some(Instant::now() + Duration::from_secs(3600)),
        };
        let r = ev.next_within_deadline(deadline);
        if matches!(r, QueryResponse::Timeout) {
            if deadline.is_none() {
                return Err("Timeout without a deadline".into());
            }
            if deadline.unwrap() > Instant::now() {
                return Err("Timeout before the deadline".into());
            }
            stalled += 1;
            t.timeouts += 1;
            continue;
        }
        stalled = 0;
        if !t.push(r) {
            break;
        }
        if t.events.len() > cap {
            return Err(format!("more than {} responses", cap));
        }
    }
    // Once complete, always complete
    for _ in 0..3 {
        let _ = ev.progress();
        let _ = ev.expressions().len();
        if !matches!(ev.next_within_deadline(None), QueryResponse::Complete(_)) {
            return Err("the evaluator gave something else after Complete".into());
        }
    }
    if ev.next().is_some() {
        return Err("the iterator gave something after Complete".into());
    }
    Ok(t)
}

pub fn show(words: &[W], path: &[u32]) -> String {
    let v: Vec<String> = path
        .iter()
        .map(|&i| match words.get(i as usize) {
            Some(w) => format!("{:?}#{}", w.text, i),
            None => format!("?#{}", i),
        })
        .collect();
    v.join(" + ")
}

/// Soundness, completeness, exactly-once, and that the words are reported as they were given
pub fn compare(s: &Scen, words: &[Word], t: &Trace, r: &Reference) -> Res {
    for m in t.matches() {
        if m.is_empty() || m.len() > s.depth.max(1) {
            return Err(format!("match of {} words; {}", m.len(), s.describe()));
        }
        for w in m {
            if words.get(w.score as usize) != Some(w) {
                return Err(format!("match has word {:?}, which is not in the list; {}", w, s.describe()));
            }
        }
    }
    let mut want: HashMap<&[u32], bool> = HashMap::new();
    for p in &r.must {
        want.insert(p, true);
    }
    for p in &r.maybe {
        want.insert(p, false);
    }
    let paths = t.paths();
    for p in &paths {
        match want.remove(&p[..]) {
            Some(_) => {}
            None if r.must.contains(p) || r.maybe.contains(p) => {
                return Err(format!("reported twice: {}; {}", show(&s.words, p), s.describe()))
            }
            None => {
                return Err(format!("wrong match: {}; {}", show(&s.words, p), s.describe()))
            }
        }
    }
    let mut missing: Vec<&&[u32]> = want.iter().filter(|(_, &m)| m).map(|(p, _)| p).collect();
    missing.sort_by_key(|p| (p.len(), p.to_vec()));
    if let Some(p) = missing.first() {
        return Err(format!(
            "missing match ({} of {}): {}; {}",
            missing.len(),
            r.must.len(),
            show(&s.words, p),
            s.describe()
        ));
    }
    Ok(())
}

/// The promised order: single words in the order of the list, before phrases; a phrase which is
/// both shorter-or-equal and commoner-or-equal comes first; otherwise equal ones are in the order
/// of the list
pub fn check_order(s: &Scen, paths: &[Vec<u32>]) -> Res {
    let key = |p: &Vec<u32>| {
        let t = p.iter().map(|&i| s.words[i as usize].tranche).max().unwrap();
        (p.len(), t)
    };
    let keys: Vec<(usize, u8)> = paths.iter().map(key).collect();
    let n = paths.len();
    for i in 0..n {
        for j in i + 1..n.min(i + 400) {
            let (a, b) = (keys[i], keys[j]);
            let bad = if b.0 == 1 {
                a.0 > 1 || paths[j] < paths[i]
            } else if a.0 == 1 {
                false
            } else if a == b {
                paths[j] < paths[i]
            } else {
                b.0 <= a.0 && b.1 <= a.1
            };
            if bad {
                return Err(format!(
                    "wrong order: {} before {}; {}",
                    show(&s.words, &paths[i]),
                    show(&s.words, &paths[j]),
                    s.describe()
                ));
            }
        }
    }
    Ok(())
}

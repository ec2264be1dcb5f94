//! C15: the workloads of the other properties, for builds which watch every memory access. Wrong
//! results and panics are the business of the other properties and are only counted here.

use crate::ctx::Ctx;
use crate::gen::*;
use crate::model::*;
use crate::props_engine as e;
use crate::props_text as t;
use crate::registry::CaseFn;
use crate::rng::Rng;
use crate::scen::*;
use noodle::parser::QueryAst;
use noodle::{QueryEvaluator, QueryResponse, Word};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

fn quietly(f: CaseFn, rng: &mut Rng, ctx: &mut Ctx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f(rng, ctx))) {
        Ok(Ok(())) => {}
        Ok(Err(m)) if m.starts_with("HARNESS: ") => return Err(m),
        other => {
            let panic = crate::driver::PANIC.lock().unwrap_or_else(|e| e.into_inner()).take();
            let what = other.ok().and_then(|r| r.err()).or(panic.map(|p| p.0)).unwrap_or_default();
            let short: String = what.chars().take(200).collect();
            ctx.add(&format!("left to other checks: {}", short), 1)
        }
    }
    Ok(())
}

/// Under AddressSanitizer
pub fn memory(rng: &mut Rng, ctx: &mut Ctx) -> Res {
    if rng.below(100) == 0 {
        return quietly(e::oversized, rng, ctx);
    }
    let f: CaseFn = match rng.below(22) {
        0 | 1 => e::single_words,
        2..=4 => e::phrases,
        5 | 6 => e::conjunction,
        7 | 8 => e::anagrams,
        9 | 10 => e::set_operators,
        11 | 12 => e::fuzzy,
        13 => e::explicit_symbols,
        14 => e::deadlines,
        15 => e::limits,
        16 => e::display,
        17 => e::robustness,
        18 => e::locality,
        19 => t::custom_wordlist,
        20 => t::load_words,
        _ => t::syntax,
    };
    quietly(f, rng, ctx)
}

/// Under Miri, which is slow: a small query, without a reference
pub fn interpreted(rng: &mut Rng, ctx: &mut Ctx) -> Res {
    quietly(interpreted_case, rng, ctx)
}

fn interpreted_case(rng: &mut Rng, ctx: &mut Ctx) -> Res {
    let al = Alphabet::gen(rng);
    let profile = if rng.pct(50) { MIXED } else { REGEX };
    let n = rng.range(1, 2);
    let mut exprs = vec![];
    while exprs.len() < n {
        let x = match rng.below(10) {
            // Around the sizes at which the sets of states grow by a block
            0 => {
                let k = *rng.pick(&[30, 31, 32, 33, 62, 64, 65]);
                Expr::new(Ast::Rep(Box::new(Ast::Class(1 << al.0[0])), 0, Some(k)))
            }
            1 => Expr::new(gen_anagram(rng, &al, 4)),
            _ => gen_expr(rng, &al, &profile, 0),
        };
        if x.ast.size() * (1 + x.fuzz.unwrap_or(0)) < 90 {
            exprs.push(x);
        }
    }
    let wp = WordsProfile {
        count: rng.range(1, 8),
        pieces: 2,
        noise: 20,
        punct: 10,
        tranches: 2,
    };
    let words = gen_words(rng, &al, &exprs, &wp);
    let query = render_query(&exprs, rng, &PLAIN);
    let list: Vec<Word> = wordlist(&words);
    let ast = QueryAst::new_from_str(&query).map_err(|e| e.to_string())?;
    for x in &ast.expressions {
        let _ = x.to_string();
    }
    let mut ev = QueryEvaluator::from_ast(&ast, &list);
    ev.set_search_depth_limit(rng.range(1, 3));
    ev.set_results_limit(Some(25));
    let mut results = 0;
    let mut calls = 0;
    let start = Instant::now();
    loop {
        let d = if rng.pct(30) { Instant::now() } else { Instant::now() + Duration::from_secs(1) };
        calls += 1;
        match ev.next_within_deadline(Some(d)) {
            QueryResponse::Match(_) => results += 1,
            QueryResponse::Complete(_) => break,
            QueryResponse::Timeout if start.elapsed() > Duration::from_secs(3) => {
                ctx.add("searches_cut_off", 1);
                break;
            }
            _ => {}
        }
        let _ = ev.progress();
        if calls > 300 {
            break;
        }
    }
    ctx.add("calls", calls);
    ctx.add("results", results);
    ctx.add("words", list.len());
    ctx.case(&query, results > 0);
    Ok(())
}

//! Which workloads decide which property

use crate::ctx::Ctx;
use crate::gen::*;
use crate::listgen;
use crate::memory;
use crate::page;
use crate::model::*;
use crate::props_engine as e;
use crate::props_text as t;
use crate::rng::Rng;
use crate::web;

pub type CaseFn = fn(&mut Rng, &mut Ctx) -> Result<(), String>;

pub struct Workload {
    pub name: &'static str,
    pub run: CaseFn,
    /// Number of cases in the quick and the thorough tier
    pub cases: (usize, usize),
    /// Number of processes
    pub procs: usize,
    pub kind: Kind,
    /// Seconds after which a case is looked at separately
    pub limit: u64,
}

/// The build which runs the cases
#[derive(Clone, Copy, PartialEq, Debug)]
#[allow(dead_code)]
pub enum Kind {
    Native,
    Asan,
    Miri,
}

pub struct Property {
    pub id: &'static str,
    pub workloads: Vec<Workload>,
    pub rule: &'static str,
}

fn w(name: &'static str, run: CaseFn, quick: usize, thorough: usize) -> Workload {
    Workload {
        name,
        run,
        cases: (quick, thorough),
        procs: 8,
        kind: Kind::Native,
        // (A case takes milliseconds)
        limit: 45,
    }
}

/// One at a time (there is one port)
fn w1(name: &'static str, run: CaseFn, quick: usize, thorough: usize) -> Workload {
    Workload {
        procs: 1,
        ..w(name, run, quick, thorough)
    }
}

pub fn properties() -> Vec<Property> {
    let p = |id, rule, workloads| Property {
        id,
        rule,
        workloads,
    };
    vec![
        p("C01", "a random regular expression over a small random alphabet (with some large repetitions), rendered as text, and a list of words drawn from what it accepts, near misses and noise; non-trivial: some words of the list match and some do not", vec![w("single_words", e::single_words, 300_000, 3_000_000)]),
        p("C02", "one or two random expressions, a list of words made of pieces of what they accept, and a limit of 2 to 10 words; every sequence of words up to the limit is judged by the reference; non-trivial: at least one phrase of several words is a result", vec![w("phrases", e::phrases, 160_000, 1_500_000), w("many_words", e::many_words, 1_000, 10_000)]),
        p("C03", "two to six random expressions (some derived from others so that they have something in common), compared with the reference, with their permutations, and with the intersection of separate runs; non-trivial: as for C01 with one word, C02 with more", vec![w("conjunction", e::conjunction, 50_000, 300_000)]),
        p("C04", "a random anagram of any kind, alone, between parts of a fixed length, or anywhere (where only bounds are known), and words which are rearrangements or nearly; non-trivial: as for C01/C02", vec![w("anagrams", e::anagrams, 240_000, 2_400_000)]),
        p("C05", "a random subset, superset or substring of random terms, alone or inside of other things, and a list of words as for C01; non-trivial: as for C01/C02", vec![w("set_operators", e::set_operators, 240_000, 2_400_000)]),
        p("C06", "a random expression with !N (or a plain word, which is also judged by the textbook edit distance), and words at various distances; non-trivial: as for C01/C02", vec![w("fuzzy", e::fuzzy, 300_000, 3_000_000)]),
        p("C07", "random expressions which mention spaces, punctuation, numbers or the options, and words which contain them; non-trivial: as for C01/C02", vec![w("explicit_symbols", e::explicit_symbols, 400_000, 4_000_000)]),
        p("C08", "random strings over the assigned characters of Unicode 3.2 (rare kinds of decomposition as likely as common ones) read by Word::new and searched for; non-trivial: not ASCII", vec![w("characters", t::characters, 1_000_000, 10_000_000)]),
        p("C09", "valid queries, damaged ones, and sequences of fragments of syntax, judged by an independent reader (accepted or not, line of the error, options, results); non-trivial: the reader is certain about them, or they have a result", vec![w("syntax", t::syntax, 600_000, 6_000_000), w("meaning", t::meaning, 120_000, 1_200_000)]),
        p("C14", "random files of 0 to 140,000 lines of all kinds, plain and compressed, intact and damaged, loaded and compared with what their lines say; non-trivial: some lines are words, and some are left out", vec![w("load_words", t::load_words, 12_000, 100_000)]),
        p("C15", "the workloads of the other properties under AddressSanitizer (with the checks of unsafe preconditions of the standard library), and small queries under Miri; non-trivial: as in the workload concerned", vec![
            Workload { kind: Kind::Asan, ..w("under_asan", memory::memory, 12_000, 300_000) },
            Workload { kind: Kind::Miri, ..w("under_miri", memory::interpreted, 96, 1_600) },
        ]),
        p("C17", "sessions of the real server with random word lists, and 60 random queries (some invalid) each by one of the channels, by up to 12 clients at a time; non-trivial: the query has results", vec![w1("web_answers", web::web_answers, 150, 4_000)]),
        p("C18", "sessions of the real server with up to 3 endless searches kept open and 12 to 40 visits of friendly and hostile clients at the same time, counters watched throughout; non-trivial: several queries were certainly counted", vec![w1("web_accounting", web::web_accounting, 25, 300), Workload { limit: 220, ..w1("web_timeouts", web::web_timeouts, 1, 3) }]),
        p("C19", "the real program with a random file, query and flags, output compared line by line; non-trivial: there are results", vec![w("command_line", web::command_line, 15_000, 200_000)]),
        p("C20", "random queries with their words in the query itself, and another list given; non-trivial: there are results", vec![w("custom_wordlist", t::custom_wordlist, 150_000, 1_500_000)]),
        p("C21", "random queries are evaluated as they are and spelled differently; non-trivial: there are results", vec![w("spellings", t::spellings, 150_000, 1_500_000)]),
        p("C23", "random sessions with the page (queries, messages of the server, sorting, filtering, stopping, copying), the state of the document compared with a model after most steps; its examples; and queries by way of the page and a real server; non-trivial: several results were received", vec![
            w("page_sessions", page::page_sessions, 4_000, 60_000),
            w("page_examples", page::page_examples, 60, 200),
            w1("page_and_server", page::page_and_server, 10, 200),
        ]),
        p("C24", "random texts of words in many spellings (accents, ligatures, quotes, numbers, domains); articles and dictionaries made of them, and the lists which are made of these; sequences of additions to lists; non-trivial: a word is not in its canonical form already, or there are several spellings of one", vec![
            w("spellings_of_words", listgen::spellings_of_words, 6_000, 100_000),
            w("pipeline", listgen::pipeline, 10_000, 150_000),
            w("lists", listgen::lists, 4_000, 60_000),
            w("dictionary", listgen::dictionary, 4_000, 60_000),
        ]),
        p("C10", "random queries are parsed, displayed, parsed again, and both evaluated; non-trivial: they have a result", vec![w("display", e::display, 60_000, 400_000)]),
        p("C11", "random queries are evaluated with random schedules of deadlines and observations, and compared with an uninterrupted run; endless searches, and long lists of words, are called with real deadlines; non-trivial: a run was interrupted at least once (20 times for endless ones, 5 for long lists)", vec![w("deadlines", e::deadlines, 80_000, 800_000), w("responsiveness", e::responsiveness, 16, 200), w("long_lists", e::long_lists, 16, 200)]),
        p("C12", "random queries are evaluated with and without limits, set by calls and by pragmas; and queries with more than 300 results, or of more than 10 words, without any; non-trivial: the limit cuts the results off", vec![w("limits", e::limits, 80_000, 800_000), w("defaults", e::defaults, 200, 2_000)]),
        p("C13", "random queries over lists in several tranches, each pair of results compared (up to 400 apart), and a second run; non-trivial: the results have several (length, tranche) classes", vec![w("order", e::order, 80_000, 800_000), w("many_words", e::many_words, 1_000, 10_000)]),
        p("C16", "random queries over extreme word lists with extreme limits, observed after each response; expressions of thousands of states, up to and beyond the largest ones which are accepted; distinct ones count", vec![w("robustness", e::robustness, 150_000, 1_500_000), w("large", e::large, 32, 400), w("oversized", e::oversized, 2_000, 20_000), w1("huge", e::huge, 1, 1)]),
        p("C22", "random queries are evaluated over a list, over a random part of it, and over it in another order and other tranches; non-trivial: there are results", vec![w("locality", e::locality, 100_000, 1_000_000)]),
    ]
}

/// The automaton against the naive matcher and the textbook distance
pub fn selftest() -> i32 {
    let mut rng = Rng::new(42);
    let mut n = 0;
    let mut yes = 0;
    for _ in 0..20_000 {
        let al = Alphabet::gen(&mut rng);
        let p = Profile {
            ana: 5,
            setops: 10,
            space: 5,
            punct: 5,
            num: 2,
            ..REGEX
        };
        let b = rng.range(1, 7);
        let ast = gen_ast(&mut rng, &al, &p, b);
        if ast.size() > 60 {
            continue;
        }
        let empty = rng.pct(50);
        let nfa = Nfa::new(&ast, 0, empty);
        for _ in 0..6 {
            let mut s = vec![];
            if ast.sample(&mut rng, &mut s).is_none() || s.len() > 30 {
                continue;
            }
            let k = rng.below(3);
            for _ in 0..k {
                mutate(&mut rng, &al, &mut s);
            }
            let a = nfa.matches(&s);
            let b = naive_matches(&ast, &s, empty);
            if a != b {
                println!("oracle mismatch: {:?} {:?} nfa={} naive={}", ast, s, a, b);
                return 1;
            }
            if k == 0 && !a && !matches!(&ast, Ast::Substr(_)) {
                println!("sample does not match: {:?} {:?}", ast, s);
                return 1;
            }
            n += 1;
            yes += a as usize;
        }
        let (x, y) = (al.word(&mut rng, 0, 8), al.word(&mut rng, 0, 8));
        let d = levenshtein(&x, &y);
        let lit = Ast::Seq(x.iter().map(|&c| Ast::Class(1 << c)).collect());
        for k in 0..6 {
            if Nfa::new(&lit, k, false).matches(&y) != (d <= k) {
                println!("distance mismatch: {:?} {:?} {} {}", x, y, d, k);
                return 1;
            }
        }
    }
    println!("{} compared, {} match", n, yes);
    0
}

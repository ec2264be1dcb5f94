//! Properties of the text side: characters, query syntax, word list files

use crate::ctx::Ctx;
use crate::gen::*;
use crate::model::*;
use crate::props_engine::*;
use crate::refparse::{self, Read};
use crate::rng::Rng;
use crate::scen::*;
use noodle::parser::QueryAst;
use noodle::{load_wordlist, QueryEvaluator, Word};
use std::sync::OnceLock;

// --- C08: characters

struct Fold {
    ranges: Vec<(u32, u32, Vec<Sym>)>,
    /// Ranges by what they fold to, so that rare kinds are as likely as common ones
    by_kind: Vec<Vec<usize>>,
}

fn fold_table() -> &'static Fold {
    static T: OnceLock<Fold> = OnceLock::new();
    T.get_or_init(|| {
        let mut ranges = vec![];
        let mut kinds: std::collections::BTreeMap<usize, Vec<usize>> = Default::default();
        for l in include_str!("../data/fold.tsv").lines() {
            let f: Vec<&str> = l.split('\t').collect();
            let s = syms(f[2]);
            let letters = s.iter().any(|&c| c < 26);
            let space = s.contains(&SYM_SPACE);
            let kind = s.len().min(4) + 5 * letters as usize + 10 * space as usize;
            kinds.entry(kind).or_default().push(ranges.len());
            ranges.push((f[0].parse().unwrap(), f[1].parse().unwrap(), s));
        }
        Fold {
            ranges,
            by_kind: kinds.into_values().collect(),
        }
    })
}

fn fold_char(rng: &mut Rng) -> (char, Vec<Sym>) {
    let t = fold_table();
    let i = if rng.pct(70) {
        let k = rng.pick(&t.by_kind);
        *rng.pick(k)
    } else {
        rng.below(t.ranges.len())
    };
    let (a, b, s) = &t.ranges[i];
    let c = rng.range(*a as usize, *b as usize) as u32;
    (char::from_u32(c).unwrap(), s.clone())
}

fn fold_text(rng: &mut Rng, max: usize) -> (String, Vec<Sym>) {
    let n = match rng.below(10) {
        0 => 0,
        1 => rng.range(15, max),
        _ => rng.range(1, 12),
    };
    let mut text = String::new();
    let mut out = vec![];
    let accents = rng.below(100);
    for _ in 0..n {
        if rng.pct(accents) {
            let (c, s) = fold_char(rng);
            text.push(c);
            out.extend(s);
        } else {
            let c = match rng.below(12) {
                0 => rng.range(32, 126) as u8 as char,
                1 => (b'A' + rng.below(26) as u8) as char,
                2 => *rng.pick(&[' ', '_', '\'', '-', '.', '0', '9', '\u{301}', '\u{308}', 'é', 'ß', 'ﬁ', 'Æ', 'œ', 'ı', 'K', 'ſ', '…', '\u{a0}']),
                _ => (b'a' + rng.below(26) as u8) as char,
            };
            let t = fold_table();
            let i = t.ranges.partition_point(|r| r.1 < c as u32);
            let (a, b, s) = &t.ranges[i];
            if !(*a..=*b).contains(&(c as u32)) {
                continue;
            }
            text.push(c);
            out.extend(s);
        }
    }
    (text, out)
}

pub fn characters(rng: &mut Rng, ctx: &mut Ctx) -> Res {
    let (text, want) = fold_text(rng, 60);
    let (tranche, score) = (rng.below(256) as u8, rng.next() as u32);
    let w = Word::new(&text, tranche, score);
    let got: Vec<Sym> = w.chars.iter().map(|c| c.as_index() as u8).collect();
    let mut full = want.clone();
    full.push(SYM_SPACE);
    if got != full {
        let show = |v: &[Sym]| v.iter().map(|&s| sym_char(s)).collect::<String>();
        return Err(format!("{:?} is read as {:?} instead of {:?}", text, show(&got), show(&full)));
    }
    if w.text.as_ref() != text || w.tranche != tranche || w.score != score {
        return Err(format!("{:?} was changed: {:?}", text, w));
    }
    for (c, &s) in w.chars.iter().zip(&full) {
        if c.into_char() != sym_char(s) {
            return Err(format!("{:?} displays as {:?}", s, c));
        }
    }
    ctx.add("characters", text.chars().count());

    // The letters alone find it; and exactly so with explicit symbols
    let letters: Vec<Sym> = want.iter().copied().filter(|&s| s < 26).collect();
    if letters.is_empty() || want.len() > 60 {
        ctx.case(&text, !text.is_ascii());
        return Ok(());
    }
    let list = vec![Word::new(&text, tranche, 0)];
    let spell = |v: &[Sym]| v.iter().map(|&s| sym_char(s)).collect::<String>();
    let mut other = letters.clone();
    let i = rng.below(other.len());
    other[i] = (other[i] + 1 + rng.below(25) as u8) % 26;
    let mut trimmed = want.clone();
    while trimmed.last() == Some(&SYM_SPACE) {
        trimmed.pop();
    }
    for (query, expect) in [
        (spell(&letters), true),
        (spell(&letters).to_uppercase(), true),
        (format!("{} !_ !'", spell(&want)), true),
        (spell(&other), false),
        (format!("{}. !_ !'", spell(&trimmed)), false),
    ] {
        let n = run(&parse(&query)?, &list, 1, None, 100)?.matches().count();
        if (n == 1) != expect {
            return Err(format!("query {:?} gives {} results for the word {:?}", query, n, text));
        }
    }
    ctx.add("queries", 5);
    ctx.case(&text, !text.is_ascii());
    Ok(())
}

// --- C09: query syntax

pub fn hostile(rng: &mut Rng) -> String {
    let bits = [
        "a", "b", "z", "Z", ".", "_", "'", "[", "]", "^", "[^", "-", "(", ")", "|", "*", "+", "?", "{", "}", "{,", ",", ",}", "3",
        "0", "12", "999999999", "1000000000", "<", ">", "+>", "->", "<ab", ":^)", ":-)", ":+)", ":", "!", "!_", "!'", "!1", "//",
        "--", "/*", "*/", " ", "  ", "\n", ";", "#", "#words", "#limit ", "#dict ", "#quiet", "#wordlist", "#dictionary", "=", "A=",
        "X", "é", "\t", "\r", "\\", "\"", "%", "\0", "𝔸", "ab", "(ab", "[a-c", "{2,1}", "{1,2}", "((", "))",
    ];
    let n = match rng.below(6) {
        0 => rng.range(0, 3),
        1 => rng.range(20, 60),
        _ => rng.range(1, 15),
    };
    (0..n).map(|_| *rng.pick(&bits)).collect()
}

fn damage(rng: &mut Rng, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..rng.range(1, 3) {
        let extra = *rng.pick(&[
            '(', ')', '[', ']', '{', '}', '<', '>', '|', '*', '+', '?', '!', ':', '^', '-', '.', '_', '\'', ' ', ',', '/', '#', '=', ';', '\n', '0',
            '7', 'a', 'Z', '$', '@', '\\', '"', 'ü', '\u{0}', '\t',
        ]);
        match rng.below(5) {
            0 | 1 if !cs.is_empty() => {
                let i = rng.below(cs.len());
                cs.remove(i);
            }
            2 if !cs.is_empty() => {
                let i = rng.below(cs.len());
                cs[i] = extra;
            }
            3 if cs.len() > 1 => {
                let i = rng.below(cs.len());
                let j = rng.below(cs.len());
                cs.swap(i, j);
            }
            _ => {
                let i = rng.below(cs.len() + 1);
                cs.insert(i, extra);
            }
        }
    }
    cs.into_iter().collect()
}

fn valid_text(rng: &mut Rng) -> String {
    let al = Alphabet::gen(rng);
    let p = Profile {
        ana: 8,
        setops: 12,
        space: 5,
        punct: 5,
        num: 4,
        fuzz: 20,
        max_fuzz: 3,
        opts: 10,
    };
    let n = rng.range(1, 4);
    let exprs: Vec<Expr> = (0..n)
        .map(|_| loop {
            let e = gen_expr(rng, &al, &p, 2);
            if e.ast.size() < 400 {
                break e;
            }
        })
        .collect();
    let mut q = render_query(&exprs, rng, &VARIED);
    for _ in 0..rng.below(3) {
        let line = match rng.below(9) {
            0 => format!("#words {}", rng.below(12)),
            1 => format!("#Limit{}", rng.below(1000)),
            2 => "#quiet".into(),
            3 => format!("#dict {}", rng.pick(&["default", "npl-allwords2", "a.b_c", "x y"])),
            4 => format!("QX{}=(a|b)", rng.below(3)),
            5 => "// nothing".into(),
            6 => "#dictionary foo-1".into(),
            7 => "".into(),
            _ => "#wordlist\none\ntwo(".into(),
        };
        q = if rng.pct(50) { format!("{}\n{}", line, q) } else { format!("{};{}", q, line) };
    }
    q
}

pub fn error_line(text: &str) -> Result<Option<(usize, String)>, ()> {
    match QueryAst::new_from_str(text) {
        Ok(_) => Ok(None),
        Err(e) => {
            use pest::error::LineColLocation::*;
            let line = match e.line_col {
                Pos((l, _)) => l,
                Span((l, _), _) => l,
            };
            Ok(Some((line, e.to_string())))
        }
    }
}

/// Groups in sequence, and nested ones with siblings, around the limit of the nesting
fn groups(rng: &mut Rng) -> String {
    let n = *rng.pick(&[1, 49, 98, 99, 100, 101, 102, 150, 201, 1000, 20_000]);
    let sibling = *rng.pick(&["(a)", "(a|b)?", "((a))", "", "a", "<ab>", "(a)(b)", "[ab]", "(a:+)"]);
    let mut s = String::new();
    match rng.below(4) {
        // Many of them, nested to a small depth only
        0 => {
            let d = rng.range(1, 4);
            for _ in 0..n.min(300) {
                s.push_str(&"(".repeat(d));
                s.push('a');
                s.push_str(&")".repeat(d));
            }
        }
        // Deep, with a group or two before, after, or between
        1 => {
            for _ in 0..n {
                s.push_str(sibling);
                s.push('(');
            }
            s.push('b');
            s.push_str(&")".repeat(n));
        }
        2 => {
            s.push_str(&"(".repeat(n));
            s.push('b');
            for _ in 0..n {
                s.push(')');
                s.push_str(sibling);
            }
        }
        // Two deep ones
        _ => {
            let m = *rng.pick(&[1, 50, 99, 100, 101]);
            for k in [m, n] {
                s.push_str(&"(".repeat(k));
                s.push('b');
                s.push_str(&")".repeat(k));
            }
        }
    }
    if rng.pct(10) {
        s.push_str(*rng.pick(&[")", "(", "))(("]));
    }
    if rng.pct(20) {
        s.insert_str(0, *rng.pick(&["a\n", "b;", ")\n", "("]));
    }
    s
}

pub fn syntax(rng: &mut Rng, ctx: &mut Ctx) -> Res {
    let text = match rng.below(10) {
        0 | 1 => hostile(rng),
        2 => {
            // Deep or long
            let n = *rng.pick(&[10, 50, 99, 100, 101, 300, 3000]);
            let (open, close) = *rng.pick(&[("(", ")"), ("(a|", ")"), ("(a", "b:+)"), ("(", ")?"), ("[", "]"), ("<", ">"), ("a", ""), ("(((", ")))"), ("{", "}"), ("/*", "*/")]);
            let m = if rng.pct(80) { n } else { n - 1 };
            format!("{}{}{}", open.repeat(n), rng.pick(&["x", "", "."]), close.repeat(m))
        }
        3 if rng.pct(40) => groups(rng),
        3 | 4 => valid_text(rng),
        5 => {
            let v = valid_text(rng);
            let lines: Vec<&str> = v.split('\n').collect();
            let k = rng.below(lines.len() + 1);
            let mut l: Vec<String> = lines.iter().map(|s| s.to_string()).collect();
            l.insert(k, hostile(rng));
            l.join("\n")
        }
        _ => {
            let v = valid_text(rng);
            damage(rng, &v)
        }
    };
    let got = error_line(&text).unwrap();
    ctx.add("parsed", 1);
    let want = refparse::read(&text);
    let nontrivial;
    match (&got, &want) {
        (_, Read::Unsure) => {
            ctx.add("undecided", 1);
            nontrivial = false;
        }
        (None, Read::Query(_)) => {
            ctx.add("accepted", 1);
            nontrivial = true;
        }
        (Some((line, msg)), Read::Bad(want)) => {
            if line != want {
                return Err(format!("{:?}: the error is reported for line {} instead of {}: {}", text, line, want, msg));
            }
            if !msg.contains(&format!("{}:", line)) {
                return Err(format!("{:?}: the message does not tell the line {}: {}", text, line, msg));
            }
            ctx.add("rejected", 1);
            ctx.add("rejected_after_line_1", (*want > 1) as usize);
            nontrivial = true;
        }
        (None, Read::Bad(l)) => return Err(format!("accepted, but line {} is invalid: {:?}", l, text)),
        (Some((_, msg)), Read::Query(_)) => return Err(format!("valid query {:?} is rejected: {}", text, msg)),
    }
    // A line which can only be an expression is also one on its own
    if !text.contains(['\n', ';', '#', '=']) {
        let alone = noodle::parser::ExpressionAst::new_from_str(&text);
        match (&alone, &got) {
            (Ok(_), None) | (Err(_), Some(_)) => ctx.add("expressions_alone", 1),
            (Err(_), None) if QueryAst::new_from_str(&text).unwrap().expressions.is_empty() => {}
            (Ok(_), Some((_, msg))) => return Err(format!("expression {:?} is accepted, but not as a query: {}", text, msg)),
            (Err(e), None) => return Err(format!("query {:?} is accepted, but not as an expression: {}", text, e)),
        }
    }
    // What precedes the error is fine, what follows does not matter
    if let Some((line, _)) = &got {
        let parts: Vec<&str> = text.split(['\n', ';']).collect();
        if *line == 0 || *line > parts.len() {
            return Err(format!("{:?}: error in line {} of {}", text, line, parts.len()));
        }
        let before = parts[..line - 1].join("\n");
        if error_line(&before).unwrap().is_some() {
            return Err(format!("{:?}: error in line {}, but the lines before it are rejected too", text, line));
        }
        let upto = parts[..*line].join("\n") + "\nabc";
        match error_line(&upto).unwrap() {
            Some((l, _)) if l == *line => {}
            x => return Err(format!("{:?}: error in line {}, but up to there it is {:?}", text, line, x)),
        }
    }
    ctx.case(&text, nontrivial);
    Ok(())
}

/// What the query text means: its options, and the results of its expressions
pub fn meaning(rng: &mut Rng, ctx: &mut Ctx) -> Res {
    for _ in 0..50 {
        let v = valid_text(rng);
        let text = if rng.pct(70) { damage(rng, &v) } else { v };
        let q = match refparse::read(&text) {
            Read::Query(q) => q,
            _ => continue,
        };
        let cost: usize = q.exprs.iter().map(|e| e.ast.size() * (1 + e.fuzz.unwrap_or(0))).sum();
        if cost > 600 || q.exprs.iter().any(|e| e.ast.size() > 250 || e.fuzz.unwrap_or(0) > 8) {
            continue;
        }
        let ast = parse(&text)?;
        let o = &ast.options;
        if o.max_words != q.words || o.results_limit != q.limit || o.dictionary != q.dict || (o.quiet == Some(true)) != q.quiet {
            return Err(format!("options of {:?} are read as {:?}", text, o));
        }
        match (&o.wordlist, &q.wordlist) {
            (None, None) => {}
            (Some(a), Some(b)) => {
                let mut a: Vec<_> = a.iter().map(|w| (w.score as usize, w.text.to_string())).collect();
                let mut b = b.clone();
                a.sort();
                b.sort();
                if a != b {
                    return Err(format!("word list of {:?} is read as {:?}", text, a));
                }
            }
            (a, _) => return Err(format!("word list of {:?} is read as {:?}", text, a)),
        }
        let al = Alphabet::gen(rng);
        let wp = WordsProfile {
            count: 20,
            pieces: 1,
            noise: 20,
            punct: 10,
            tranches: 1,
        };
        let words = gen_words(rng, &al, &q.exprs, &wp);
        let refs: Vec<RefExpr> = q.exprs.iter().map(RefExpr::new).collect();
        let scen = Scen {
            exprs: q.exprs.clone(),
            query: text.clone(),
            words,
            depth: 1,
        };
        let list = scen.wordlist();
        let mut no_list = ast.clone();
        no_list.options.wordlist = None;
        let t = run(&no_list, &list, 1, None, 10_000)?;
        if let Some(r) = reference(&refs, &scen.words, 1, 1_000, 1_000) {
            compare(&scen, &list, &t, &r)?;
            ctx.add("meanings_compared", 1);
        }
        ctx.case(&text, t.matches().count() > 0);
        return Ok(());
    }
    Ok(())
}

// --- C21: spellings

pub fn spellings(rng: &mut Rng, ctx: &mut Ctx) -> Res {
    let cfg = Cfg {
        profile: if rng.pct(60) { Profile { ana: 6, num: 4, ..MIXED } } else { REGEX },
        exprs: (1, 3),
        depth: &[1, 1, 2],
        style: PLAIN,
        large: 3,
        punct_words: 10,
        ..BASE
    };
    let c = scenario(rng, &cfg, None);
    let words = c.scen.wordlist();
    let base = run(&parse(&c.scen.query)?, &words, c.scen.depth, None, 100_000)?;
    compare(&c.scen, &words, &base, &c.reference)?;

    // The same expressions in another spelling, with macros for parts of the text
    let heavy = Style {
        upper: 40,
        space: 30,
        comment: 12,
        group: 15,
        classes: 40,
    };
    let style = if rng.pct(50) { &heavy } else { &VARIED };
    let mut text = render_query(&c.scen.exprs, rng, style);
    let mut defs: Vec<String> = vec![];
    let used_macros = rng.below(3);
    for k in 0..used_macros {
        let name = format!("{}{}", rng.pick(&["QXQ", "Vowel_", "zyx_"]), ["one", "two", "tri"][k]);
        if text.contains(&name) || defs.iter().any(|d| d.contains(&name)) {
            continue;
        }
        // Any part of a line can be a macro; nothing which is trimmed, or a comment
        let lines: Vec<&str> = text.split(['\n', ';']).collect();
        let line = rng.pick(&lines).to_string();
        if line.len() < 2 || line.contains('#') {
            continue;
        }
        let a = rng.below(line.len());
        let b = rng.range(a + 1, line.len().min(a + 12));
        let part = &line[a..b];
        if part.trim() != part || part.is_empty() || part.contains('/') || part.contains('*') || part.contains('-') || part.contains('=') {
            continue;
        }
        let pos = text.find(&line).unwrap();
        if line[..a].contains("//") || line[..a].contains("--") || line[..a].contains("/*") {
            continue;
        }
        if rng.pct(50) {
            // Everywhere, at once
            let part = part.to_string();
            ctx.max("uses_of_a_macro", text.matches(&part).count());
            text = text.replace(&part, &name);
            defs.push(format!("{}={}", name, part));
            ctx.add("macros", 1);
            continue;
        }
        text.replace_range(pos + a..pos + b, &name);
        let at = rng.below(defs.len() + 1);
        let _ = at;
        defs.push(format!("{}={}", name, part));
        ctx.add("macros", 1);
    }
    // Later macros can be used by earlier definitions only if they come first
    defs.reverse();
    defs.push(text);
    let mut text = defs.join(if rng.pct(50) { "\n" } else { ";" });
    if rng.pct(20) {
        text = format!("#quiet\n{}", text);
    }
    if rng.pct(20) {
        text = format!("{}\n  \n// the end", text);
    }
    let other = run(
        &QueryAst::new_from_str(&text).map_err(|e| format!("{:?} is the same as {:?}, but rejected: {}", text, c.scen.query, e))?,
        &words,
        c.scen.depth,
        None,
        100_000,
    )?;
    if base.paths() != other.paths() {
        return Err(format!(
            "spelled as {:?}: {} results instead of {}; {}",
            text,
            other.matches().count(),
            base.matches().count(),
            c.scen.describe()
        ));
    }
    ctx.add("results_compared", base.matches().count());
    ctx.case(&text, base.matches().count() > 0);
    Ok(())
}

// --- C20: words in the query itself

pub fn custom_wordlist(rng: &mut Rng, ctx: &mut Ctx) -> Res {
    let cfg = Cfg {
        exprs: (1, 2),
        depth: &[1, 2, 3],
        punct_words: 15,
        profile: if rng.pct(30) { MIXED } else { REGEX },
        large: 2,
        ..BASE
    };
    let c = scenario(rng, &cfg, None);
    // The query's own words replace the word list which is passed in
    let al = Alphabet::gen(rng);
    let wp = WordsProfile {
        count: rng.range(0, 12),
        pieces: 3,
        noise: 40,
        punct: 10,
        tranches: 2,
    };
    let other = wordlist(&gen_words(rng, &al, &c.scen.exprs, &wp));
    let mut text = String::new();
    if rng.pct(30) {
        text.push_str(&format!("#words {}\n", c.scen.depth));
    }
    let words_set = !text.is_empty();
    text.push_str("#limit 9999\n");
    text.push_str(&c.scen.query);
    text.push_str(rng.pick(&["\n#wordlist", ";#WordList ", "\n #wordlist // the words"]));
    let mut index = text.split(['\n', ';']).count();
    let mut words = vec![]; // (line, W)
    for w in &c.scen.words {
        if w.text.contains([';', '\n']) {
            continue;
        }
        if rng.pct(15) {
            text.push_str(rng.pick(&["\n", ";  ", "\n \t"]));
            index += 1;
        }
        let pad = *rng.pick(&["", "", " ", "\t"]);
        text.push_str(&format!("{}{}{}{}", rng.pick(&["\n", ";"]), pad, w.text, pad));
        let t = w.text.trim();
        if !t.is_empty() {
            let n = w.text.len() - w.text.trim_start().len();
            let m = w.text.len() - w.text.trim_end().len();
            let mut w2 = w.clone();
            w2.text = t.to_string();
            // One symbol for each (ASCII) character, and the word end
            w2.syms = w.syms[n..w.syms.len() - 1 - m].to_vec();
            w2.syms.push(SYM_SPACE);
            w2.tranche = 1;
            words.push((index, w2));
        }
        index += 1;
    }
    let ast = parse(&text)?;
    let list = match &ast.options.wordlist {
        Some(l) => l.clone(),
        None => return Err(format!("no word list in {:?}", text)),
    };
    let mut got: Vec<(usize, String)> = list.iter().map(|w| (w.score as usize, w.text.to_string())).collect();
    got.sort();
    let want: Vec<(usize, String)> = words.iter().map(|(i, w)| (*i, w.text.clone())).collect();
    if got != want {
        return Err(format!("the words of {:?} are {:?} instead of {:?}", text, got, want));
    }
    if list.windows(2).any(|w| w[0] > w[1]) {
        return Err(format!("the words of {:?} are not sorted", text));
    }
    // Results, in terms of positions in `words`
    let refs: Vec<RefExpr> = c.scen.exprs.iter().map(RefExpr::new).collect();
    let ws: Vec<W> = words.iter().map(|(_, w)| w.clone()).collect();
    let r = match reference(&refs, &ws, c.scen.depth, 20_000, 2_000) {
        Some(r) => r,
        None => return Ok(()),
    };
    let mut ev = QueryEvaluator::from_ast(&ast, &other);
    if !words_set {
        ev.set_search_depth_limit(c.scen.depth);
    }
    let t = drain(ev, 100_000)?;
    let mut seen: Vec<Vec<u32>> = vec![];
    for m in t.matches() {
        let mut p = vec![];
        for w in m {
            match words.iter().position(|(i, _)| *i == w.score as usize) {
                Some(k) if words[k].1.text == w.text.as_ref() => p.push(k as u32),
                _ => return Err(format!("{:?} gives the word {:?}, which is not in its list", text, w)),
            }
        }
        seen.push(p);
    }
    let n = seen.len();
    seen.sort();
    seen.dedup();
    if seen.len() != n {
        return Err(format!("{:?} gives a result twice", text));
    }
    if let Some(p) = seen.iter().find(|p| !r.must.contains(p) && !r.maybe.contains(p)) {
        return Err(format!("{:?} gives a wrong result: {:?}", text, p));
    }
    if let Some(p) = r.must.iter().find(|p| !seen.contains(p)) {
        return Err(format!("{:?} misses a result: {:?}", text, p));
    }
    ctx.add("words", words.len());
    ctx.add("results_compared", n);
    ctx.case(&text, n > 0);
    Ok(())
}

// --- C14: word list files

pub struct Scratch(pub std::path::PathBuf);

impl Scratch {
    pub fn new(rng: &mut Rng) -> Scratch {
        let dir = std::env::temp_dir().join(format!("ncheck-{}-{:x}", std::process::id(), rng.next()));
        std::fs::create_dir_all(&dir).expect("HARNESS: scratch folder");
        Scratch(dir)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Entry {
    bytes: Vec<u8>,
    /// Text and score, if it is a word which is kept
    kept: Option<(String, u32)>,
}

fn gen_entry(rng: &mut Rng, al: &Alphabet) -> Entry {
    let mut text: String = match rng.below(20) {
        0 => fold_text(rng, 20).0,
        1 => {
            let c = *rng.pick(&['a', 'I', 'A', 'i', 'b', 'x', 'é', '-', 'ß', 'ﬁ']);
            c.to_string()
        }
        2 => {
            let mut s: String = al.word(rng, 1, 6).iter().map(|&s| sym_char(s)).collect();
            let i = rng.below(s.len() + 1);
            s.insert(i, (b'0' + rng.below(10) as u8) as char);
            s
        }
        3 => "".into(),
        4 | 5 => {
            let mut s: String = al.word(rng, 2, 6).iter().map(|&s| sym_char(s)).collect();
            let i = rng.below(s.len());
            s.insert(i, *rng.pick(&['\'', '-', ' ', '.', 'é', 'Q', '\u{301}']));
            s
        }
        _ => al.word(rng, 1, 9).iter().map(|&s| sym_char(s)).collect(),
    };
    text.retain(|c| c != '\n' && c != '\t' && c != '\r');
    let mut line = text.clone();
    let mut score = text.len() as u32 * 200;
    let mut word = text;
    match rng.below(12) {
        0..=3 => {
            let n = match rng.below(5) {
                0 => 0,
                1 => u32::MAX,
                _ => rng.next() as u32 % 1_000_000,
            };
            if rng.pct(5) {
                // What follows the first tab is the word
                word = format!("{}\t{}", word, rng.pick(&["", "x", "5", "\tb"]));
            }
            line = format!("{}{}\t{}", rng.pick(&["", "", "", "", "0", "00"]), n, word);
            score = n;
        }
        4 => {
            // Not a count: the line is the word
            let first = rng.pick(&["x", "-1", "4294967296", "18446744073709551616", "1.5", "1e3", " 7", "7 ", "0x7", ""]).to_string();
            line = format!("{}\t{}", first, word);
            word = line.clone();
            score = line.len() as u32 * 200;
        }
        _ => {}
    }
    let w = Word::new(&word, 0, 0); // (C08 checks this on its own)
    let single = w.chars.len() <= 2 && word != "I" && word != "a";
    let digit = word.bytes().any(|b| b.is_ascii_digit());
    let kept = if single || digit { None } else { Some((word, score)) };
    Entry {
        bytes: line.into_bytes(),
        kept,
    }
}

pub fn load_words(rng: &mut Rng, ctx: &mut Ctx) -> Res {
    let al = Alphabet::gen(rng);
    let n = match rng.below(100) {
        0 => rng.range(30_000, 140_000),
        1..=3 => rng.range(9_900, 30_000),
        _ => rng.range(0, 60),
    };
    let mut entries: Vec<Entry> = vec![];
    let big = n > 1000;
    for i in 0..n {
        if big && rng.pct(97) {
            let mut w = String::new();
            let mut x = i + 26;
            while x > 0 {
                w.push((b'a' + (x % 26) as u8) as char);
                x /= 26;
            }
            let score = w.len() as u32 * 200;
            entries.push(Entry {
                bytes: w.clone().into_bytes(),
                kept: Some((w, score)),
            });
            continue;
        }
        let mut e = gen_entry(rng, &al);
        if rng.pct(3) {
            // Not UTF-8: left out
            let i = rng.below(e.bytes.len() + 1);
            e.bytes.insert(i, *rng.pick(&[0xff, 0xc0, 0x80]));
            e.kept = None;
        }
        entries.push(e);
    }
    let crlf = rng.pct(20);
    let mut bytes = vec![];
    for (i, e) in entries.iter().enumerate() {
        bytes.extend(&e.bytes);
        if i + 1 < n || !rng.pct(30) || e.bytes.is_empty() {
            bytes.extend(if crlf { &b"\r\n"[..] } else { b"\n" });
        }
    }
    let dir = Scratch::new(rng);
    let zst = rng.pct(40);
    let file = dir.0.join(if zst { "words.zst" } else { *rng.pick(&["words", "words.txt", "words.zst.txt"]) });
    // An archive may have several parts, as if archives had been put together with `cat`
    let mut last_part = 0;
    let stored = if zst {
        let parts = if rng.pct(60) { 1 } else { rng.range(2, 5) };
        let mut cuts: Vec<usize> = (1..parts).map(|_| rng.below(bytes.len() + 1)).collect();
        cuts.extend([0, bytes.len()]);
        cuts.sort();
        let mut stored = vec![];
        for c in cuts.windows(2) {
            let part = zstd::encode_all(&bytes[c[0]..c[1]], 1 + rng.below(5) as i32).expect("HARNESS: zstd");
            last_part = part.len();
            stored.extend(part);
        }
        ctx.add("archives_of_several_parts", (parts > 1) as usize);
        stored
    } else {
        bytes
    };
    std::fs::write(&file, &stored).expect("HARNESS: write");
    let got = load_wordlist(&file).map_err(|_| format!("a valid file of {} lines was refused", n))?;

    let lines = || -> String {
        entries
            .iter()
            .take(60)
            .map(|e| String::from_utf8_lossy(&e.bytes).to_string())
            .collect::<Vec<_>>()
            .join("|")
    };
    let mut want: Vec<(&str, u32)> = entries.iter().filter_map(|e| e.kept.as_ref()).map(|(t, s)| (&t[..], *s)).collect();
    let mut have: Vec<(&str, u32)> = got.iter().map(|w| (w.text.as_ref(), w.score)).collect();
    want.sort();
    have.sort();
    if want != have {
        let miss = want.iter().find(|x| have.binary_search(x).is_err());
        let extra = have.iter().find(|x| want.binary_search(x).is_err());
        return Err(format!("of {} words {} were loaded; missing {:?}, unexpected {:?}; lines {:?}", want.len(), have.len(), miss, extra, lines()));
    }
    for w in &got {
        if Word::new(&w.text, w.tranche, w.score) != *w {
            return Err(format!("{:?} is not the word for its text", w));
        }
    }
    if got.windows(2).any(|w| (w[0].tranche, &w[0].chars) > (w[1].tranche, &w[1].chars)) {
        return Err(format!("the list is not sorted; lines {:?}", lines()));
    }
    // Tranches: earlier lines are commoner, other than lower case counts as one rarer; the first has
    // 10,000 words, and each is half again as large as the one before
    let mut by_word: std::collections::HashMap<(&str, u32), Vec<u8>> = Default::default();
    for w in &got {
        by_word.entry((w.text.as_ref(), w.score)).or_default().push(w.tranche);
    }
    let mut ends = vec![];
    let (mut end, mut size) = (0usize, 10_000usize);
    for _ in 0..10 {
        end += size;
        size += size / 2;
        ends.push(end);
    }
    let mut level = 0u8;
    let mut at = 0usize; // how many words were kept so far
    for e in &entries {
        if let Some((t, s)) = &e.kept {
            let tr = &by_word[&(&t[..], *s)];
            if tr.len() == 1 {
                let plain = t.chars().all(|c| c.is_ascii_lowercase());
                let own = match tr[0].checked_sub(!plain as u8) {
                    Some(x) => x,
                    None => return Err(format!("{:?} is in tranche {}", t, tr[0])),
                };
                if own < level {
                    return Err(format!("word {} ({:?}) is in tranche {}, after tranche {}", at, t, own, level));
                }
                level = own;
                // A few words more or less are a matter of taste
                let lo = ends.iter().filter(|&&e| e + 30 <= at).count();
                let hi = ends.iter().filter(|&&e| e <= at + 30).count();
                if (own as usize) < lo || (own as usize) > hi {
                    return Err(format!("word {} ({:?}) is in tranche {} instead of {}", at, t, own, lo));
                }
                ctx.add("tranches_compared", 1);
            }
            at += 1;
        }
    }
    ctx.add("lines", n);
    ctx.add("words_kept", at);
    ctx.max("tranches", level as usize + 1);
    ctx.add("compressed_files", zst as usize);
    ctx.case(&format!("{} lines, zst={} crlf={} {}", n, zst, crlf, lines()), at > 0 && at < n);

    // Damaged archives are refused or read in part (if the damage does not show), but they end
    if zst && rng.pct(50) && stored.len() > 12 {
        let mut broken = stored.clone();
        let truncated = rng.pct(50);
        if truncated {
            let k = rng.range(1, (last_part - 1).min(broken.len() - 8));
            broken.truncate(broken.len() - k);
        } else {
            let i = rng.range(6, broken.len() - 1);
            broken[i] ^= 1 << rng.below(8);
        }
        std::fs::write(&file, &broken).expect("HARNESS: write");
        let r = load_wordlist(&file);
        if truncated && r.is_ok() {
            return Err(format!("a truncated archive was accepted ({} of {} bytes)", broken.len(), stored.len()));
        }
        ctx.add("damaged_files", 1);
        ctx.add("damaged_files_refused", r.is_err() as usize);
    }
    Ok(())
}

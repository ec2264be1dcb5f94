//! C24: how word lists are made (listgen.py)

use crate::ctx::Ctx;
use crate::helper::Helper;
use crate::props_text::Scratch;
use crate::rng::Rng;
use crate::scen::Res;
use noodle::load_wordlist;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

thread_local! {
    static LISTGEN: Helper = Helper::new(&["python3", "harness/listgen/run.py", "/repo/listgen/listgen.py"]);
}

fn call(what: Value) -> Result<Value, String> {
    let mut v = LISTGEN.with(|l| l.ask(&what))?;
    if let Some(e) = v["failed"].as_str() {
        let mut s = what.to_string();
        s.truncate(s.char_indices().nth(300).map_or(s.len(), |c| c.0));
        return Err(format!("{} ({})", e, s));
    }
    Ok(v["is"].take())
}

fn each(function: &str, words: &[&str]) -> Result<Vec<String>, String> {
    let v = call(json!(["each", function, words]))?;
    let got: Vec<String> = v.as_array().ok_or("HARNESS: each")?.iter().map(|x| x.as_str().map_or(x.to_string(), |s| s.to_string())).collect();
    if got.len() != words.len() {
        return Err("HARNESS: each".into());
    }
    Ok(got)
}

fn path(p: &Path) -> String {
    format!("path:{}", p.display())
}

/// A piece of text between white space, and what it should become
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Token {
    raw: String,
    /// Empty if it is not a word
    word: String,
    /// Empty if it is not in the Latin alphabet, or has digits
    canonical: String,
}

/// Letters, and those they stand for
const LETTERS: &[(&str, &str)] = &[
    ("é", "e"), ("è", "e"), ("ü", "u"), ("ñ", "n"), ("ç", "c"), ("å", "a"), ("ö", "o"), ("ī", "i"), ("š", "s"), ("ž", "z"), ("ǖ", "u"), ("ệ", "e"), ("É", "e"), ("Ü", "u"), ("Å", "a"),
    ("æ", "ae"), ("Æ", "ae"), ("œ", "oe"), ("Œ", "oe"), ("ß", "ss"), ("ﬁ", "fi"), ("ſ", "s"), ("ａ", "a"), ("Ｂ", "b"), ("ⅸ", "ix"),
];
/// Letters which stand for none
const FOREIGN: &[&str] = &["ø", "đ", "ł", "Ω", "α", "ж", "日", "本", "ð"];

fn gen_token(rng: &mut Rng, stems: &[String]) -> Token {
    let stem = rng.pick(stems).clone();
    let mut word = String::new();
    let mut canonical = String::new();
    let style = rng.weighted(&[40, 20, 10, 15]); // as it is, Capitalized, UPPER, mixed
    for (i, c) in stem.chars().enumerate() {
        let c = c.to_string();
        let up = style == 2 || (style == 1 && i == 0) || (style == 3 && rng.pct(30));
        let mut written = if up { c.to_uppercase() } else { c.clone() };
        // (Not the first, so that there is an ASCII letter)
        if i > 0 && rng.pct(3) {
            if let Some(l) = LETTERS.iter().filter(|l| l.1 == c).nth(rng.below(3)) {
                written = l.0.to_string();
            }
        }
        word.push_str(&written);
        canonical.push_str(&c);
    }
    if rng.pct(8) {
        let (a, b) = *rng.pick(LETTERS);
        word.push_str(a);
        canonical.push_str(b);
    }
    if rng.pct(12) {
        let p = *rng.pick(&["'", "-", "&", "/", ",", ".x", "--", "'-"]);
        let tail = rng.pick(stems).clone();
        // (.d and the like may look like the end of a domain)
        word.push_str(&format!("{}{}", p, tail));
        canonical.push_str(&format!("{}{}", p, tail));
    }
    if rng.pct(3) {
        let tail = rng.pick(stems).clone();
        word.push_str(&format!("-{}", tail));
        canonical.push_str(&format!("-{}", tail));
    }
    let mut raw = word.clone();
    if raw.contains('-') && rng.pct(30) {
        raw = raw.replace('-', "–");
    }
    let mut lost = false;
    match rng.below(40) {
        0 => {
            // Numbers are words, but are not in lists
            let at = if rng.pct(50) { word.len() } else { 0 };
            word.insert(at, '7');
            raw = word.clone();
            canonical.clear();
        }
        1 => {
            word.push_str(rng.pick(FOREIGN));
            raw = word.clone();
            canonical.clear();
        }
        2 => {
            raw.push_str(rng.pick(&[":a", "[a", "]a", "(a", "=a", "|a", "*a", "_a", "a_", "…a", "\u{201c}a", "<a", "+a", "#a"]));
            lost = true;
        }
        3 => {
            raw = if rng.pct(30) { format!("www.{}", raw) } else { raw + rng.pick(&[".com", ".org", ".net", ".gov", ".co.uk", ".de", ".info", ".com/abe", ".net/n.x-n", ".org&a"]) };
            lost = true;
        }
        4 => {
            raw = rng.pick(&["—", "1999", "日本", "&", "...", "3.14", "Ωμ", "'", "(1)", "–", "¿?"]).to_string();
            lost = true;
        }
        _ => {}
    }
    if lost {
        word.clear();
        canonical.clear();
    }
    for _ in 0..2 {
        if rng.pct(12) {
            let junk = ["(", "\"", "'", "“", "‘", "[", "—", "–", "-", "...", "*", "«", "¿", "&", "/"];
            raw.insert_str(0, rng.pick(&junk));
        }
        if rng.pct(15) {
            let junk = [")", "\"", "'", "”", "’", "]", "—", "–", "-", "...", "*", "»", "!", "?", ".", ",", ":", ";", "&"];
            raw.push_str(rng.pick(&junk));
        }
    }
    Token { raw, word, canonical }
}

fn gen_stems(rng: &mut Rng) -> Vec<String> {
    let letters: Vec<char> = "abeinosuxz".chars().collect();
    let n = rng.range(3, 40);
    let mut stems: Vec<String> = (0..n)
        .map(|_| (0..rng.range(1, 6)).map(|_| *rng.pick(&letters)).collect::<String>())
        // "aeo" is left out of the lists
        .filter(|s| !s.contains("aeo"))
        .collect();
    stems.push("noosi".into());
    stems.push("bizz".into());
    stems.push("unsanab".into());
    stems
}

/// How it is spelled does not matter to its letters
pub fn spellings_of_words(rng: &mut Rng, ctx: &mut Ctx) -> Res {
    let stems = gen_stems(rng);
    let tokens: Vec<Token> = (0..100).map(|_| gen_token(rng, &stems)).collect();
    let raw: Vec<&str> = tokens.iter().map(|t| t.raw.as_str()).collect();
    let stripped = each("strip_word", &raw)?;
    for (t, got) in tokens.iter().zip(&stripped) {
        if *got != t.word {
            return Err(format!("the word of {:?} is {:?} instead of {:?}", t.raw, got, t.word));
        }
    }
    let words: Vec<&Token> = tokens.iter().filter(|t| !t.word.is_empty()).collect();
    let text: Vec<&str> = words.iter().map(|t| t.word.as_str()).collect();
    let canonical = each("canonicalize", &text)?;
    let again = each("canonicalize", &canonical.iter().map(|c| c.as_str()).collect::<Vec<_>>())?;
    let twice = each("strip_word", &text)?;
    let junk: Vec<String> = words
        .iter()
        .map(|t| {
            let some = |rng: &mut Rng| -> String { (0..rng.range(0, 3)).map(|_| *rng.pick(&["'", "-", " ", ".", "(", "&", "/", ")", "\""])).collect() };
            format!("{}{}{}", some(rng), t.word, some(rng))
        })
        .collect();
    let inside = each("canonicalize", &junk.iter().map(|c| c.as_str()).collect::<Vec<_>>())?;
    for (i, t) in words.iter().enumerate() {
        let c = &canonical[i];
        if inside[i] != *c {
            return Err(format!("the canonical form of {:?} is {:?} instead of {:?}", junk[i], inside[i], c));
        }
        if *c != t.canonical {
            return Err(format!("the canonical form of {:?} is {:?} instead of {:?}", t.word, c, t.canonical));
        }
        if again[i] != *c || twice[i] != t.word {
            return Err(format!("{:?}: a second time makes {:?} of {:?}, and the word {:?}", t.word, again[i], c, twice[i]));
        }
        if !c.is_empty() {
            let letters = |s: &str| -> String {
                noodle::Word::new(s, 0, 0).chars.iter().map(|c| c.into_char()).filter(|c| c.is_ascii_lowercase()).collect()
            };
            if letters(&t.word) != letters(c) {
                return Err(format!("noodle reads {:?} and its canonical form {:?} as {:?} and {:?}", t.word, c, letters(&t.word), letters(c)));
            }
        }
        ctx.case(&t.raw, t.raw != t.canonical);
    }
    Ok(())
}

/// The lines of a file, as numbers and words
fn counts(file: &Path) -> Result<Vec<(i64, String)>, String> {
    let text = std::fs::read_to_string(file).map_err(|e| format!("{} was not made: {}", file.file_name().unwrap().to_string_lossy(), e))?;
    text.split_terminator('\n')
        .map(|l| {
            let (n, w) = l.split_once('\t').ok_or(format!("a line {:?} in {:?}", l, file))?;
            Ok((n.parse().map_err(|_| format!("a line {:?} in {:?}", l, file))?, w.to_string()))
        })
        .collect()
}

fn add(map: &mut BTreeMap<String, i64>, word: &str, n: i64) {
    if !word.is_empty() {
        *map.entry(word.to_string()).or_insert(0) += n;
    }
}

fn difference(got: &BTreeMap<String, i64>, want: &BTreeMap<String, i64>) -> Option<String> {
    let keys: BTreeSet<&String> = got.keys().chain(want.keys()).collect();
    keys.into_iter().find(|k| got.get(*k) != want.get(*k)).map(|k| format!("{:?}: {:?} instead of {:?}", k, got.get(k), want.get(k)))
}

/// From articles to word lists
pub fn pipeline(rng: &mut Rng, ctx: &mut Ctx) -> Res {
    let dir = Scratch::new(rng);
    let base = &dir.0;
    let stems = gen_stems(rng);
    let vocabulary: Vec<Token> = (0..rng.range(5, 120)).map(|_| gen_token(rng, &stems)).collect();
    let canonical: BTreeMap<String, String> = vocabulary.iter().map(|t| (t.word.clone(), t.canonical.clone())).collect();
    // Common words, so that there are some in any list
    let plain: Vec<Token> = ["noosi", "bizz", "unsanab"].iter().map(|s| Token { raw: s.to_string(), word: s.to_string(), canonical: s.to_string() }).collect();

    // Articles
    let space = |rng: &mut Rng| rng.pick(&[" ", " ", " ", " ", "  ", "\t", "\u{a0}", "\n", "\u{2003}"]).to_string();
    let mut title: BTreeMap<String, i64> = BTreeMap::new();
    let mut body: BTreeMap<String, i64> = BTreeMap::new();
    let files = rng.range(1, 3);
    for k in 0..files {
        let mut lines = String::new();
        let mut titles: BTreeMap<String, i64> = BTreeMap::new();
        let mut bodies: BTreeMap<String, i64> = BTreeMap::new();
        for article in 0..rng.range(1, 8) {
            let (mut t, mut b) = (String::new(), String::new());
            let skipped = article > 0 && rng.pct(10);
            let n = rng.range(1, 5);
            for _ in 0..n {
                let token = if rng.pct(15) { rng.pick(&plain) } else { rng.pick(&vocabulary) };
                t.push_str(&token.raw);
                t.push_str(&space(rng));
                if !skipped {
                    add(&mut titles, &token.word, 1);
                }
            }
            if article == 0 {
                for token in &plain {
                    t.push_str(&format!("{} ", token.raw));
                    add(&mut titles, &token.word, 1);
                }
            }
            // What follows the second " Retrieved " is not counted
            let references = rng.pct(40);
            let mut retrieved = 0;
            for i in 0..rng.range(1, 60) {
                if references && i > 0 && !b.ends_with("Retrieved ") && rng.pct(10) {
                    b.push_str("Retrieved ");
                    retrieved += 1;
                    if retrieved < 2 && !skipped {
                        add(&mut bodies, "Retrieved", 1);
                    }
                    continue;
                }
                let token = if rng.pct(15) { rng.pick(&plain) } else { rng.pick(&vocabulary) };
                b.push_str(&token.raw);
                // (Only in a line of its own, and between plain spaces, is it known for sure)
                b.push_str(&if references { " ".to_string() } else { space(rng) });
                if !skipped && retrieved < 2 {
                    add(&mut bodies, &token.word, 1);
                }
            }
            let mut v = json!([t, rng.below(1000) as f64 / 1e6, b]);
            if skipped {
                v[*rng.pick(&[0, 2])] = Value::Null;
            }
            lines.push_str(&v.to_string());
            lines.push('\n');
        }
        let file = base.join(format!("enwiki-2022-main.json.0{}.zst", k));
        std::fs::write(&file, lines).expect("HARNESS: write");
        call(json!(["extract_word_frequency", path(&file)]))?;
        for (kind, want) in [("title", &titles), ("body", &bodies)] {
            let mut got = BTreeMap::new();
            for (n, w) in counts(&base.join(format!("enwiki-2022-main.json.0{}.{}-wordlist", k, kind)))? {
                add(&mut got, &w, n);
            }
            if let Some(d) = difference(&got, want) {
                return Err(format!("words of the {} counted wrongly: {}", kind, d));
            }
            ctx.add("words_counted", want.values().sum::<i64>() as usize);
        }
        for (all, some) in [(&mut title, titles), (&mut body, bodies)] {
            for (w, n) in some {
                add(all, &w, n);
            }
        }
    }

    // Common ones are worth more than articles of this size could make them
    if rng.pct(60) {
        for (all, kind) in [(&mut title, "title"), (&mut body, "body")] {
            let mut lines = String::new();
            for _ in 0..rng.range(1, 30) {
                let token = if rng.pct(30) { rng.pick(&plain) } else { rng.pick(&vocabulary) };
                let n = *rng.pick(&[1, 5, 40, 60, 1_000, 150_000, 30_000_000]) + rng.below(20) as i64;
                lines.push_str(&format!("{}\t{}\n", n, token.word));
                add(all, &token.word, n);
            }
            std::fs::write(base.join(format!("enwiki-more.{}-wordlist", kind)), lines).expect("HARNESS: write");
        }
    }

    // One spelling of each
    let fold = |w: &str| canonical.get(w).cloned().unwrap_or_else(|| w.to_lowercase());
    call(json!(["word_frequency", path(base)]))?;
    let mut spelling: BTreeMap<String, String> = BTreeMap::new();
    let mut merged = vec![];
    for (kind, all) in [("title", &title), ("body", &body)] {
        let mut want = BTreeMap::new();
        for (w, n) in all {
            add(&mut want, &fold(w), *n);
        }
        let mut got = BTreeMap::new();
        let mut list = vec![];
        for (n, w) in counts(&base.join(format!("{}.txt", kind)))? {
            let c = if title.contains_key(&w) || body.contains_key(&w) { fold(&w) } else { w.clone() };
            if c.is_empty() {
                continue;
            }
            if got.contains_key(&c) {
                return Err(format!("{:?} is in {}.txt twice", c, kind));
            }
            add(&mut got, &c, n);
            if let Some(s) = spelling.insert(c.clone(), w.clone()) {
                if s != w {
                    return Err(format!("{:?} is spelled {:?} and {:?}", c, s, w));
                }
            }
            list.push((n, w));
        }
        if let Some(d) = difference(&got, &want) {
            return Err(format!("counts of the {} merged wrongly: {}", kind, d));
        }
        merged.push(list);
    }
    let total = |w: &str| title.get(w).unwrap_or(&0) + body.get(w).unwrap_or(&0);
    for (c, s) in &spelling {
        let most = title.keys().chain(body.keys()).filter(|w| fold(w) == *c).map(|w| total(w)).max().unwrap_or(0);
        if total(c) == 0 && s == c {
            return Err(format!("{:?} is spelled as it never was", s));
        }
        if s != c && total(s) == 0 {
            return Err(format!("{:?} is spelled {:?}, as it never was", c, s));
        }
        if total(c) > 0 && total(c) * 100 > most && s != c {
            return Err(format!("{:?} ({} times) is spelled {:?} (at most {} times)", c, total(c), s, most));
        }
    }

    // Lists
    let mut dictionary: BTreeMap<String, (i64, String)> = BTreeMap::new();
    let mut wrapped: BTreeMap<String, String> = BTreeMap::new();
    for t in plain.iter().chain(vocabulary.iter()) {
        if !t.canonical.is_empty() && rng.pct(50) || plain.contains(t) {
            let mut word = t.word.clone();
            // Affixes, abbreviations and quotations, some of which are hardly more than punctuation
            if rng.pct(15) && !plain.contains(t) {
                let (a, b) = *rng.pick(&[("-", ""), ("", "-"), ("-", "-"), ("", "."), ("'", "'"), ("--", "--"), ("", "...")]);
                word = format!("{}{}{}", a, word, b);
                wrapped.insert(word.clone(), t.canonical.clone());
            }
            dictionary.entry(t.canonical.clone()).or_insert((*rng.pick(&[50, 1000]), word));
        }
    }
    let text: String = dictionary.iter().map(|(c, (n, w))| format!("{}\t{}\t{}\n", n, c, w)).collect();
    std::fs::write(base.join("enwiktionary.txt"), text).expect("HARNESS: write");
    let cutoff = *rng.pick(&[1, 7, 10, 25, 50, 101]);
    let returned = call(json!(["create_wordlist", path(base), cutoff]))?;

    // What each use of a word is worth depends on how it is spelled
    let casefold = |w: &str| w.to_lowercase().replace('ß', "ss").replace('ſ', "s").replace('ﬁ', "fi");
    let worth = |c: &str, w: &str, n: i64| {
        let folded = casefold(w);
        let letters = folded.chars().filter(|c| c.is_ascii_lowercase()).count() as f64;
        let len = w.chars().count() as f64;
        if c == w {
            n * 2 + 1
        } else if c == folded {
            (n as f64 * 1.5) as i64 + 1
        } else if c.chars().count() as f64 / len <= 0.5 {
            (n as f64 * 0.2 - 1.0) as i64
        } else if letters / len <= 0.75 {
            (n as f64 * 0.5 - 1.0) as i64
        } else {
            n
        }
    };
    let fold = |w: &str| wrapped.get(w).cloned().unwrap_or_else(|| fold(w));
    let file = base.join(format!("wordlist.{}.txt", cutoff));
    let mut all: BTreeMap<String, (i64, String)> = BTreeMap::new();
    let dictionary_words: Vec<(i64, String)> = dictionary.values().cloned().collect();
    for (name, file, words, weight) in [
        ("dictionary", base.join("wiktionary.tsv"), &dictionary_words, 1),
        ("titles", base.join("wiki-titles.tsv"), &merged[0], 3),
        ("all", file, &merged[1], 1),
    ] {
        let mut want: BTreeMap<String, (i64, String)> = BTreeMap::new();
        for (n, w) in words {
            let c = fold(w);
            if c.is_empty() || c == "aeo" {
                continue;
            }
            let e = all.entry(c.clone()).or_insert((0, String::new()));
            *e = (e.0 + worth(&c, w, n * weight), w.clone());
            if e.0 != 0 {
                want.insert(c, e.clone());
            }
        }
        if name == "all" {
            want = all.iter().filter(|(_, e)| e.0 >= cutoff).map(|(c, e)| (c.clone(), e.clone())).collect();
        }
        let list = counts(&file)?;
        let spelled: BTreeMap<&String, (&String, i64)> = want.iter().map(|(c, e)| (&e.1, (c, e.0))).collect();
        let total = want.values().map(|e| e.0).sum::<i64>() as f64;
        let least = want.values().map(|e| e.0).min().unwrap_or(0) as f64;
        let mut seen = BTreeSet::new();
        let mut last = (0, i64::MAX);
        for (value, w) in &list {
            let (c, points) = match spelled.get(w) {
                Some(x) => *x,
                None => return Err(format!("{:?} does not belong in the list of {} (cutoff {})", w, name, cutoff)),
            };
            if !seen.insert(c) {
                return Err(format!("{:?} is in the list of {} twice", c, name));
            }
            if *value < last.0 || points > last.1 {
                return Err(format!("list of {}: {:?} ({} points, value {}) is after one of {} points and value {}", name, w, points, value, last.1, last.0));
            }
            last = (*value, points);
            let exact = 1e6 * (points as f64 / total).ln() / (least / total).ln();
            if (*value as f64 - exact).abs() > 1.5 {
                return Err(format!("list of {}: the value of {:?} ({} points) is {} instead of {}", name, w, points, value, exact));
            }
        }
        if let Some(c) = want.keys().find(|c| !seen.contains(*c)) {
            return Err(format!("{:?} ({} points, cutoff {}) is not in the list of {}", c, want[c].0, cutoff, name));
        }
        // What noodle makes of it
        let loaded = load_wordlist(&file).map_err(|_| format!("the list of {} does not load", name))?;
        let mut got: Vec<(String, i64)> = loaded.iter().map(|w| (w.text.to_string(), w.score as i64)).collect();
        let mut want: Vec<(String, i64)> = list
            .iter()
            .filter(|(_, w)| noodle::Word::new(w, 0, 0).chars.len() > 2 || w == "I" || w == "a")
            .map(|(n, w)| (w.clone(), *n))
            .collect();
        got.sort();
        want.sort();
        if got != want {
            return Err(format!("the list of {} loads as {:?} instead of {:?}", name, got, want));
        }
        if name == "all" {
            let got: Vec<&str> = returned["words"].as_array().map_or(vec![], |w| w.iter().filter_map(|x| x[2].as_str()).collect());
            let want: Vec<&str> = list.iter().map(|x| x.1.as_str()).collect();
            if got != want {
                return Err(format!("the list returned is {:?}, and that written {:?}", got, want));
            }
        }
        ctx.add("words_in_lists", list.len());
    }
    let several = title.keys().chain(body.keys()).filter(|w| !w.is_empty()).collect::<BTreeSet<_>>().len() > spelling.len();
    ctx.case(&format!("{:?}{:?}{:?}{}", title, body, dictionary, cutoff), several);
    Ok(())
}

/// A list is what was added to it, also after it was written and read
pub fn lists(rng: &mut Rng, ctx: &mut Ctx) -> Res {
    let dir = Scratch::new(rng);
    let file = dir.0.join("list");
    let stems = gen_stems(rng);
    let mut steps = vec![];
    let mut models: Vec<BTreeMap<String, (i64, String)>> = vec![BTreeMap::new(); 2];
    for (k, model) in models.iter_mut().enumerate() {
        steps.push(json!([k, "new"]));
        for _ in 0..rng.range(1, 40) {
            let t = gen_token(rng, &stems);
            let scale = *rng.pick(&[2, 10, 1_000_000]);
            let score = rng.below(scale) as i64;
            steps.push(json!([k, "add_word", t.raw, score]));
            // (Words without a canonical form are not used)
            if !t.canonical.is_empty() {
                let e = model.entry(t.canonical).or_insert((score, t.word));
                e.0 = e.0.max(score);
            }
        }
    }
    let merge = rng.pct(60);
    if merge {
        steps.push(json!([0, "merge", 1]));
        for (c, (n, w)) in models[1].clone() {
            let e = models[0].entry(c).or_insert((0, w));
            e.0 += n;
        }
    }
    let dump = rng.pct(60);
    if dump {
        steps.push(json!([0, "dump", path(&file)]));
        steps.push(json!([0, "load", path(&file)]));
    }
    let got = call(json!(["wordlist", steps]))?;
    for (k, model) in models.iter().enumerate() {
        let rows = got[k]["words"].as_array().ok_or("HARNESS: words")?;
        let mut have = BTreeMap::new();
        let mut last = i64::MAX;
        for r in rows {
            let (c, n, w) = (r[0].as_str().unwrap_or(""), r[1].as_i64().unwrap_or(-1), r[2].as_str().unwrap_or(""));
            if k == 0 && dump {
                if n > last {
                    return Err(format!("{:?} with {} is after one with {}", w, n, last));
                }
                last = n;
            }
            if !c.is_empty() {
                have.insert(c.to_string(), (n, w.to_string()));
            }
        }
        if have != *model {
            let keys: BTreeSet<&String> = have.keys().chain(model.keys()).collect();
            let c = keys.into_iter().find(|c| have.get(*c) != model.get(*c)).unwrap();
            return Err(format!("{:?} has {:?} instead of {:?} (merged: {}, written and read: {})", c, have.get(c), model.get(c), merge && k == 0, dump && k == 0));
        }
    }
    ctx.add("words_added", steps.len());
    ctx.case(&format!("{:?}", steps), models[0].len() > 3);
    Ok(())
}

/// The words of the dictionary, and their forms
pub fn dictionary(rng: &mut Rng, ctx: &mut Ctx) -> Res {
    let dir = Scratch::new(rng);
    let stems = gen_stems(rng);
    let mut lines = String::new();
    let mut want: BTreeMap<String, i64> = BTreeMap::new();
    let mut score = |t: &Token, n: i64| {
        if !t.canonical.is_empty() {
            let e = want.entry(t.canonical.clone()).or_insert(0);
            *e = n.max(*e);
        }
    };
    for _ in 0..rng.range(1, 30) {
        let t = gen_token(rng, &stems);
        let mut v = json!({ "lang_code": "en", "pos": "noun" });
        let english = rng.pct(85);
        if !english {
            match rng.below(2) {
                0 => v["lang_code"] = json!("fr"),
                _ => {
                    v.as_object_mut().unwrap().remove("lang_code");
                }
            }
        }
        let named = rng.pct(93);
        let phrase = rng.pct(15) && !t.word.is_empty();
        if named {
            v["word"] = json!(if phrase { format!("{} {}", t.word, rng.pick(&stems)) } else { t.word.clone() });
            if english && !phrase {
                score(&t, 1000);
            }
        }
        if rng.pct(60) {
            let mut forms = vec![];
            for _ in 0..rng.range(0, 4) {
                let f = gen_token(rng, &stems);
                let several = rng.pct(15);
                forms.push(json!({"form": if several { format!("more {}", f.word) } else { f.word.clone() }, "tags": ["plural"]}));
                // Only plain ones
                if english && named && !several && f.canonical == f.word {
                    score(&f, 50);
                }
            }
            v["forms"] = json!(forms);
        }
        lines.push_str(&format!("{}\n", v));
    }
    let file = dir.0.join("dictionary.json.zst");
    std::fs::write(&file, lines).expect("HARNESS: write");
    let got = call(json!(["wiktionary_wordlist", path(&file)]))?;
    let mut have = BTreeMap::new();
    for r in got["words"].as_array().ok_or("HARNESS: words")? {
        add(&mut have, r[0].as_str().unwrap_or(""), r[1].as_i64().unwrap_or(-1));
    }
    if let Some(d) = difference(&have, &want) {
        return Err(format!("words of the dictionary: {}", d));
    }
    ctx.add("words_of_dictionaries", want.len());
    ctx.case(&format!("{:?}", want), want.len() > 3);
    Ok(())
}

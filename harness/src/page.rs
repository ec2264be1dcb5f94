//! C23: the page itself (its own HTML and scripts), in a small stand-in for a browser

use crate::ctx::Ctx;
use crate::helper::Helper;
use crate::scen::Res;
use crate::props_text::hostile;
use crate::rng::Rng;
use crate::web;
use noodle::parser::QueryAst;
use serde_json::{json, Value};

const PAGE: &str = "/repo/noodle-webapp/static/index.html";

thread_local! {
    // (The limit of address space is too low for the handler)
    static BROWSER: Helper = Helper::new(&["node", "--disable-wasm-trap-handler", "harness/page/page.js", PAGE]);
}

/// What could be seen at each "look"
fn play(steps: &[Value]) -> Result<Vec<Value>, String> {
    let v = BROWSER.with(|b| b.ask(&Value::from(steps)))?;
    if let Some(e) = v["failed"].as_str() {
        if e.contains("HARNESS") {
            return Err(format!("HARNESS: {}", e));
        }
        return Err(format!("the page failed: {}", e));
    }
    Ok(v["seen"].as_array().cloned().unwrap_or_default())
}

fn strings(v: &Value) -> Vec<String> {
    v.as_array().map_or(vec![], |a| a.iter().map(|s| s.as_str().unwrap_or("").to_string()).collect())
}

fn unescape(s: &str, form: bool) -> String {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let hex = (b[i] == b'%').then(|| s.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok())).flatten();
        match hex {
            Some(x) => {
                out.push(x);
                i += 3;
            }
            None => {
                out.push(if form && b[i] == b'+' { b' ' } else { b[i] });
                i += 1;
            }
        }
    }
    String::from_utf8_lossy(&out).to_string()
}

/// What a link looks up at its site, if it is one that we know
fn looked_up(href: &str) -> Option<(&'static str, String)> {
    let rest = href.strip_prefix("https://").or_else(|| href.strip_prefix("http://"))?;
    let (host, path) = rest.split_at(rest.find('/').unwrap_or(rest.len()));
    let path = path.split('#').next().unwrap();
    let (path, search) = path.split_once('?').unwrap_or((path, ""));
    let param = |name: &str| {
        search
            .split('&')
            .filter_map(|p| p.split_once('='))
            .find(|p| p.0 == name)
            .map_or(String::new(), |p| unescape(p.1, true))
    };
    if host.ends_with("google.com") {
        let q = param("q");
        Some(("google", q.strip_prefix("define:").map(|s| s.to_string()).unwrap_or(q)))
    } else if host.ends_with("wikipedia.org") {
        Some(("wikipedia", param("search")))
    } else if host.ends_with("crossword-solver.io") {
        Some(("crossword-solver", unescape(path.strip_prefix("/clue/").unwrap_or(""), false)))
    } else {
        None
    }
}

/// The same query, however it is written
fn same_query(a: &str, b: &str) -> bool {
    if a == b {
        return true;
    }
    match (QueryAst::new_from_str(a), QueryAst::new_from_str(b)) {
        (Ok(x), Ok(y)) => {
            let list = |o: &Option<Vec<noodle::Word>>| o.as_ref().map(|l| l.iter().map(|w| w.text.to_string()).collect::<Vec<_>>());
            x.expressions.len() == y.expressions.len()
                && x.expressions.iter().zip(&y.expressions).all(|(e, f)| e.to_string() == f.to_string())
                && (x.options.max_words, x.options.results_limit, &x.options.dictionary, x.options.quiet)
                    == (y.options.max_words, y.options.results_limit, &y.options.dictionary, y.options.quiet)
                && list(&x.options.wordlist) == list(&y.options.wordlist)
        }
        (Err(_), Err(_)) => true,
        _ => false,
    }
}

#[derive(Clone)]
enum Filter {
    Part(String),
    Start(String),
    End(String),
    Either(String, String),
    Gap(String, String),
}

impl Filter {
    fn gen(rng: &mut Rng, texts: &[String]) -> Filter {
        let part = |rng: &mut Rng| {
            let t: Vec<char> = if texts.is_empty() || rng.pct(15) { vec!['q'] } else { rng.pick(texts).chars().collect() };
            let i = rng.below(t.len() + 1);
            let j = (i + rng.range(0, 3)).min(t.len());
            t[i..j].iter().collect::<String>()
        };
        let a = part(rng);
        match rng.below(5) {
            0 => Filter::Start(a),
            1 => Filter::End(a),
            2 => Filter::Either(a, part(rng)),
            3 => Filter::Gap(a, part(rng)),
            _ => Filter::Part(a),
        }
    }

    fn text(&self) -> String {
        let e = |s: &str| -> String {
            s.chars()
                .map(|c| if c.is_ascii_punctuation() && !"<>&%#@!'\"_,;:=~`-".contains(c) { format!("\\{}", c) } else { c.to_string() })
                .collect()
        };
        match self {
            Filter::Part(s) => e(s),
            Filter::Start(s) => format!("^{}", e(s)),
            Filter::End(s) => format!("{}$", e(s)),
            Filter::Either(s, t) => format!("({}|{})", e(s), e(t)),
            Filter::Gap(s, t) => format!("{}.*{}", e(s), e(t)),
        }
    }

    fn passes(&self, text: &str) -> bool {
        match self {
            Filter::Part(s) => text.contains(s.as_str()),
            Filter::Start(s) => text.starts_with(s.as_str()),
            Filter::End(s) => text.ends_with(s.as_str()),
            Filter::Either(s, t) => text.contains(s.as_str()) || text.contains(t.as_str()),
            Filter::Gap(s, t) => text.find(s.as_str()).map_or(false, |i| text[i + s.len()..].contains(t.as_str())),
        }
    }
}

#[derive(Clone)]
struct Found {
    text: String,
    net: f64,
}

/// What the page should show
#[derive(Clone)]
struct Model {
    found: Vec<Found>,
    /// From the last time that the output was built, and after it
    base: Vec<usize>,
    base_sorted: bool,
    after: Vec<usize>,
    sort: bool,
    filtered: bool,
    /// `None`: not a regular expression
    filter: Option<Filter>,
    status: Option<String>,
    log: Vec<String>,
    input: String,
    custom: Option<String>,
    submitted: usize,
    sent: Option<String>,
    opened: bool,
    running: bool,
    stale: bool,
    clipboard: usize,
    copied: Option<String>,
}

impl Model {
    fn new() -> Model {
        Model {
            found: vec![],
            base: vec![],
            base_sorted: false,
            after: vec![],
            sort: false,
            filtered: false,
            filter: Some(Filter::Part(String::new())),
            status: None,
            log: vec![],
            input: String::new(),
            custom: Some(String::new()),
            submitted: 0,
            sent: None,
            opened: false,
            running: false,
            stale: false,
            clipboard: 0,
            copied: None,
        }
    }

    fn passes(&self, i: usize) -> bool {
        !self.filtered || self.filter.as_ref().map_or(false, |f| f.passes(&self.found[i].text))
    }

    fn rebuild(&mut self) {
        self.stale = self.filtered && self.filter.is_none();
        if self.stale {
            return;
        }
        self.base = (0..self.found.len()).filter(|&i| self.passes(i)).collect();
        self.base_sorted = self.sort;
        self.after.clear();
    }

    fn check(&self, seen: &Value) -> Result<(), String> {
        let rows = seen["results"].as_array().ok_or("HARNESS: results")?;
        let texts: Vec<String> = rows.iter().map(|r| r["text"].as_str().unwrap_or("").trim().to_string()).collect();
        let want = |l: &[usize]| l.iter().map(|&i| self.found[i].text.clone()).collect::<Vec<_>>();
        if texts.len() != self.base.len() + self.after.len() {
            return Err(format!("the page shows {:?} instead of {:?} and then {:?}", texts, want(&self.base), want(&self.after)));
        }
        let (a, b) = texts.split_at(self.base.len());
        let ok = if self.base_sorted {
            // In the order of the scores, whichever the order of equal ones
            let mut left = self.base.clone();
            let mut last = f64::MIN;
            a.iter().all(|t| {
                let next = left
                    .iter()
                    .enumerate()
                    .filter(|(_, &i)| self.found[i].text == *t)
                    .min_by(|x, y| self.found[*x.1].net.total_cmp(&self.found[*y.1].net))
                    .map(|(k, &i)| (k, self.found[i].net));
                match next {
                    Some((k, net)) if net >= last - 1e-6 * last.abs() => {
                        left.remove(k);
                        last = net;
                        true
                    }
                    _ => false,
                }
            })
        } else {
            a == want(&self.base).as_slice()
        };
        if !ok || b != want(&self.after).as_slice() {
            return Err(format!(
                "the page shows {:?} instead of {:?} ({}) and then {:?}",
                texts,
                want(&self.base),
                if self.base_sorted { "sorted by score" } else { "in this order" },
                want(&self.after)
            ));
        }
        let mut bars: Vec<(f64, f64)> = vec![];
        for (row, text) in rows.iter().zip(&texts) {
            if let Some(t) = strings(&row["tags"]).iter().find(|t| t.starts_with("x-")) {
                return Err(format!("the text {:?} became an element {}", text, t));
            }
            let mut sites = vec![];
            for l in row["links"].as_array().ok_or("HARNESS: links")? {
                if let Some((site, what)) = looked_up(l[1].as_str().unwrap_or("")) {
                    if what.trim() != text {
                        return Err(format!("the link to {} of {:?} looks up {:?}", site, text, what));
                    }
                    sites.push(site);
                }
            }
            sites.sort_unstable();
            if sites != ["crossword-solver", "google", "wikipedia"] {
                return Err(format!("the links of {:?} are to {:?}", text, sites));
            }
            let w: Vec<f64> = row["widths"].as_array().map_or(vec![], |w| w.iter().filter_map(|x| x.as_f64()).collect());
            let same: Vec<&Found> = self.found.iter().filter(|f| f.text == *text).collect();
            if w.len() == 1 && same.len() == 1 {
                if !(0.0..=100.0).contains(&w[0]) {
                    return Err(format!("the bar of {:?} has a width of {} %", text, w[0]));
                }
                bars.push((same[0].net, w[0]));
            }
        }
        bars.sort_by(|x, y| x.0.total_cmp(&y.0));
        if let Some(p) = bars.windows(2).find(|p| p[0].0 < p[1].0 && p[0].1 < p[1].1) {
            return Err(format!("a better score has the smaller bar: {:?}", p));
        }
        for (what, got, want) in [("sort", &seen["sort"], self.sort), ("filter", &seen["filtered"], self.filtered)] {
            if got.as_bool() != Some(want) {
                return Err(format!("the box of {} is {} instead of {}", what, got, want));
            }
        }
        if seen["input"].as_str() != Some(&self.input) {
            return Err(format!("the query is {} instead of {:?}", seen["input"], self.input));
        }
        if self.custom.is_some() && seen["custom"].as_str() != self.custom.as_deref() {
            return Err(format!("the custom word list is {} instead of {:?}", seen["custom"], self.custom));
        }
        if let Some(s) = &self.status {
            if seen["status"].as_str() != Some(s) {
                return Err(format!("the status is {} instead of {:?}", seen["status"], s));
            }
        }
        if strings(&seen["log"]) != self.log {
            return Err(format!("the log is {:?} instead of {:?}", strings(&seen["log"]), self.log));
        }
        for k in ["log_tags", "status_tags"] {
            if let Some(t) = strings(&seen[k]).iter().find(|t| t.starts_with("x-")) {
                return Err(format!("a message became an element {} ({})", t, k));
            }
        }
        let sockets = seen["sockets"].as_array().ok_or("HARNESS: sockets")?;
        if sockets.len() != self.submitted {
            return Err(format!("{} connections instead of {}", sockets.len(), self.submitted));
        }
        for (i, s) in sockets.iter().enumerate() {
            let current = i + 1 == sockets.len();
            if s[0] != "ws://noodle.example/ws" {
                return Err(format!("a connection to {}", s[0]));
            }
            if (!current || !self.running) && s[2].as_i64() < Some(2) {
                return Err(format!("connection {} of {} was left open (after a stop, or another query)", i + 1, sockets.len()));
            }
            if current && self.running && s[2].as_i64() > Some(1) {
                return Err("the connection was closed by itself".into());
            }
            if current {
                let sent = strings(&s[1]);
                let want = if self.opened { self.sent.as_ref() } else { None };
                let ok = match want {
                    Some(w) => sent.len() == 1 && same_query(&sent[0], w),
                    None => sent.is_empty(),
                };
                if !ok {
                    return Err(format!("the page sent {:?} instead of {:?}", sent, want));
                }
            }
        }
        let clipboard = strings(&seen["clipboard"]);
        if clipboard.len() != self.clipboard || (self.copied.is_some() && clipboard.last() != self.copied.as_ref()) {
            return Err(format!("{} copied: {:?} instead of {:?}", clipboard.len(), clipboard.last(), self.copied));
        }
        Ok(())
    }
}

fn word_text(rng: &mut Rng) -> String {
    let special = [
        "AT&T", "R&B", "AC/DC", "and/or", "<x-a>", "<x-b onclick='a()'>", "&lt;x-c&gt;", "don't", "100%", "50%25", "C#", "C++", "why?", "a=b", "é", "Ångström", "日本", "𝔸", "\"quoted\"",
        "a;b", "co-op", "I", "#1", "$&", "$1", "\\", "e.g.", "(sic)", "a|b", "`", "{x}", "x^2",
    ];
    if rng.pct(35) {
        return rng.pick(&special).to_string();
    }
    (0..rng.range(1, 6)).map(|_| (b'a' + rng.below(5) as u8) as char).collect()
}

fn page_query(rng: &mut Rng) -> String {
    let bits = ["ab*", "<abc>", "a_b", "[^a]c", "\n", "; ", "!1", "#words 3", "#limit 7", "#quiet", "V=[aeiou]", "(abc:+)", "%41", "%", "#", "&", "+", "é", "a b", "/* c */", "// d", "#dict pokemon"];
    if rng.pct(10) {
        return hostile(rng).replace('\r', "");
    }
    if rng.pct(5) {
        return String::new();
    }
    let n = rng.range(1, 5);
    (0..n).map(|_| *rng.pick(&bits)).collect::<Vec<_>>().join(if rng.pct(50) { "\n" } else { "" })
}

/// As encodeURI() does
fn fragment(query: &str) -> String {
    let mut out = String::new();
    for b in query.bytes() {
        if b.is_ascii_alphanumeric() || b"-_.!~*'();/?:@&=+$,#".contains(&b) {
            out.push(b as char);
        } else {
            out.push_str(&format!("%{:02X}", b));
        }
    }
    out
}

pub fn page_sessions(rng: &mut Rng, ctx: &mut Ctx) -> Res {
    // The lists of the server
    let mut names = vec!["default", "pokemon", "npl-allwords2", "scrabble", "wiki-titles"];
    let mut sizes = vec![];
    rng.shuffle(&mut names);
    names.truncate(rng.range(1, 5));
    if !names.contains(&"default") {
        names.push("default");
    }
    let mut js = String::from("window.WORDLISTS = [];\n");
    for n in &names {
        let len = *rng.pick(&[0, 3, 9, 10, 100, 5000, 31337, 2_000_000]);
        sizes.push(len);
        js.push_str(&format!("window.WORDLISTS.push({{\"name\": \"{}\", \"len\": {}}});\n", n, len));
    }
    let mut looks: Vec<(usize, Model)> = vec![]; // By number of steps so far
    let mut m = Model::new();
    // A link to a query, or one which was cut off or damaged
    let damaged = rng.pct(15);
    let fragment = if damaged {
        let whole = fragment(&page_query(rng));
        match rng.below(3) {
            0 => format!("{}{}", whole, rng.pick(&["%", "%2", "%zz", "%e9", "%E2%82", "%80", "%C3%28", "100%"])),
            1 => format!("{}%{}", rng.pick(&["", "a", "100", "ab*%0A"]), whole),
            _ => format!("%F0%9D%94{}", whole),
        }
    } else if rng.pct(30) {
        m.input = page_query(rng);
        fragment(&m.input)
    } else {
        String::new()
    };
    let mut steps = vec![json!({ "wordlists": js, "hash": fragment })];
    if damaged {
        ctx.add("damaged_addresses", 1);
        m.input = page_query(rng);
        steps.push(json!(["type", "input", m.input]));
    }
    let (mut list, mut words, mut limit) = ("default".to_string(), "1".to_string(), "100".to_string());
    let mut lost_reopen: Option<Model> = None;
    let look = |steps: &mut Vec<Value>, m: &Model, looks: &mut Vec<(usize, Model)>| {
        if !m.stale {
            steps.push(json!(["look"]));
            looks.push((steps.len(), m.clone()));
        }
    };
    look(&mut steps, &m, &mut looks);

    let n = rng.range(10, 60);
    let mut invalid_seen = false;
    let mut reopened = 0;
    for _ in 0..n {
        if m.stale {
            // The filter is being typed: in the end it makes sense, or is switched off
            if m.running && m.opened && !m.sort && rng.pct(40) {
                let text = word_text(rng);
                let score = rng.below(1000);
                steps.push(json!(["message", -1, json!({"match": {"phrase": [{"text": text, "score": score}]}}).to_string()]));
                m.found.push(Found { text, net: score as f64 });
            } else if rng.pct(60) {
                let f = Filter::gen(rng, &m.found.iter().map(|f| f.text.clone()).collect::<Vec<_>>());
                steps.push(json!(["type", "filter", f.text()]));
                m.filter = Some(f);
                m.rebuild();
            } else {
                steps.push(json!(["click", "enable-filter"]));
                m.filtered = false;
                m.rebuild();
            }
            look(&mut steps, &m, &mut looks);
            continue;
        }
        let texts: Vec<String> = m.found.iter().map(|f| f.text.clone()).collect();
        let weights = [
            10,                                                // 0 submit
            if m.running && !m.opened { 40 } else { 0 },       // 1 open
            if m.running && m.opened { 60 } else { 0 },        // 2 messages
            if m.submitted > 0 { 4 } else { 1 },               // 3 stop
            8,                                                 // 4 sort
            8,                                                 // 5 type a filter
            6,                                                 // 6 switch the filter
            5,                                                 // 7 copy the results
            if texts.is_empty() { 0 } else { 5 },              // 8 copy one
            6,                                                 // 9 edit
            if m.submitted > 1 { 6 } else { 0 },               // 10 late messages
            3,                                                 // 11 open the address elsewhere
            if m.running && m.opened { 3 } else { 0 },         // 12 the server is done
            2,                                                 // 13 Enter without Ctrl, and other keys
            2,                                                 // 14 example
        ];
        match rng.weighted(&weights) {
            k @ (0 | 14) => {
                if k == 14 {
                    // What it is, is known afterwards
                    continue;
                }
                if rng.pct(60) {
                    m.input = page_query(rng);
                    steps.push(json!(["type", "input", m.input]));
                }
                if rng.pct(30) {
                    list = names[rng.below(names.len())].to_string();
                    steps.push(json!(["type", "wordlist", list]));
                }
                if rng.pct(30) {
                    words = rng.range(1, 10).to_string();
                    steps.push(json!(["type", "max-phrase-length", words]));
                }
                if rng.pct(30) {
                    limit = rng.pick(&["1", "3", "10", "30", "100", "300", "1000", "3000", "10000"]).to_string();
                    steps.push(json!(["type", "max-results", limit]));
                }
                if m.custom.is_none() {
                    let c = String::new();
                    steps.push(json!(["type", "custom-wordlist", c]));
                    m.custom = Some(c);
                }
                steps.push(if rng.pct(50) { json!(["click", "query"]) } else { json!(["key", true, "Enter", 13]) });
                let custom = m.custom.clone().unwrap();
                let mut sent = format!("#dict {}\n#words {}\n#limit {}\n{}", list, words, limit, m.input);
                if !custom.is_empty() {
                    sent.push_str("\n#wordlist\n");
                    sent.push_str(&custom);
                }
                m.sent = Some(sent);
                m.submitted += 1;
                m.opened = false;
                m.running = true;
                m.found.clear();
                m.base.clear();
                m.after.clear();
                m.base_sorted = false;
                m.log.clear();
                m.status = None;
                m.sort = false;
                m.filtered = false;
                let mut fresh = Model::new();
                fresh.input = m.input.clone();
                lost_reopen = Some(fresh);
            }
            1 => {
                steps.push(json!(["open", -1]));
                m.opened = true;
                m.status = None;
            }
            2 => {
                for _ in 0..rng.range(1, 8) {
                    let message = match rng.below(10) {
                        0 => {
                            let s = format!("{} {}", rng.pick(&["Processing, 0.1s...:", "<x-d>", "Complete &amp;", "Parsed"]), rng.below(100));
                            m.status = Some(s.clone());
                            json!({ "status": s })
                        }
                        1 => {
                            let s = format!("{} {}", rng.pick(&["Expression: \"a\"", "<x-e>", "optimized", "&amp;"]), rng.below(100));
                            m.log.push(s.clone());
                            json!({"log": {"message": s}})
                        }
                        _ => {
                            let k = *rng.pick(&[1, 1, 1, 2, 2, 3, 7]);
                            let scale = *rng.pick(&[10, 1000, 1_000_000]);
                            let phrase: Vec<(String, usize)> = (0..k).map(|_| (word_text(rng), rng.below(scale))).collect();
                            let text = phrase.iter().map(|w| w.0.as_str()).collect::<Vec<_>>().join(" ");
                            let net = phrase.iter().map(|w| w.1 as f64).sum::<f64>() / (k as f64).sqrt();
                            m.found.push(Found { text, net });
                            let i = m.found.len() - 1;
                            if m.passes(i) {
                                m.after.push(i);
                                m.sort = false;
                            }
                            json!({"match": {"phrase": phrase.iter().map(|w| json!({"text": w.0, "score": w.1})).collect::<Vec<_>>()}})
                        }
                    };
                    steps.push(json!(["message", -1, message.to_string()]));
                }
            }
            3 => {
                steps.push(json!(["click", "stop"]));
                m.status = None;
                if m.running {
                    m.running = false;
                    // The server has not noticed yet
                    if m.opened && rng.pct(50) {
                        steps.push(json!(["message", -1, json!({"match": {"phrase": [{"text": "late", "score": 1}]}}).to_string()]));
                    }
                }
            }
            4 => {
                steps.push(json!(["click", "sort"]));
                m.sort = !m.sort;
                m.rebuild();
            }
            5 => {
                if rng.pct(15) && !m.sort {
                    steps.push(json!(["type", "filter", rng.pick(&["(", "[a", "a{2,1}", "*"])]));
                    m.filter = None;
                    invalid_seen = true;
                } else {
                    let f = Filter::gen(rng, &texts);
                    steps.push(json!(["type", "filter", f.text()]));
                    m.filter = Some(f);
                }
                m.filtered = true;
                m.rebuild();
            }
            6 => {
                if m.filter.is_none() {
                    continue;
                }
                steps.push(json!(["click", "enable-filter"]));
                m.filtered = !m.filtered;
                m.rebuild();
            }
            7 => {
                steps.push(json!(["click", "copy-wordlist"]));
                m.custom = None; // Compared with what is shown
            }
            8 => {
                let shown = m.base.len() + m.after.len();
                if m.base_sorted || shown == 0 {
                    continue;
                }
                let i = rng.below(shown);
                let which = if i < m.base.len() { m.base[i] } else { m.after[i - m.base.len()] };
                steps.push(json!(["link", i, 0]));
                m.clipboard += 1;
                m.copied = Some(m.found[which].text.clone());
            }
            9 => {
                if rng.pct(50) {
                    m.input = page_query(rng);
                    steps.push(json!(["type", "input", m.input]));
                } else {
                    let c: String = (0..rng.range(0, 4)).map(|_| format!("{}\n", word_text(rng))).collect();
                    steps.push(json!(["type", "custom-wordlist", c]));
                    m.custom = Some(c);
                }
            }
            10 => {
                let k = rng.below(m.submitted - 1);
                steps.push(match rng.below(3) {
                    0 => json!(["message", k, json!({"status": "late"}).to_string()]),
                    1 => json!(["message", k, json!({"match": {"phrase": [{"text": "late", "score": 1}]}}).to_string()]),
                    _ => json!(["end", k, false]),
                });
            }
            11 => {
                let fresh = match &lost_reopen {
                    Some(f) if !invalid_seen => f.clone(),
                    _ => continue,
                };
                steps.push(json!(["reopen"]));
                m = fresh;
                (list, words, limit) = ("default".to_string(), "1".to_string(), "100".to_string());
                lost_reopen = Some(m.clone());
                reopened += 1;
            }
            12 => {
                let s = format!("Complete, found all {} phrases", m.found.len());
                steps.push(json!(["message", -1, json!({ "status": s }).to_string()]));
                steps.push(json!(["end", -1, false]));
                m.status = Some(s);
                m.running = false;
            }
            _ => {
                steps.push(rng.pick(&[json!(["key", false, "Enter", 13]), json!(["key", true, "a", 65]), json!(["key", false, "b", 66])]).clone());
            }
        }
        if rng.pct(70) {
            look(&mut steps, &m, &mut looks);
        }
    }
    look(&mut steps, &m, &mut looks);

    let seen = play(&steps)?;
    if seen.len() != looks.len() {
        return Err("HARNESS: looks".into());
    }
    let mut copied = 0;
    for ((at, model), s) in looks.iter().zip(&seen) {
        let tell = |e: String| {
            let from = at.saturating_sub(14);
            let tail: Vec<String> = steps[from..*at].iter().map(|s| s.to_string()).collect();
            format!("{} -- after {}", e, tail.join(" "))
        };
        model.check(s).map_err(tell)?;
        let errors = strings(&s["errors"]);
        if let Some(e) = errors.iter().find(|e| !(invalid_seen && e.contains("egular expression"))) {
            return Err(tell(format!("an error of the page: {}", e)));
        }
        if steps[..*at].iter().rev().nth(1).map_or(false, |p| p[0] == "click" && p[1] == "copy-wordlist") {
            let shown: Vec<String> = s["results"].as_array().unwrap().iter().map(|r| r["text"].as_str().unwrap_or("").trim().to_string()).collect();
            let got: Vec<&str> = s["custom"].as_str().unwrap_or("").lines().collect();
            if got != shown {
                return Err(tell(format!("the results are copied as {:?} instead of {:?}", got, shown)));
            }
            copied += 1;
        }
        ctx.add("results_seen", model.base.len() + model.after.len());
    }
    let want: Vec<(usize, String)> = sizes.iter().cloned().zip(names.iter().map(|n| n.to_string())).collect();
    choice_of_list(&seen[0], &want)?;
    ctx.add("steps", steps.len());
    ctx.add("looks", looks.len());
    ctx.add("queries_sent", seen.last().unwrap()["sockets"].as_array().map_or(0, |s| s.len()));
    ctx.add("lists_of_results_copied", copied);
    ctx.add("addresses_reopened", reopened);
    ctx.case(&format!("{:?}", steps), looks.iter().any(|l| l.1.found.len() > 1));
    Ok(())
}

/// Biggest first
fn choice_of_list(seen: &Value, want: &[(usize, String)]) -> Res {
    let lists = seen["lists"].as_array().ok_or("HARNESS: lists")?;
    let mut got: Vec<(usize, String)> = lists
        .iter()
        .map(|l| {
            let name = l[0].as_str().unwrap_or("");
            (want.iter().find(|w| w.1 == name).map_or(usize::MAX, |w| w.0), name.to_string())
        })
        .collect();
    if got.windows(2).any(|p| p[0].0 < p[1].0) {
        return Err(format!("the lists are not in the order of their sizes: {:?}", got));
    }
    let mut want = want.to_vec();
    got.sort_unstable();
    want.sort_unstable();
    if got != want || seen["list"] != "default" {
        return Err(format!("the lists are {:?} (chosen: {}) instead of {:?}", got, seen["list"], want));
    }
    for l in lists {
        let (name, label) = (l[0].as_str().unwrap_or(""), l[1].as_str().unwrap_or(""));
        let len = want.iter().find(|w| w.1 == name).unwrap().0.to_string();
        if !label.contains(name) || !label.contains(&len) {
            return Err(format!("the list {} of {} words is shown as {:?}", name, len, label));
        }
    }
    Ok(())
}

/// Each example of the page, as clicked
pub fn page_examples(rng: &mut Rng, ctx: &mut Ctx) -> Res {
    let start = json!({"wordlists": "window.WORDLISTS = [{\"name\": \"default\", \"len\": 3}];"});
    let seen = play(&[start.clone(), json!(["look", true])])?;
    let examples = seen[0]["examples"].as_array().cloned().unwrap_or_default();
    if examples.is_empty() {
        return Err("HARNESS: no examples".into());
    }
    let i = rng.below(examples.len());
    let text = examples[i][0].as_str().unwrap_or("").to_string();
    let mut steps = vec![start];
    if rng.pct(50) {
        steps.push(json!(["type", "input", "something else"]));
    }
    steps.extend([json!(["example", i]), json!(["open", -1]), json!(["look"]), json!(["reopen"]), json!(["look"])]);
    let seen = play(&steps)?;
    let errors = strings(&seen[0]["errors"]);
    if !errors.is_empty() {
        return Err(format!("example {:?}: {:?}", text, errors));
    }
    let sent = strings(&seen[0]["sockets"][0][1]);
    let want = format!("#dict default\n#words 10\n#limit 100\n{}", text);
    if sent.len() != 1 || !same_query(&sent[0], &want) {
        return Err(format!("example {:?} sent {:?}", text, sent));
    }
    QueryAst::new_from_str(&sent[0]).map_err(|e| format!("example {:?} is not a query: {}", text, e))?;
    let input = seen[0]["input"].as_str().unwrap_or("");
    if !same_query(input, &text) {
        return Err(format!("example {:?} became {:?}", text, input));
    }
    if seen[1]["input"] != seen[0]["input"] {
        return Err(format!("example {:?}: its address opens as {}", text, seen[1]["input"]));
    }
    ctx.add("examples_clicked", 1);
    ctx.case(&text, true);
    Ok(())
}

/// With a real server
pub fn page_and_server(rng: &mut Rng, ctx: &mut Ctx) -> Res {
    let (server, queries) = web::page_server(rng)?;
    let address = format!("127.0.0.1:{}", web::PORT);
    for q in &queries {
        let words = rng.range(1, 3).to_string();
        let limit = rng.pick(&["1", "10", "100", "300", "1000"]).to_string();
        let list = rng.pick(&["default", "second", "third"]).to_string();
        let q = q.replace('\r', "");
        let custom = if rng.pct(20) { "ab\nabc\nba".to_string() } else { String::new() };
        let mut sent = format!("#dict {}\n#words {}\n#limit {}\n{}", list, words, limit, q);
        if !custom.is_empty() {
            sent.push_str(&format!("\n#wordlist\n{}", custom));
        }
        let (expected, status) = match server.phrases(&sent) {
            Some(r) => r,
            None => continue,
        };
        let steps = [
            json!({ "server": address }),
            json!(["look"]),
            json!(["type", "input", q]),
            json!(["type", "wordlist", list]),
            json!(["type", "max-phrase-length", words]),
            json!(["type", "max-results", limit]),
            json!(["type", "custom-wordlist", custom]),
            json!(["click", "query"]),
            json!(["wait", 20_000]),
            json!(["look"]),
        ];
        let seen = play(&steps)?;
        let s = &seen[1];
        let sizes: Vec<(usize, String)> = server.sizes().into_iter().map(|(n, l)| (l, n)).collect();
        choice_of_list(&seen[0], &sizes)?;
        let shown: Vec<String> = s["results"].as_array().unwrap().iter().map(|r| r["text"].as_str().unwrap_or("").trim().to_string()).collect();
        let want: Vec<String> = expected.iter().map(|t| t.trim().to_string()).collect();
        if shown != want {
            return Err(format!("{:?}: the page shows {:?} instead of {:?}", sent, shown, want));
        }
        if !s["status"].as_str().unwrap_or("").starts_with(&status) {
            return Err(format!("{:?}: the status is {} instead of {:?}", sent, s["status"], status));
        }
        let errors = strings(&s["errors"]);
        if !errors.is_empty() {
            return Err(format!("{:?}: errors of the page: {:?}", sent, errors));
        }
        ctx.add("results_from_the_server", shown.len());
        ctx.case(&sent, !shown.is_empty());
    }
    Ok(())
}

//! An independent reader for query text: decides whether a line is acceptable, and what it means.
//! Plain recursive descent over the characters; whitespace and comments may be between any tokens.

use crate::model::*;

pub struct P<'a> {
    s: &'a [u8],
    i: usize,
    depth: usize,
}

type R<T> = Result<T, ()>;

impl<'a> P<'a> {
    fn skip(&mut self) {
        loop {
            let r = &self.s[self.i..];
            if r.starts_with(b" ") {
                self.i += 1;
            } else if r.starts_with(b"//") || r.starts_with(b"--") {
                self.i = self.s.len();
            } else if r.starts_with(b"/*") {
                match r[2..].windows(2).position(|w| w == b"*/") {
                    Some(k) => self.i += k + 4,
                    None => return,
                }
            } else {
                return;
            }
        }
    }

    /// Is the next token exactly `t`?
    fn eat(&mut self, t: &str) -> bool {
        let save = self.i;
        self.skip();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            self.i = save;
            false
        }
    }

    fn letter(&mut self) -> Option<u8> {
        let save = self.i;
        self.skip();
        match self.s.get(self.i) {
            Some(c) if c.is_ascii_alphabetic() => {
                self.i += 1;
                Some(c.to_ascii_lowercase())
            }
            _ => {
                self.i = save;
                None
            }
        }
    }

    fn number(&mut self) -> R<Option<usize>> {
        let save = self.i;
        self.skip();
        let start = self.i;
        while self.s.get(self.i).map_or(false, |c| c.is_ascii_digit()) {
            self.i += 1;
        }
        let t = &self.s[start..self.i];
        match t.len() {
            0 => {
                self.i = save;
                Ok(None)
            }
            1..=9 => Ok(Some(std::str::from_utf8(t).unwrap().parse().unwrap())),
            _ => Err(()),
        }
    }

    fn need(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(())
        }
    }

    fn class(&mut self) -> R<Ast> {
        let invert = self.eat("^");
        let mut m: Mask = 0;
        let mut any = false;
        loop {
            let save = self.i;
            if let Some(a) = self.letter() {
                let mut hi = a;
                let after = self.i;
                if self.eat("-") {
                    match self.letter() {
                        Some(b) => hi = b,
                        None => self.i = after,
                    }
                }
                for c in a..=hi {
                    m |= 1 << (c - b'a');
                }
            } else if self.eat("'") || self.eat(".") {
                m |= PUNCT;
            } else if self.eat("_") {
                m |= SPACE;
            } else {
                self.i = save;
                break;
            }
            any = true;
        }
        if !any {
            return Err(());
        }
        self.need("]")?;
        Ok(Ast::Class(if invert { m ^ LETTERS } else { m }))
    }

    fn anagram(&mut self) -> R<Ast> {
        let mut bank: Vec<Sym> = vec![];
        while let Some(c) = self.letter() {
            bank.push(c - b'a');
        }
        if bank.is_empty() {
            return Err(());
        }
        let kind = if self.eat(">") {
            return Ok(Ast::Ana(Kind::Standard, bank));
        } else if self.eat("+>") {
            return Ok(Ast::Ana(Kind::Super, bank));
        } else if self.eat("->") {
            return Ok(Ast::Ana(Kind::Sub, bank));
        } else if self.eat("+") {
            Kind::Add(self.number()?.ok_or(())?)
        } else if self.eat("-") {
            Kind::Del(self.number()?.ok_or(())?)
        } else {
            return Err(());
        };
        self.need(">")?;
        Ok(Ast::Ana(kind, bank))
    }

    fn term(&mut self) -> R<Option<Ast>> {
        if self.eat("[") {
            return self.class().map(Some);
        }
        if self.eat(".") {
            return Ok(Some(Ast::Class(LETTERS)));
        }
        if self.eat("(") {
            self.depth += 1;
            if self.depth > 100 {
                return Err(());
            }
            let (ast, plain) = self.alternatives()?;
            let out = if self.eat(")") {
                ast
            } else {
                let kind = [":-)", ":+)", ":^)"].iter().position(|t| self.eat(t)).ok_or(())?;
                let terms = plain.ok_or(())?;
                match kind {
                    0 => Ast::Subset(terms),
                    1 => Ast::Superset(terms),
                    _ => Ast::Substr(terms),
                }
            };
            self.depth -= 1;
            return Ok(Some(out));
        }
        if self.eat("<") {
            return self.anagram().map(Some);
        }
        if let Some(n) = self.number()? {
            return Ok(Some(Ast::Num(n)));
        }
        if let Some(c) = self.letter() {
            return Ok(Some(Ast::Class(1 << (c - b'a'))));
        }
        if self.eat("'") {
            return Ok(Some(Ast::Class(PUNCT)));
        }
        if self.eat("_") {
            return Ok(Some(Ast::Class(SPACE)));
        }
        Ok(None)
    }

    /// Also returns the terms, if there is a single sequence of them without suffixes
    fn alternatives(&mut self) -> R<(Ast, Option<Vec<Ast>>)> {
        let mut alts = vec![];
        let mut plain = None;
        loop {
            let mut seq = vec![];
            let mut suffixed = false;
            while let Some(t) = self.term()? {
                let (min, max) = if self.eat("?") {
                    (0, Some(1))
                } else if self.eat("*") {
                    (0, None)
                } else if self.eat("+") {
                    (1, None)
                } else if self.eat("{,") {
                    let n = self.number()?.ok_or(())?;
                    self.need("}")?;
                    (0, Some(n))
                } else if self.eat("{") {
                    let a = self.number()?.ok_or(())?;
                    if self.eat("}") {
                        (a, Some(a))
                    } else if self.eat(",}") {
                        (a, None)
                    } else {
                        self.need(",")?;
                        let b = self.number()?.ok_or(())?;
                        self.need("}")?;
                        if b < a {
                            return Err(());
                        }
                        (a, Some(b))
                    }
                } else {
                    seq.push(t);
                    continue;
                };
                suffixed = true;
                seq.push(Ast::Rep(Box::new(t), min, max));
            }
            if seq.is_empty() {
                return Err(());
            }
            plain = if alts.is_empty() && !suffixed { Some(seq.clone()) } else { None };
            alts.push(Ast::Seq(seq));
            if !self.eat("|") {
                break;
            }
        }
        Ok(if alts.len() == 1 {
            (alts.pop().unwrap(), plain)
        } else {
            (Ast::Alt(alts), None)
        })
    }

    fn expression(&mut self) -> R<Expr> {
        let (ast, _) = self.alternatives()?;
        let mut e = Expr::new(ast);
        loop {
            if self.eat("!_") {
                e.space = true;
            } else if self.eat("!'") {
                e.punct = true;
            } else if self.eat("!") {
                e.fuzz = Some(self.number()?.ok_or(())?);
            } else {
                break;
            }
        }
        self.skip();
        if self.i < self.s.len() {
            return Err(());
        }
        Ok(e)
    }
}

#[derive(Debug)]
pub enum Line {
    Empty,
    Expr(Expr),
    Macro(String, String),
    Words(usize),
    Limit(usize),
    Dict(String),
    Quiet,
    Wordlist,
    /// The reader has no opinion (sizes near the limits)
    Unsure,
    Bad,
}

/// Lower and upper estimate of what the size limit is applied to
fn states(a: &Ast) -> (f64, f64) {
    let sum = |xs: &[Ast], k: f64| {
        xs.iter()
            .map(states)
            .fold((0.0, 1.0), |(l, h), (x, y)| (l + x, h + k * y + k))
    };
    match a {
        Ast::Class(_) => (1.0, 1.0),
        Ast::Seq(xs) | Ast::Alt(xs) | Ast::Substr(xs) => sum(xs, 1.0),
        Ast::Subset(xs) | Ast::Superset(xs) => sum(xs, 3.0),
        Ast::Rep(x, min, max) => {
            let (l, h) = states(x);
            let n = max.unwrap_or(*min).max(1) as f64;
            (l * n, h * n + 2.0)
        }
        Ast::Num(n) => (*n as f64, *n as f64 + 4.0),
        Ast::Ana(Kind::Add(n), b) => {
            let n = b.len() as f64 + *n as f64;
            (n, 6.0 * n + 3.0)
        }
        Ast::Ana(_, b) => (b.len() as f64, 6.0 * b.len() as f64 + 3.0),
    }
}

pub fn read_line(line: &str) -> Line {
    // Too deep nesting is rejected wherever it is, even in a comment
    let mut depth = 0usize;
    for c in line.bytes() {
        match c {
            b'(' => depth += 1,
            b')' => depth = depth.saturating_sub(1),
            _ => {}
        }
        if depth > 100 {
            return Line::Bad;
        }
    }
    let mut p = P {
        s: line.as_bytes(),
        i: 0,
        depth: 0,
    };
    p.skip();
    if p.i == line.len() {
        return Line::Empty;
    }
    let start = p.i;
    if line.as_bytes()[start] == b'#' {
        let rest = &line[start..];
        let low = rest.to_ascii_lowercase();
        let end = |p: &mut P, l: Line| {
            p.skip();
            if p.i == line.len() {
                l
            } else {
                Line::Bad
            }
        };
        for (k, name) in ["#words", "#dictionary", "#dict", "#limit", "#quiet"].iter().enumerate() {
            if !low.starts_with(name) {
                continue;
            }
            p.i = start + name.len();
            match k {
                0 | 3 => {
                    return match p.number() {
                        Ok(Some(n)) => end(&mut p, if k == 0 { Line::Words(n) } else { Line::Limit(n) }),
                        _ => Line::Bad,
                    };
                }
                1 | 2 => {
                    // `#dictionary` alone is also `#dict` followed by `ionary`
                    let mut name = String::new();
                    loop {
                        p.skip();
                        match line.as_bytes().get(p.i) {
                            Some(&c) if c.is_ascii_alphanumeric() || b"-_.'".contains(&c) => {
                                name.push(c as char);
                                p.i += 1;
                            }
                            _ => break,
                        }
                    }
                    if name.is_empty() {
                        if k == 1 {
                            return Line::Unsure;
                        }
                        return Line::Bad;
                    }
                    return end(&mut p, Line::Dict(name));
                }
                _ => return end(&mut p, Line::Quiet),
            }
        }
        if low.starts_with("#wordlist") {
            p.i = start + "#wordlist".len();
            return end(&mut p, Line::Wordlist);
        }
        return Line::Bad;
    }
    // A macro definition: a name, and anything printable after the `=`
    if let Some(eq) = line[start..].find('=').map(|e| e + start) {
        let name = &line[start..eq];
        let clean = name.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_');
        let value = &line[eq + 1..];
        if !clean || value.bytes().any(|c| !(b' '..=b'~').contains(&c)) || value.contains("--") || value.contains('/') || value.starts_with(' ') {
            return if name.contains(' ') || name.contains('/') || name.contains('-') || value.contains('/') || value.contains("--") || value.starts_with(' ') {
                Line::Unsure
            } else {
                Line::Bad
            };
        }
        if name.is_empty() || !name.as_bytes()[0].is_ascii_alphabetic() {
            return Line::Bad;
        }
        return Line::Macro(name.to_string(), value.trim_end().to_string());
    }
    p.i = 0;
    match p.expression() {
        Err(()) => Line::Bad,
        Ok(e) => {
            let (low, high) = states(&e.ast);
            let k = 1.0 + e.fuzz.unwrap_or(0) as f64;
            if low * k > 50_000.0 {
                return Line::Bad;
            }
            if high * k > 15_000.0 {
                return Line::Unsure;
            }
            Line::Expr(e)
        }
    }
}

pub struct Query {
    pub exprs: Vec<Expr>,
    pub words: Option<usize>,
    pub limit: Option<usize>,
    pub dict: Option<String>,
    pub quiet: bool,
    pub wordlist: Option<Vec<(usize, String)>>,
}

pub enum Read {
    Query(Query),
    Bad(usize), // 1-based line
    Unsure,
}

pub fn read(text: &str) -> Read {
    let mut q = Query {
        exprs: vec![],
        words: None,
        limit: None,
        dict: None,
        quiet: false,
        wordlist: None,
    };
    let mut macros: Vec<(String, String)> = vec![];
    for (i, line) in text.split(['\n', ';']).enumerate() {
        if let Some(w) = &mut q.wordlist {
            let t = line.trim();
            if !t.is_empty() {
                w.push((i, t.to_string()));
            }
            continue;
        }
        let mut line = line.to_string();
        for (n, v) in &macros {
            line = line.replace(n, v);
            if line.len() > 100_000 {
                return Read::Unsure;
            }
        }
        match read_line(&line) {
            Line::Empty => {}
            Line::Bad => return Read::Bad(i + 1),
            Line::Unsure => return Read::Unsure,
            Line::Expr(e) => q.exprs.push(e),
            Line::Macro(n, v) => match macros.iter_mut().find(|m| m.0 == n) {
                Some(m) => m.1 = v,
                None => macros.push((n, v)),
            },
            Line::Words(n) => q.words = Some(n),
            Line::Limit(n) => q.limit = Some(n),
            Line::Dict(d) => q.dict = Some(d),
            Line::Quiet => q.quiet = true,
            Line::Wordlist => q.wordlist = Some(vec![]),
        }
    }
    Read::Query(q)
}

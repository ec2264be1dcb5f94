//! The web application (C17, C18) and the command line (C19): the real programs, driven from outside

use crate::ctx::Ctx;
use crate::gen::*;
use crate::props_engine::*;
use crate::props_text::{error_line, hostile, Scratch};
use crate::rng::Rng;
use crate::scen::*;
use noodle::parser::QueryAst;
use noodle::{load_wordlist, QueryEvaluator, QueryResponse, Word};
use serde_json::Value;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream};
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn prctl(option: i32, ...) -> i32;
}

fn program(name: &str) -> PathBuf {
    let exe = std::env::current_exe().expect("HARNESS: current_exe");
    exe.ancestors().nth(3).expect("HARNESS: build folder").join("programs/debug").join(name)
}

pub const PORT: u16 = 8082;

fn connect() -> std::io::Result<TcpStream> {
    let s = TcpStream::connect(("127.0.0.1", PORT)).or_else(|_| TcpStream::connect(("::1", PORT)))?;
    s.set_nodelay(true)?;
    s.set_read_timeout(Some(Duration::from_secs(30)))?;
    s.set_write_timeout(Some(Duration::from_secs(30)))?;
    Ok(s)
}

// --- HTTP, by hand

pub struct Reply {
    pub status: u16,
    pub body: Vec<u8>,
}

fn parse_reply(raw: &[u8]) -> Result<Reply, String> {
    let end = raw
        .windows(4)
        .position(|w| w == b"\r\n\r\n")
        .ok_or_else(|| format!("the connection ended without a response ({} bytes)", raw.len()))?;
    let head = String::from_utf8_lossy(&raw[..end]).to_string();
    let status = head
        .split(' ')
        .nth(1)
        .and_then(|s| s.parse().ok())
        .ok_or_else(|| format!("bad status line in {:?}", head))?;
    let rest = &raw[end + 4..];
    let low = head.to_ascii_lowercase();
    let body = if low.contains("transfer-encoding: chunked") {
        let mut body = vec![];
        let mut r = rest;
        loop {
            let k = r.windows(2).position(|w| w == b"\r\n").ok_or("a chunked response was cut off")?;
            let n = usize::from_str_radix(std::str::from_utf8(&r[..k]).unwrap_or("?"), 16).map_err(|_| "bad chunk")?;
            if r.len() < k + 2 + n + 2 {
                return Err("a chunked response was cut off".into());
            }
            body.extend(&r[k + 2..k + 2 + n]);
            r = &r[k + 2 + n + 2..];
            if n == 0 {
                break body;
            }
        }
    } else {
        let n = low
            .lines()
            .find_map(|l| l.strip_prefix("content-length: "))
            .and_then(|s| s.trim().parse::<usize>().ok());
        if n.map_or(false, |n| n != rest.len()) {
            return Err(format!("the response has {} of {:?} bytes", rest.len(), n));
        }
        rest.to_vec()
    };
    Ok(Reply { status, body })
}

fn http_within(method: &str, target: &str, body: Option<&[u8]>, seconds: u64) -> Result<Reply, String> {
    let go = || -> std::io::Result<Vec<u8>> {
        let mut s = connect()?;
        s.set_read_timeout(Some(Duration::from_secs(seconds)))?;
        let mut head = format!("{} {} HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n", method, target);
        if let Some(b) = body {
            head.push_str(&format!("Content-Length: {}\r\n", b.len()));
        }
        head.push_str("\r\n");
        s.write_all(head.as_bytes())?;
        if let Some(b) = body {
            s.write_all(b)?;
        }
        let mut raw = vec![];
        s.read_to_end(&mut raw)?;
        Ok(raw)
    };
    let raw = go().map_err(|e| format!("{} {}: no answer: {}", method, clip(target), e))?;
    parse_reply(&raw).map_err(|e| format!("{} {}: {}", method, clip(target), e))
}

fn http(method: &str, target: &str, body: Option<&[u8]>) -> Result<Reply, String> {
    http_within(method, target, body, 30)
}

fn clip(s: &str) -> String {
    s.chars().take(300).collect()
}

fn encode(s: &[u8], rng: &mut Rng) -> String {
    let all = rng.pct(20);
    let mut out = String::new();
    for &b in s {
        // What may be in a path as it is (`.` alone has a meaning of its own)
        if b.is_ascii_alphanumeric() && !all || b"-._~!'()*,:+;=&$@".contains(&b) && rng.pct(50) {
            out.push(b as char);
        } else {
            out.push_str(&if rng.pct(50) { format!("%{:02X}", b) } else { format!("%{:02x}", b) });
        }
    }
    out
}

// --- Websockets, by hand

pub struct Ws {
    s: TcpStream,
    buf: Vec<u8>,
}

pub enum Frame {
    Text(String),
    Close,
    Eof,
}

impl Ws {
    pub fn open() -> Result<Ws, String> {
        let go = || -> std::io::Result<Ws> {
            let mut s = connect()?;
            s.write_all(
                b"GET /ws HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n",
            )?;
            let mut head = vec![];
            let mut b = [0u8];
            while !head.ends_with(b"\r\n\r\n") {
                if s.read(&mut b)? == 0 || head.len() > 10_000 {
                    return Err(std::io::Error::new(std::io::ErrorKind::Other, "handshake"));
                }
                head.push(b[0]);
            }
            if !head.starts_with(b"HTTP/1.1 101") {
                return Err(std::io::Error::new(
                    std::io::ErrorKind::Other,
                    format!("handshake: {}", String::from_utf8_lossy(&head)),
                ));
            }
            Ok(Ws { s, buf: vec![] })
        };
        go().map_err(|e| format!("websocket: {}", e))
    }

    pub fn send(&mut self, opcode: u8, fin: bool, data: &[u8]) -> std::io::Result<()> {
        self.s.write_all(&Ws::frame(opcode, fin, data))
    }

    fn frame(opcode: u8, fin: bool, data: &[u8]) -> Vec<u8> {
        let mut f = vec![opcode | if fin { 0x80 } else { 0 }];
        match data.len() {
            n if n < 126 => f.push(0x80 | n as u8),
            n if n < 65536 => {
                f.push(0x80 | 126);
                f.extend((n as u16).to_be_bytes());
            }
            n => {
                f.push(0x80 | 127);
                f.extend((n as u64).to_be_bytes());
            }
        }
        let mask = [0x12, 0x34, 0x56, 0x78];
        f.extend(mask);
        f.extend(data.iter().enumerate().map(|(i, b)| b ^ mask[i % 4]));
        f
    }

    /// The query, and more messages at the same time, which are none
    pub fn text_and_more(&mut self, text: &str, rng: &mut Rng) -> std::io::Result<()> {
        let mut all = Ws::frame(1, true, text.as_bytes());
        for _ in 0..rng.range(1, 3) {
            all.extend(match rng.below(5) {
                0 => Ws::frame(9, true, b"ping"),
                1 => Ws::frame(10, true, b""),
                2 => Ws::frame(2, true, &[0xff, 0]),
                3 => Ws::frame(1, true, b""),
                _ => Ws::frame(1, true, b"a(b"),
            });
        }
        self.s.write_all(&all)
    }

    /// As a single frame, or in fragments
    pub fn text(&mut self, text: &str, rng: &mut Rng) -> std::io::Result<()> {
        let b = text.as_bytes();
        if b.len() > 1 && rng.pct(30) {
            let k = rng.range(1, b.len() - 1);
            self.send(1, false, &b[..k])?;
            if rng.pct(30) {
                self.send(9, true, b"ping")?;
            }
            self.send(0, true, &b[k..])
        } else {
            self.send(1, true, b)
        }
    }

    fn fill(&mut self, n: usize) -> std::io::Result<bool> {
        let mut tmp = [0u8; 4096];
        while self.buf.len() < n {
            let k = self.s.read(&mut tmp)?;
            if k == 0 {
                return Ok(false);
            }
            self.buf.extend(&tmp[..k]);
        }
        Ok(true)
    }

    pub fn next(&mut self) -> Result<Frame, String> {
        let mut go = || -> std::io::Result<Frame> {
            let mut text = vec![];
            loop {
                if !self.fill(2)? {
                    return Ok(Frame::Eof);
                }
                let (op, fin) = (self.buf[0] & 15, self.buf[0] & 0x80 != 0);
                let (n, h) = match self.buf[1] & 0x7f {
                    126 => {
                        self.fill(4)?;
                        (u16::from_be_bytes([self.buf[2], self.buf[3]]) as usize, 4)
                    }
                    127 => {
                        self.fill(10)?;
                        let mut b = [0; 8];
                        b.copy_from_slice(&self.buf[2..10]);
                        (u64::from_be_bytes(b) as usize, 10)
                    }
                    n => (n as usize, 2),
                };
                if !self.fill(h + n)? {
                    return Ok(Frame::Eof);
                }
                let data: Vec<u8> = self.buf[h..h + n].to_vec();
                self.buf.drain(..h + n);
                match op {
                    0 | 1 => {
                        text.extend(data);
                        if fin {
                            return Ok(Frame::Text(String::from_utf8_lossy(&text).to_string()));
                        }
                    }
                    8 => return Ok(Frame::Close),
                    9 => {
                        let _ = self.send(10, true, &data);
                    }
                    _ => {}
                }
            }
        };
        go().map_err(|e| format!("websocket: {}", e))
    }

    pub fn all(&mut self) -> Result<(Vec<Value>, bool), String> {
        let mut out = vec![];
        loop {
            match self.next()? {
                Frame::Text(t) => out.push(serde_json::from_str(&t).map_err(|_| format!("message is not JSON: {:?}", t))?),
                Frame::Close => return Ok((out, true)),
                Frame::Eof => return Ok((out, false)),
            }
        }
    }
}

// --- The server

pub struct Server {
    child: Child,
    lists: BTreeMap<String, Vec<Word>>,
    log: PathBuf,
    _dir: Scratch,
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn write_list(dir: &std::path::Path, name: &str, ext: &str, words: &[W]) {
    let mut text = String::new();
    for (i, w) in words.iter().enumerate() {
        let t: String = w.text.chars().filter(|&c| c != '\n' && c != '\t' && c != '\r').collect();
        if i % 3 == 0 {
            text.push_str(&format!("{}\t", i * 7));
        }
        text.push_str(&t);
        text.push('\n');
    }
    let bytes = if ext.ends_with("zst") {
        zstd::encode_all(text.as_bytes(), 1).expect("HARNESS: zstd")
    } else {
        text.into_bytes()
    };
    std::fs::write(dir.join(format!("{}{}", name, ext)), bytes).expect("HARNESS: write");
}

impl Server {
    fn start(rng: &mut Rng, lists: &[(&str, Vec<W>)]) -> Result<Server, String> {
        let dir = Scratch::new(rng);
        let wl = dir.0.join("lists");
        std::fs::create_dir_all(&wl).expect("HARNESS: scratch folder");
        let mut map = BTreeMap::new();
        for (name, words) in lists {
            let ext = *rng.pick(&["", ".txt", ".tsv.zst", ".zst", ".a.b"]);
            write_list(&wl, name, ext, words);
            let l = load_wordlist(wl.join(format!("{}{}", name, ext))).map_err(|_| format!("{}{} does not load", name, ext))?;
            map.insert(name.to_string(), l);
        }
        // What else may lie around: folders, links which lead nowhere or elsewhere, and the same list again
        if rng.pct(70) {
            let (name, words) = &lists[rng.below(lists.len())];
            if rng.pct(60) {
                std::fs::create_dir(wl.join("folder.txt")).expect("HARNESS: folder");
            }
            let elsewhere = dir.0.join("elsewhere");
            std::fs::create_dir(&elsewhere).expect("HARNESS: folder");
            write_list(&elsewhere, "linked", ".txt", words);
            for (link, to) in [("linked.txt", elsewhere.join("linked.txt")), ("broken.txt", dir.0.join("nothing")), ("links", elsewhere.clone())] {
                if rng.pct(60) {
                    std::os::unix::fs::symlink(to, wl.join(link)).expect("HARNESS: link");
                }
            }
            if rng.pct(60) {
                let real = std::fs::read_dir(&wl)
                    .expect("HARNESS: lists")
                    .filter_map(|f| f.ok().and_then(|f| f.file_name().into_string().ok()))
                    .find(|f| f.split('.').next() == Some(*name))
                    .expect("HARNESS: list");
                // (With the same ending: that tells how it is to be read)
                let again = if real.ends_with(".zst") { format!("{}.again.zst", name) } else { format!("{}.again", name) };
                std::fs::copy(wl.join(real), wl.join(again)).expect("HARNESS: list");
            }
        }
        // Somebody else's server would answer in its place
        let free = Instant::now();
        while connect().is_ok() {
            if free.elapsed() > Duration::from_secs(40) {
                return Err(format!("HARNESS: port {} is in use", PORT));
            }
            std::thread::sleep(Duration::from_millis(200));
        }
        let log = dir.0.join("log");
        let out = std::fs::File::create(&log).expect("HARNESS: log");
        let mut cmd = Command::new(program("noodle-webapp"));
        cmd.arg(&wl)
            .current_dir("/repo/noodle-webapp")
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::null())
            .stderr(out.try_clone().expect("HARNESS: log"))
            .stdout(out);
        unsafe {
            cmd.pre_exec(|| {
                prctl(1, 9u64); // Ends along with this process
                Ok(())
            });
        }
        let child = cmd.spawn().map_err(|e| format!("HARNESS: noodle-webapp: {}", e))?;
        let mut s = Server {
            child,
            lists: map,
            log,
            _dir: dir,
        };
        let begin = Instant::now();
        loop {
            if connect().is_ok() {
                break;
            }
            if let Ok(Some(st)) = s.child.try_wait() {
                let log = s.log();
                if log.contains("in use") {
                    return Err(format!("HARNESS: port {} is in use", PORT));
                }
                return Err(format!("the server ended at startup: {} {}", st, log));
            }
            if begin.elapsed() > Duration::from_secs(30) {
                return Err("HARNESS: the server does not listen".into());
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        Ok(s)
    }

    fn log(&self) -> String {
        let l = std::fs::read_to_string(&self.log).unwrap_or_default();
        let tail: Vec<&str> = l.lines().rev().take(30).collect();
        tail.into_iter().rev().collect::<Vec<_>>().join(" / ")
    }

    /// Alive, and no request made it panic
    fn healthy(&mut self) -> Result<(), String> {
        if let Ok(Some(st)) = self.child.try_wait() {
            return Err(format!("the server ended: {} {}", st, self.log()));
        }
        let l = std::fs::read_to_string(&self.log).unwrap_or_default();
        if let Some(p) = l.lines().position(|l| l.contains("panicked at")) {
            let m: Vec<&str> = l.lines().skip(p).take(3).collect();
            return Err(format!("the server panicked: {}", m.join(" / ")));
        }
        Ok(())
    }

    fn list(&self, name: Option<&str>) -> &Vec<Word> {
        name.and_then(|n| self.lists.get(n)).unwrap_or(&self.lists["default"])
    }

    /// What the evaluator answers; `None` if that takes long
    fn expect(&self, query: &str, default_limit: Option<usize>) -> Option<Expected> {
        let mut ast = match QueryAst::new_from_str(query) {
            Ok(a) => a,
            Err(e) => return Some(Expected::Invalid(e.to_string())),
        };
        if ast.options.results_limit.is_none() {
            ast.options.results_limit = default_limit;
        }
        let list = self.list(ast.options.dictionary.as_deref());
        let mut ev = QueryEvaluator::from_ast(&ast, list);
        let deadline = Instant::now() + Duration::from_millis(1500);
        let mut m = vec![];
        loop {
            match ev.next_within_deadline(Some(deadline)) {
                QueryResponse::Match(p) => m.push(p),
                QueryResponse::Timeout => return None,
                QueryResponse::Logs(_) => {}
                QueryResponse::Complete(c) => return Some(Expected::Results(m, c)),
            }
        }
    }
}

pub enum Expected {
    Results(Vec<Vec<Word>>, String),
    Invalid(String),
}

fn plain(p: &[Word]) -> String {
    p.iter().map(|w| w.text.as_ref()).collect::<Vec<_>>().join(" ")
}

/// The results of a message or line `{"match": {"phrase": [{"text": ...}, ...]}}`
fn json_phrase(v: &Value) -> Option<Vec<(String, u64)>> {
    let words = v.get("match")?.get("phrase")?.as_array()?;
    words
        .iter()
        .map(|w| Some((w.get("text")?.as_str()?.to_string(), w.get("score")?.as_u64()?)))
        .collect()
}

fn as_pairs(p: &[Word]) -> Vec<(String, u64)> {
    p.iter().map(|w| (w.text.to_string(), w.score as u64)).collect()
}

// --- C17: every channel gives the evaluator's answer

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Channel {
    Get,
    Post,
    Ws,
}

pub struct Request {
    query: String,
    /// As it is sent: what is not UTF-8 in it is U+FFFD in `query`
    raw: Vec<u8>,
    channel: Channel,
    expected: Expected,
    seed: u64,
}

fn first_difference<T: std::fmt::Debug + PartialEq>(got: &[T], want: &[T]) -> String {
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    format!("{} results instead of {}; at {}: {:?} instead of {:?}", got.len(), want.len(), i, got.get(i), want.get(i))
}

fn ask(r: &Request) -> Result<(usize, usize), String> {
    let mut rng = Rng::new(r.seed);
    let fail = |m: String| Err(format!("{:?} {:?}: {}", r.channel, r.query, m));
    match r.channel {
        Channel::Get | Channel::Post => {
            let reply = if r.channel == Channel::Get {
                http("GET", &format!("/query/{}", encode(&r.raw, &mut rng)), None)?
            } else {
                http("POST", "/query", Some(&r.raw))?
            };
            let body = String::from_utf8_lossy(&reply.body).to_string();
            if reply.status != 200 {
                return fail(format!("status {}: {}", reply.status, clip(&body)));
            }
            match &r.expected {
                Expected::Invalid(e) => {
                    if body.trim_end() != e.trim_end() {
                        return fail(format!("answer {:?} instead of the error {:?}", clip(&body), e));
                    }
                    Ok((0, 1))
                }
                Expected::Results(m, _) if r.channel == Channel::Get => {
                    let got: Vec<&str> = body.lines().map(|l| l.trim_end()).collect();
                    let want: Vec<String> = m.iter().map(|p| plain(p).trim_end().to_string()).collect();
                    if got != want {
                        let got: Vec<String> = got.iter().map(|s| s.to_string()).collect();
                        return fail(first_difference(&got, &want));
                    }
                    Ok((want.len(), 1))
                }
                Expected::Results(m, _) => {
                    let mut got = vec![];
                    for l in body.lines() {
                        match serde_json::from_str(l).ok().and_then(|v| json_phrase(&v)) {
                            Some(p) => got.push(p),
                            None => return fail(format!("{:?} is not a result", clip(l))),
                        }
                    }
                    let want: Vec<_> = m.iter().map(|p| as_pairs(p)).collect();
                    if got != want {
                        return fail(first_difference(&got, &want));
                    }
                    Ok((want.len(), 1))
                }
            }
        }
        Channel::Ws => {
            let mut ws = Ws::open()?;
            let (msgs, closed) = loop {
                let more = rng.pct(30);
                let sent = if more { ws.text_and_more(&r.query, &mut rng) } else { ws.text(&r.query, &mut rng) };
                sent.map_err(|e| format!("websocket: {}", e))?;
                match ws.all() {
                    // What the server has not read by the end may be the end of the connection
                    Err(e) if more && e.contains("reset") => ws = Ws::open()?,
                    a => break a.map_err(|e| format!("{:?}: {}", r.query, e))?,
                }
            };
            if !closed {
                return fail("the connection ended without a close message".into());
            }
            let mut got = vec![];
            let mut logs = vec![];
            let mut status = vec![];
            for m in &msgs {
                if let Some(p) = json_phrase(m) {
                    got.push(p);
                } else if let Some(s) = m.get("status").and_then(|s| s.as_str()) {
                    status.push(s.to_string());
                } else if let Some(s) = m.get("log").and_then(|l| l.get("message")).and_then(|s| s.as_str()) {
                    logs.push(s.to_string());
                } else {
                    return fail(format!("unknown message {}", m));
                }
            }
            if !status.first().map_or(false, |s| s.starts_with("Running query (")) {
                return fail(format!("the first status is {:?}", status.first()));
            }
            match &r.expected {
                Expected::Invalid(e) => {
                    if !got.is_empty() || !logs.iter().any(|l| l.trim_end() == e.trim_end()) {
                        return fail(format!("the error {:?} is not among {:?}", e, logs));
                    }
                    if !status.iter().any(|s| s.contains("error")) {
                        return fail(format!("no status tells the error: {:?}", status));
                    }
                }
                Expected::Results(m, c) => {
                    let want: Vec<_> = m.iter().map(|p| as_pairs(p)).collect();
                    if got != want {
                        return fail(first_difference(&got, &want));
                    }
                    let last = msgs.last().and_then(|m| m.get("status")).and_then(|s| s.as_str());
                    if !last.map_or(false, |s| s.starts_with(c.as_str())) {
                        return fail(format!("the last message is {:?} instead of the status {:?}", msgs.last(), c));
                    }
                }
            }
            Ok((got.len(), msgs.len()))
        }
    }
}

fn web_scenarios(rng: &mut Rng, n: usize) -> Vec<Case> {
    (0..n)
        .map(|_| {
            let cfg = Cfg {
                profile: if rng.pct(50) { MIXED } else { REGEX },
                exprs: (1, 2),
                depth: &[1, 1, 2, 3],
                punct_words: 20,
                large: 2,
                ..BASE
            };
            scenario(rng, &cfg, None)
        })
        .collect()
}

fn union(cases: &[&Case]) -> Vec<W> {
    let mut words: Vec<W> = cases.iter().flat_map(|c| c.scen.words.iter().take(60).cloned()).collect();
    // (The loader leaves out words of one letter)
    words.retain(|w| w.syms.len() > 2);
    words
}

/// A query over one of the lists, valid or not
fn web_query(rng: &mut Rng, cases: &[Case]) -> String {
    let c = rng.pick(cases);
    let mut q = c.scen.query.clone();
    match rng.below(12) {
        0 => q = hostile(rng),
        1 => {
            let cs: Vec<char> = q.chars().collect();
            let i = rng.below(cs.len().max(1));
            q = cs.iter().take(i).chain(&['(', '%', 'é'][..rng.range(1, 3)]).chain(cs.iter().skip(i)).collect();
        }
        2 => {
            q.push_str("\n#wordlist");
            for w in c.scen.words.iter().take(20) {
                q.push('\n');
                q.push_str(&w.text);
            }
        }
        _ => {}
    }
    let mut pre = String::new();
    if rng.pct(85) {
        pre.push_str(&format!("#words {}\n", rng.range(1, 3)));
    }
    if rng.pct(30) {
        pre.push_str(&format!("#limit {};", *rng.pick(&[0, 1, 5, 14, 15, 16, 100, 1000])));
    }
    if rng.pct(40) {
        pre.push_str(&format!("#dict {}\n", *rng.pick(&["default", "second", "third", "missing", "DEFAULT"])));
    }
    pre + &q
}

/// A server for the page, and queries for it
pub fn page_server(rng: &mut Rng) -> Result<(Server, Vec<String>), String> {
    let cases = web_scenarios(rng, 4);
    let all: Vec<&Case> = cases.iter().collect();
    let mut lists = vec![("default", union(&all[..2])), ("second", union(&all[2..])), ("third", union(&all))];
    if rng.pct(50) {
        lists.push(("empty-list", vec![]));
    }
    let server = Server::start(rng, &lists)?;
    let queries = (0..20).map(|_| web_query(rng, &cases)).collect();
    Ok((server, queries))
}

impl Server {
    /// The names and sizes of the lists
    pub fn sizes(&self) -> Vec<(String, usize)> {
        self.lists.iter().map(|(name, l)| (name.clone(), l.len())).collect()
    }

    /// The results as text, and the (beginning of the) last status
    pub fn phrases(&self, query: &str) -> Option<(Vec<String>, String)> {
        Some(match self.expect(query, None)? {
            Expected::Results(m, c) => (m.iter().map(|p| plain(p)).collect(), c),
            Expected::Invalid(_) => (vec![], "Query parse error".into()),
        })
    }
}

pub fn web_answers(rng: &mut Rng, ctx: &mut Ctx) -> Res {
    let n = rng.range(4, 8);
    let cases = web_scenarios(rng, n);
    let (a, b): (Vec<&Case>, Vec<&Case>) = cases.iter().partition(|_| rng.pct(60));
    let all: Vec<&Case> = cases.iter().collect();
    let mut first = union(&a);
    first.extend(gen_words(rng, &Alphabet((0..26).collect()), &[], &WordsProfile { count: 20, pieces: 1, noise: 100, punct: 10, tranches: 1 }));
    let lists = [("default", first), ("second", union(&b)), ("third", union(&all))];
    let mut server = Server::start(rng, &lists)?;

    let mut requests = vec![];
    while requests.len() < 60 {
        let mut query = web_query(rng, &cases);
        let channel = *rng.pick(&[Channel::Get, Channel::Post, Channel::Ws]);
        if channel != Channel::Get && rng.pct(4) {
            // A query of several kB
            query.push_str("\n#wordlist");
            for _ in 0..rng.range(100, if channel == Channel::Ws { 12_000 } else { 5_000 }) {
                query.push('\n');
                for _ in 0..rng.range(1, 9) {
                    query.push((b'a' + rng.below(26) as u8) as char);
                }
            }
        }
        let mut raw = query.clone().into_bytes();
        if channel != Channel::Ws && rng.pct(5) {
            let i = rng.below(raw.len() + 1);
            raw.insert(i, *rng.pick(&[0xff, 0x80, 0xc3, 0xe2, 0xf0]));
            query = String::from_utf8_lossy(&raw).to_string();
        }
        let limit = if channel == Channel::Get { Some(15) } else { None };
        if channel == Channel::Get && (query.is_empty() || query == "." || query == "..") {
            continue;
        }
        if let Some(expected) = server.expect(&query, limit) {
            requests.push(Request {
                raw,
                query,
                channel,
                expected,
                seed: rng.next(),
            });
        }
    }
    // Some one after the other, then many at a time
    let serial = rng.range(0, 15);
    let parallel = rng.range(2, 12);
    for r in &requests[..serial] {
        let (n, m) = ask(r)?;
        ctx.add("results_compared", n);
        ctx.add("messages", m);
    }
    let next = std::sync::atomic::AtomicUsize::new(serial);
    let results: Vec<Result<(usize, usize), String>> = std::thread::scope(|s| {
        let handles: Vec<_> = (0..parallel)
            .map(|_| {
                s.spawn(|| {
                    let mut sum = (0, 0);
                    loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        let r = match requests.get(i) {
                            Some(r) => r,
                            None => return Ok(sum),
                        };
                        let (n, m) = ask(r).map_err(|e| format!("with {} clients at a time: {}", parallel, e))?;
                        sum = (sum.0 + n, sum.1 + m);
                    }
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().expect("HARNESS: client")).collect()
    });
    for r in results {
        let (n, m) = r.or_else(|e| server.healthy().and(Err(e)))?;
        ctx.add("results_compared", n);
        ctx.add("messages", m);
    }
    for r in &requests {
        ctx.add(&format!("{:?}_requests", r.channel).to_lowercase(), 1);
        ctx.add("invalid_queries", matches!(r.expected, Expected::Invalid(_)) as usize);
        let nontrivial = matches!(&r.expected, Expected::Results(m, _) if !m.is_empty());
        ctx.case(&format!("{:?} {:?}", r.channel, r.query), nontrivial);
    }

    // The lists themselves
    for (name, real) in [("default", "default"), ("second", "second"), ("third", "third"), ("missing", "default")] {
        let r = http("GET", &format!("/wordlist/{}", name), None)?;
        let want: String = server.lists[real].iter().map(|w| format!("{}\n", w.text)).collect();
        if r.status != 200 || r.body != want.as_bytes() {
            return Err(format!("/wordlist/{} gives {} bytes instead of {} (status {})", name, r.body.len(), want.len(), r.status));
        }
    }
    let js = String::from_utf8_lossy(&http("GET", "/wordlists.js", None)?.body).to_string();
    let metrics = String::from_utf8_lossy(&http("GET", "/metrics", None)?.body).to_string();
    let listed = (js.matches("\"name\"").count(), metrics.matches("noodle_wordlist_size{").count());
    if listed != (server.lists.len(), server.lists.len()) {
        return Err(format!("{} lists, but wordlists.js and /metrics tell {:?}: {} {}", server.lists.len(), listed, js, metrics));
    }
    for (name, l) in &server.lists {
        let squeezed: String = js.chars().filter(|c| !c.is_whitespace()).collect();
        if !squeezed.contains(&format!("{{\"name\":\"{}\",\"len\":{}}}", name, l.len())) {
            return Err(format!("wordlists.js does not list {} with {} words: {}", name, l.len(), js));
        }
        if !metrics.contains(&format!("noodle_wordlist_size{{wordlist=\"{}\"}} {}\n", name, l.len())) {
            return Err(format!("/metrics does not list {} with {} words: {}", name, l.len(), metrics));
        }
    }
    // The page
    let page = std::fs::read("/repo/noodle-webapp/static/index.html").expect("HARNESS: index.html");
    for target in ["/", "/index.html"] {
        let r = http("GET", target, None)?;
        if r.status != 200 || r.body != page {
            return Err(format!("{} is not the page: status {}, {} bytes", target, r.status, r.body.len()));
        }
    }
    for f in std::fs::read_dir("/repo/noodle-webapp/static").expect("HARNESS: static files").flatten() {
        if !f.file_type().map_or(false, |t| t.is_file()) {
            continue;
        }
        let target = format!("/{}", f.file_name().to_string_lossy());
        let want = std::fs::read(f.path()).expect("HARNESS: static file");
        let r = http("GET", &target, None)?;
        if r.status != 200 || r.body != want {
            return Err(format!("{} is not the static file: status {}, {} bytes", target, r.status, r.body.len()));
        }
        ctx.add("static_files", 1);
    }
    for target in ["/../Cargo.toml", "/%2e%2e/Cargo.toml", "/..%2fCargo.toml", "/static/../../Cargo.toml", "/wordlist/..%2f..%2fCargo.toml"] {
        let r = http("GET", target, None)?;
        if String::from_utf8_lossy(&r.body).contains("noodle-webapp\"\nversion") {
            return Err(format!("{} gives a file from outside of the static files", target));
        }
    }
    ctx.add("sessions", 1);
    ctx.max("clients_at_a_time", parallel);
    server.healthy()
}

// --- C18: accounting, and survival

fn metric(name: &str) -> Result<i64, String> {
    let body = String::from_utf8_lossy(&http("GET", "/metrics", None)?.body).to_string();
    body.lines()
        .find_map(|l| l.strip_prefix(name).and_then(|r| r.strip_prefix(' ')))
        .and_then(|v| v.trim().parse().ok())
        .ok_or_else(|| format!("/metrics has no {}: {}", name, body))
}

/// A search which does not end within hours: all of the phrases match one of the expressions
fn endless_query(rng: &mut Rng) -> String {
    let q = *rng.pick(&["(..)*; (..)*.", "((a|b|c)(a|b|c))*; ((a|b|c)(a|b|c))*(a|b|c)"]);
    format!("#dict endless;#words 30;{}", q)
}

fn endless_words(rng: &mut Rng) -> Vec<W> {
    (0..120)
        .map(|i| {
            let mut s = vec![];
            let mut x = i + 2;
            while x > 0 {
                s.push((x % 3) as u8);
                x /= 3;
            }
            s.push(0);
            W::new(&s, rng, 0)
        })
        .collect()
}

const GET_TIMEOUT: usize = 13;

struct Tally {
    /// Queries which certainly started, and those which may have
    certain: i64,
    possible: i64,
    kinds: Vec<&'static str>,
}

/// One unfriendly (or friendly) client
fn visit(kind: usize, seed: u64, good: &Request) -> Result<(i64, i64, &'static str), String> {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let io = |e: std::io::Error| format!("client: {}", e);
    let bytes = |rng: &mut Rng, n: usize| -> Vec<u8> { (0..n).map(|_| rng.next() as u8).collect() };
    Ok(match kind {
        0 => {
            ask(good)?;
            (1, 1, "answered")
        }
        1 => {
            // Bytes which are not UTF-8 or not a query: an answer all the same
            let mut b = bytes(rng, 30);
            b.push(b'(');
            let r = http("POST", "/query", Some(&b))?;
            if r.status != 200 {
                return Err(format!("POST of {:?}: status {}", b, r.status));
            }
            (1, 1, "post_garbage")
        }
        2 => {
            let n = rng.range(1, 20);
            let t: String = bytes(rng, n).iter().map(|b| format!("%{:02x}", b)).collect();
            let r = http("GET", &format!("/query/{}%28", t), None)?;
            if r.status != 200 {
                return Err(format!("GET of {}: status {}", t, r.status));
            }
            (1, 1, "get_garbage")
        }
        3 => {
            // More than 64 kB
            let n = 64 * 1024 + if rng.pct(30) { 1 } else { rng.range(1, 100_000) };
            let mut s = connect().map_err(io)?;
            let head = format!("POST /query HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: {}\r\n\r\n", n);
            let _ = s.write_all(head.as_bytes()).and_then(|_| s.write_all(&vec![b'a'; n]));
            let mut raw = vec![];
            let _ = s.read_to_end(&mut raw);
            if raw.starts_with(b"HTTP/1.1 200") && !String::from_utf8_lossy(&raw).contains("<html") {
                return Err(format!("a query of {} bytes was not refused", n));
            }
            (0, 0, "post_too_long")
        }
        4 => {
            // An upgrade, and nothing else
            let mut ws = Ws::open()?;
            if rng.pct(50) {
                let _ = ws.send(8, true, &[3, 232]);
            }
            (0, 0, "ws_without_query")
        }
        5 => {
            let mut ws = Ws::open()?;
            let n = rng.range(0, 200);
            let b = bytes(rng, n);
            ws.send(2, true, &b).map_err(io)?;
            let _ = ws.all();
            (1, 1, "ws_binary")
        }
        6 => {
            // A frame which breaks the protocol
            let mut ws = Ws::open()?;
            let n = rng.range(1, 60);
            let mut b = bytes(rng, n);
            b[0] = *rng.pick(&[0xf1, 0x83, 0x0b, 0xff, 0x80]);
            let _ = ws.s.write_all(&b);
            (0, 1, "ws_garbage")
        }
        7 => {
            // Sends a query and leaves
            let mut ws = Ws::open()?;
            ws.text(&endless_query(rng), rng).map_err(io)?;
            if rng.pct(50) {
                std::thread::sleep(Duration::from_millis(rng.below(200) as u64));
            }
            if rng.pct(50) {
                let _ = ws.send(8, true, &[3, 232]);
            }
            (0, 1, "ws_left_early")
        }
        8 => {
            // Reads for a while, then leaves
            let mut ws = Ws::open()?;
            ws.text(&endless_query(rng), rng).map_err(io)?;
            let n = rng.range(3, 12);
            for _ in 0..n {
                match ws.next()? {
                    Frame::Text(t) if t.contains("Complete") => return Err(format!("HARNESS: the search was not endless: {}", t)),
                    Frame::Text(_) => {}
                    _ => return Err("an endless search was given up".into()),
                }
                if rng.pct(10) {
                    ws.send(*rng.pick(&[1, 2, 9, 10]), true, b"more").map_err(io)?;
                }
            }
            match rng.below(3) {
                0 => {
                    let _ = ws.send(8, true, &[3, 232]);
                }
                1 => {
                    let _ = ws.s.shutdown(Shutdown::Both);
                }
                _ => {}
            }
            (1, 1, "ws_left_endless_search")
        }
        9 => {
            let mut s = connect().map_err(io)?;
            let n = rng.range(1, 400);
            let junk = match rng.below(4) {
                0 => bytes(rng, n),
                1 => b"GET /query/a HTTP/9.9\r\n\r\n".to_vec(),
                2 => b"POST /query HTTP/1.1\r\nHost: x\r\nContent-Length: 50\r\n\r\nabc".to_vec(),
                _ => b"GET /ws HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\n\r\n".to_vec(),
            };
            let _ = s.write_all(&junk);
            if rng.pct(50) {
                std::thread::sleep(Duration::from_millis(rng.below(50) as u64));
            }
            (0, 1, "http_garbage")
        }
        10 => {
            // Several messages; only the first one is a query
            if good.channel != Channel::Ws {
                ask(good)?;
                return Ok((1, 1, "answered"));
            }
            let mut ws = Ws::open()?;
            ws.text(&good.query, rng).map_err(io)?;
            let _ = ws.send(1, true, b"abc");
            let _ = ws.send(1, true, b"def(");
            let _ = ws.all();
            (1, 1, "ws_several_messages")
        }
        11 => {
            // Anything else which is posted is not a query
            let target = *rng.pick(&["/", "/queries", "/other", "/ws", "/metrics", "/wordlist/default", "/index.html"]);
            let r = http("POST", target, Some(b"#words 1;.*"))?;
            let body = String::from_utf8_lossy(&r.body).to_string();
            if r.status == 200 && body.contains("{\"match\":") {
                return Err(format!("POST {} is taken for a query: {}", target, clip(&body)));
            }
            (0, 0, "post_elsewhere")
        }
        12 => {
            // Exactly 64 kB
            let query = "#words 1;#limit 9;[^z]*";
            let mut long = format!("{} // ", query).into_bytes();
            long.resize(64 * 1024, b'x');
            let want = http("POST", "/query", Some(query.as_bytes()))?;
            let r = http("POST", "/query", Some(&long))?;
            if r.status != 200 || r.body != want.body {
                return Err(format!("a query of 64 kB is answered with status {}: {}", r.status, clip(&String::from_utf8_lossy(&r.body))));
            }
            (2, 2, "post_64k")
        }
        _ => {
            // GET gives up after 10 seconds
            let begin = Instant::now();
            let r = http_within("GET", &format!("/query/{}", encode(endless_query(rng).as_bytes(), rng)), None, 60)
                .map_err(|e| format!("a plain query must end after 10 seconds: {}", e))?;
            let body = String::from_utf8_lossy(&r.body).to_string();
            if r.status != 200 || !body.contains("Timeout") {
                return Err(format!("an endless query ended after {:?} with {}: {}", begin.elapsed(), r.status, clip(&body)));
            }
            if begin.elapsed() < Duration::from_secs(9) {
                return Err(format!("a plain query was given up after only {:?}", begin.elapsed()));
            }
            (1, 1, "get_timeout")
        }
    })
}

pub fn web_accounting(rng: &mut Rng, ctx: &mut Ctx) -> Res {
    let n = rng.range(2, 4);
    let cases = web_scenarios(rng, n);
    let all: Vec<&Case> = cases.iter().collect();
    let endless = endless_words(rng);
    let mut server = Server::start(rng, &[("default", union(&all)), ("endless", endless)])?;
    let start = (metric("noodle_queries_total")?, metric("noodle_queries_active")?);
    if start != (0, 0) {
        return Err(format!("queries at startup: {:?}", start));
    }
    let with_timeout = rng.pct(12);
    let mut plan: Vec<(usize, u64, Request)> = vec![];
    let visits = rng.range(12, 40);
    while plan.len() < visits {
        let mut query = web_query(rng, &cases);
        let channel = *rng.pick(&[Channel::Get, Channel::Post, Channel::Ws]);
        if channel != Channel::Get && rng.pct(4) {
            // A query of several kB
            query.push_str("\n#wordlist");
            for _ in 0..rng.range(100, if channel == Channel::Ws { 12_000 } else { 5_000 }) {
                query.push('\n');
                for _ in 0..rng.range(1, 9) {
                    query.push((b'a' + rng.below(26) as u8) as char);
                }
            }
        }
        let mut raw = query.clone().into_bytes();
        if channel != Channel::Ws && rng.pct(5) {
            let i = rng.below(raw.len() + 1);
            raw.insert(i, *rng.pick(&[0xff, 0x80, 0xc3, 0xe2, 0xf0]));
            query = String::from_utf8_lossy(&raw).to_string();
        }
        let limit = if channel == Channel::Get { Some(15) } else { None };
        if query.len() < 3 {
            continue;
        }
        if let Some(expected) = server.expect(&query, limit) {
            let kind = if rng.pct(40) { 0 } else { rng.below(13) };
            plan.push((kind, rng.next(), Request { raw: query.clone().into_bytes(), query, channel, expected, seed: rng.next() }));
        }
    }
    if with_timeout {
        for _ in 0..rng.range(1, 2) {
            let q = &plan[0].2;
            let r = Request { query: q.query.clone(), raw: q.raw.clone(), channel: q.channel, expected: Expected::Invalid(String::new()), seed: rng.next() };
            plan.insert(0, (GET_TIMEOUT, rng.next(), r));
        }
    }

    // Searches which are running for certain while all of that goes on
    let held = rng.range(0, 3);
    let mut open = vec![];
    for i in 0..held {
        let mut ws = Ws::open()?;
        ws.text(&endless_query(rng), rng).map_err(|e| format!("websocket: {}", e))?;
        let mut first = None;
        loop {
            match ws.next()? {
                Frame::Text(t) => {
                    first.get_or_insert(t.clone());
                    if t.contains("Processing") {
                        break;
                    }
                }
                _ => return Err("an endless search was given up".into()),
            }
        }
        let first = first.unwrap_or_default();
        if !first.contains(&format!("({} other", i)) {
            return Err(format!("with {} searches running, a new one is told {:?}", i, first));
        }
        open.push(ws);
    }
    let active = metric("noodle_queries_active")?;
    if active != held as i64 {
        return Err(format!("{} searches are running, but noodle_queries_active is {}", held, active));
    }

    let threads = rng.range(1, 8);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let done = std::sync::atomic::AtomicBool::new(false);
    let (results, watched): (Vec<Result<Tally, String>>, Result<usize, String>) = std::thread::scope(|s| {
        let handles: Vec<_> = (0..threads)
            .map(|_| {
                s.spawn(|| {
                    let mut t = Tally { certain: 0, possible: 0, kinds: vec![] };
                    while let Some((kind, seed, good)) = plan.get(next.fetch_add(1, std::sync::atomic::Ordering::Relaxed)) {
                        let (a, b, k) = visit(*kind, *seed, good)?;
                        t.certain += a;
                        t.possible += b;
                        t.kinds.push(k);
                    }
                    Ok(t)
                })
            })
            .collect();
        // The counters, meanwhile
        let watch = s.spawn(|| {
            let mut last = 0;
            let mut n = 0;
            while !done.load(std::sync::atomic::Ordering::Relaxed) {
                let total = metric("noodle_queries_total")?;
                let active = metric("noodle_queries_active")?;
                if total < last {
                    return Err(format!("noodle_queries_total went from {} to {}", last, total));
                }
                if active < held as i64 || active > (held + plan.len()) as i64 {
                    return Err(format!("{} searches are running and {} clients came by, but noodle_queries_active is {}", held, plan.len(), active));
                }
                last = total;
                n += 1;
                std::thread::sleep(Duration::from_millis(20));
            }
            Ok(n)
        });
        let r = handles.into_iter().map(|h| h.join().expect("HARNESS: client")).collect();
        done.store(true, std::sync::atomic::Ordering::Relaxed);
        (r, watch.join().expect("HARNESS: client"))
    });
    let (mut certain, mut possible) = (held as i64, held as i64);
    let mut kinds: Vec<&str> = vec![];
    for r in results {
        let t = r.or_else(|e| server.healthy().and(Err(e)))?;
        certain += t.certain;
        possible += t.possible;
        for k in t.kinds {
            ctx.add(k, 1);
            kinds.push(k);
        }
    }
    ctx.add("metrics_samples", watched.or_else(|e| server.healthy().and(Err(e)))?);

    // All of them have left: nothing keeps running
    drop(open);
    let begin = Instant::now();
    let mut active = metric("noodle_queries_active")?;
    while active != 0 && begin.elapsed() < Duration::from_secs(25) {
        std::thread::sleep(Duration::from_millis(20));
        active = metric("noodle_queries_active")?;
    }
    ctx.max("ms_until_idle", begin.elapsed().as_millis() as usize);
    if active != 0 {
        return Err(format!(
            "noodle_queries_active is still {} {} seconds after all clients left (they were {:?}, and {} endless searches)",
            active,
            begin.elapsed().as_secs(),
            kinds,
            held
        ));
    }
    let total = metric("noodle_queries_total")?;
    if total < certain || total > possible {
        return Err(format!("noodle_queries_total is {} after {}..={} queries ({:?}, and {} endless searches)", total, certain, possible, kinds, held));
    }
    // ...and the server still works
    for (_, _, r) in plan.iter().filter(|p| p.0 != GET_TIMEOUT).take(3) {
        ask(r).map_err(|e| format!("after all of that ({:?}): {}", kinds, e))?;
    }
    ctx.add("endless_searches_held", held);
    ctx.add("queries_counted", total as usize);
    ctx.add("sessions", 1);
    ctx.case(&format!("{} threads, {} endless searches, {:?}", threads, held, kinds), certain > 1);
    server.healthy()
}

/// C18: searches which do not end are given up in time, and not before: a GET after 10 seconds, the
/// others after 150, and the server tells so
pub fn web_timeouts(rng: &mut Rng, ctx: &mut Ctx) -> Res {
    let cases = web_scenarios(rng, 2);
    let all: Vec<&Case> = cases.iter().collect();
    let endless = endless_words(rng);
    let mut server = Server::start(rng, &[("default", union(&all)), ("endless", endless)])?;
    // What is late because of a busy machine is no error
    let on_time = |what: &str, took: Duration, seconds: u64| -> Result<(), String> {
        let want = Duration::from_secs(seconds);
        if took < want - Duration::from_secs(1) || took > want + Duration::from_secs(25) {
            return Err(format!("{} was given up after {:?} instead of {:?}", what, took, want));
        }
        Ok(())
    };
    // What else the query says makes no difference to that
    let first = match rng.below(3) {
        0 => endless_query(rng),
        1 => format!("// {}\n{}", "x".repeat(rng.below(3000)), endless_query(rng)),
        _ => format!("{};.*", endless_query(rng)),
    };
    let second = match rng.below(2) {
        0 => format!("#limit {};{}", rng.range(1, 20), endless_query(rng)),
        _ => format!("// {}\n#limit {}\n#quiet\n{}", "x".repeat(rng.below(3000)), rng.range(1, 1000), endless_query(rng)),
    };
    let queries = [first, second];
    // Results which keep coming
    let dense = format!("#dict endless;#limit 999999999;#words {};.{{,{}}}", rng.range(9, 30), rng.range(150, 250));
    let begin = Instant::now();
    let (get, post, ws) = std::thread::scope(|s| {
        let mut gets = vec![];
        for query in queries.iter().chain(std::iter::once(&dense)) {
            gets.push(s.spawn(|| -> Result<(), String> {
                let r = http_within("GET", &format!("/query/{}", encode(query.as_bytes(), &mut Rng::new(1))), None, 60).map_err(|e| format!("GET of a search which does not end: {}", e))?;
                let body = String::from_utf8_lossy(&r.body).to_string();
                on_time("GET", begin.elapsed(), 10)?;
                if r.status != 200 || !body.contains("Timeout") {
                    return Err(format!("GET of an endless search: status {}: {}", r.status, clip(&body)));
                }
                Ok(())
            }));
        }
        let mut posts = vec![];
        for query in &queries {
            posts.push(s.spawn(|| -> Result<(), String> {
                let r = http_within("POST", "/query", Some(query.as_bytes()), 200).map_err(|e| format!("POST of an endless search: {}", e))?;
                let body = String::from_utf8_lossy(&r.body).to_string();
                on_time("POST", begin.elapsed(), 150)?;
                if r.status != 200 || !body.contains("Timeout") {
                    return Err(format!("POST of an endless search: status {}: {}", r.status, clip(&body)));
                }
                Ok(())
            }));
        }
        let mut sockets = vec![];
        for query in &queries {
            sockets.push(s.spawn(|| -> Result<(usize, Duration), String> {
                let mut ws = Ws::open()?;
                ws.text(query, &mut Rng::new(2)).map_err(|e| format!("websocket: {}", e))?;
                let (mut messages, mut last, mut gap) = (0, Instant::now(), Duration::ZERO);
                let mut timeout = None;
                loop {
                    let f = ws.next()?;
                    gap = gap.max(last.elapsed());
                    last = Instant::now();
                    match f {
                        Frame::Text(t) => {
                            messages += 1;
                            if let Some(t) = &timeout {
                                return Err(format!("a message after {}", t));
                            }
                            if t.contains("Complete") {
                                return Err(format!("HARNESS: the search was not endless: {}", t));
                            }
                            if t.contains("Timeout") {
                                on_time("a websocket", begin.elapsed(), 150)?;
                                timeout = Some(t);
                            }
                        }
                        Frame::Close if timeout.is_some() => return Ok((messages, gap)),
                        f => return Err(format!("an endless search ended after {:?} with {}", begin.elapsed(), if matches!(f, Frame::Close) { "a close message" } else { "the connection" })),
                    }
                    if begin.elapsed() > Duration::from_secs(200) {
                        return Err("an endless search was not given up within 200 s".into());
                    }
                }
            }));
        }
        // How many are running
        let mut seen = vec![];
        for (at, want) in [(5, 7), (50, 4), (100, 4)] {
            while begin.elapsed() < Duration::from_secs(at) {
                std::thread::sleep(Duration::from_millis(100));
            }
            seen.push((at, want, metric("noodle_queries_active")));
        }
        let all = |clients: Vec<std::thread::ScopedJoinHandle<'_, Result<(), String>>>| clients.into_iter().map(|c| c.join().expect("HARNESS: client")).fold(Ok(()), |r, c| r.and(c));
        // The fewest messages, and the longest silence
        let told = sockets.into_iter().map(|c| c.join().expect("HARNESS: client")).fold(Ok((usize::MAX, Duration::ZERO)), |r, c| {
            let (r, c) = (r?, c?);
            Ok((r.0.min(c.0), r.1.max(c.1)))
        });
        let r = (all(gets), all(posts), told);
        (r.0.and(r.1.clone()).and_then(|_| {
            for (at, want, got) in seen {
                let got = got?;
                if got != want {
                    return Err(format!("{} searches are running after {} s, but noodle_queries_active is {}", want, at, got));
                }
            }
            Ok(())
        }), r.1, r.2)
    });
    let all = get.and(post).and(ws);
    let (messages, gap) = all.or_else(|e| server.healthy().and(Err(e)))?;
    // The page shows the progress: it is told about it all the time
    if gap > Duration::from_secs(10) || messages < 150 {
        return Err(format!("an endless search sent {} messages in 150 s, and none for {:?}", messages, gap));
    }
    let end = Instant::now();
    let mut active = metric("noodle_queries_active")?;
    while active != 0 && end.elapsed() < Duration::from_secs(20) {
        std::thread::sleep(Duration::from_millis(20));
        active = metric("noodle_queries_active")?;
    }
    if active != 0 {
        return Err(format!("noodle_queries_active is {} after all searches were given up", active));
    }
    ctx.add("searches_given_up", 7);
    ctx.add("progress_messages", messages);
    ctx.max("longest_silence_ms", gap.as_millis() as usize);
    ctx.case(&format!("given up: {:?}", queries), true);
    server.healthy()
}

// --- C19: the command line

pub fn command_line(rng: &mut Rng, ctx: &mut Ctx) -> Res {
    let cfg = Cfg {
        profile: if rng.pct(50) { MIXED } else { REGEX },
        exprs: (1, 2),
        depth: &[1, 1, 2, 3],
        punct_words: 15,
        large: 2,
        node_cap: 5_000,
        ..BASE
    };
    let c = scenario(rng, &cfg, None);
    let dir = Scratch::new(rng);
    let ext = *rng.pick(&["", ".txt", ".zst"]);
    write_list(&dir.0, "words", ext, &c.scen.words);
    let file = dir.0.join(format!("words{}", ext));
    let words = load_wordlist(&file).map_err(|_| "a valid file was refused".to_string())?;
    let mut query = match rng.below(10) {
        0 => hostile(rng),
        _ => c.scen.query.clone(),
    };
    query.retain(|ch| ch != '\0');
    let mut pragma_words = None;
    let mut pragma_limit = None;
    if rng.pct(30) {
        pragma_words = Some(rng.range(1, 3));
        query = format!("#words {}\n{}", pragma_words.unwrap(), query);
    }
    if rng.pct(30) {
        pragma_limit = Some(rng.below(8));
        query = format!("{};#limit {}", query, pragma_limit.unwrap());
    }
    let flag_words = if rng.pct(if pragma_words.is_some() { 40 } else { 90 }) { Some(c.scen.depth) } else { None };
    let flag_count = if rng.pct(40) { Some(*rng.pick(&[0, 1, 2, 5, 100, 1000])) } else { None };

    let mut cmd = Command::new(program("noodle"));
    cmd.current_dir(&dir.0).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let long = rng.pct(50);
    let mut args: Vec<Vec<String>> = vec![];
    let flag = |short: &str, name: &str, value: String| -> Vec<String> {
        if long {
            vec![format!("--{}={}", name, value)]
        } else {
            vec![short.to_string(), value]
        }
    };
    let missing = rng.pct(4);
    let shown = if missing { dir.0.join("nothing") } else { file.clone() };
    args.push(flag("-i", "input", shown.to_string_lossy().to_string()));
    if let Some(n) = flag_words {
        args.push(flag("-m", "phrase-length", n.to_string()));
    }
    if let Some(n) = flag_count {
        args.push(flag("-n", "count", n.to_string()));
    }
    rng.shuffle(&mut args);
    let args: Vec<String> = args.into_iter().flatten().collect();

    // What it should be
    let invalid = error_line(&query).unwrap();
    let mut want = vec![];
    if invalid.is_none() && !missing {
        let ast = parse(&query)?;
        let mut ev = QueryEvaluator::from_ast(&ast, &words);
        if let Some(d) = flag_words.or(ast.options.max_words) {
            ev.set_search_depth_limit(d);
        }
        ev.set_results_limit(flag_count.or(ast.options.results_limit));
        let deadline = Instant::now() + Duration::from_secs(2);
        loop {
            match ev.next_within_deadline(Some(deadline)) {
                QueryResponse::Match(p) => want.push(plain(&p)),
                QueryResponse::Timeout => {
                    ctx.add("left_out_long_searches", 1);
                    return Ok(());
                }
                QueryResponse::Logs(_) => {}
                QueryResponse::Complete(_) => break,
            }
            if want.len() > 20_000 {
                ctx.add("left_out_long_searches", 1);
                return Ok(());
            }
        }
    }
    let out = cmd
        .args(&args)
        .arg("--")
        .arg(&query)
        .output()
        .map_err(|e| format!("HARNESS: noodle: {}", e))?;
    let stdout = String::from_utf8_lossy(&out.stdout).to_string();
    let fail = |m: String| {
        Err(format!("noodle {:?} {:?}: {}; words {:?}", args, query, m, words.iter().map(|w| w.text.as_ref()).collect::<Vec<_>>()))
    };
    let got: Vec<&str> = stdout.lines().filter(|l| !l.starts_with("Loaded ") && !l.to_ascii_lowercase().starts_with("warning: ")).collect();
    if missing || invalid.is_some() {
        if out.status.success() {
            return fail(format!("{}, but it succeeds", if missing { "the file is missing" } else { "the query is invalid" }));
        }
        if !got.is_empty() {
            return fail(format!("results of an invalid query: {:?}", got));
        }
        if out.stderr.is_empty() {
            return fail("an error is not reported".into());
        }
        ctx.add("refused", 1);
        ctx.case(&format!("{:?} {:?}", args, query), false);
        return Ok(());
    }
    if !out.status.success() {
        return fail(format!("{}: {}", out.status, String::from_utf8_lossy(&out.stderr)));
    }
    let want: Vec<&str> = want.iter().map(|s| s.as_str()).collect();
    if got != want {
        return fail(first_difference(&got, &want));
    }
    ctx.add("results_compared", want.len());
    ctx.add("with_pragmas", (pragma_words.is_some() || pragma_limit.is_some()) as usize);
    ctx.case(&format!("{:?} {:?}", args, query), !want.is_empty());
    Ok(())
}

//! C01, C02: the wire reader and writer against an independent reference.
use crate::vx::{js, Ctx, Rng};
use serde_json::{json, Value};
use std::io::{self, BufRead, Read};
use sync_ls::{dap, lsp, Message};

/// a stream handing out its bytes in chunks of given sizes, with interrupted reads in between
struct Chunks<'a> {
    data: &'a [u8],
    at: usize,
    sizes: Vec<usize>,
    k: usize,
    cur: usize,
    intr: bool,
}
impl<'a> Chunks<'a> {
    fn new(data: &'a [u8], sizes: Vec<usize>, intr: bool) -> Self {
        Chunks { data, at: 0, sizes, k: 0, cur: 0, intr }
    }
}
impl Read for Chunks<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = {
            let b = self.fill_buf()?;
            let n = b.len().min(buf.len());
            buf[..n].copy_from_slice(&b[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Chunks<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.cur == 0 {
            self.k += 1;
            if self.intr && self.k % 5 == 0 {
                return Err(io::ErrorKind::Interrupted.into());
            }
            self.cur = self.sizes[self.k % self.sizes.len()].min(self.data.len() - self.at);
        }
        Ok(&self.data[self.at..self.at + self.cur])
    }
    fn consume(&mut self, n: usize) {
        assert!(n <= self.cur, "consumed more than was shown");
        self.at += n;
        self.cur -= n;
    }
}

fn sizes(r: &mut Rng) -> Vec<usize> {
    match r.below(4) {
        0 => vec![1],
        1 => vec![1 << 20],
        _ => (0..7).map(|_| r.range(1, 40)).collect(),
    }
}

const TEXTS: &[&str] = &["", "a", "ü", "héllo wörld", "日本語", "𝔘𝔫𝔦", "\u{2028}", "line\nfeed\r\n", "Content-Length: 3\r\n\r\n{}", "\"quo\\te\"", "\u{0}\u{1f}", "👩‍👩‍👧", "\u{feff}bom", "\u{10ffff}"];
fn text(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(4) {
        s.push_str(*r.pick(TEXTS));
    }
    if r.chance(1, 12) {
        s.push_str(&"é".repeat(r.range(1, 3000)));
    }
    s
}
fn value(r: &mut Rng, d: usize) -> Value {
    match r.below(if d == 0 { 5 } else { 7 }) {
        0 => json!(text(r)),
        1 => json!(r.next() as i64),
        2 => json!(r.next()),
        3 => json!(r.chance(1, 2)),
        4 => json!(r.below(1000)),
        5 => Value::Array((0..r.below(4)).map(|_| value(r, d - 1)).collect()),
        _ => Value::Object((0..r.below(4)).map(|_| (text(r), value(r, d - 1))).collect()),
    }
}
fn lsp_id(r: &mut Rng) -> sync_ls::RequestId {
    if r.chance(1, 2) { (r.next() as i32).into() } else { text(r).into() }
}
pub fn message(r: &mut Rng, kind: bool) -> Message {
    if kind {
        match r.below(4) {
            0 => Message::Lsp(lsp::Request::new(lsp_id(r), text(r), value(r, 3)).into()),
            1 => Message::Lsp(lsp::Notification::new(text(r), value(r, 3)).into()),
            2 => Message::Lsp(lsp::Response::new_ok(lsp_id(r), value(r, 3)).into()),
            _ => Message::Lsp(lsp::Response::new_err(lsp_id(r), r.next() as i32, text(r)).into()),
        }
    } else {
        let seq = if r.chance(1, 2) { r.next() as i64 } else { r.below(1000) as i64 };
        match r.below(3) {
            0 => Message::Dap(dap::Request { seq, command: text(r), arguments: value(r, 3) }.into()),
            1 => Message::Dap(dap::Event { seq, event: text(r), body: value(r, 3) }.into()),
            _ => Message::Dap(if r.chance(1, 2) { dap::Response::success(seq, value(r, 3)) } else { dap::Response::error(seq, Some(text(r)), None) }.into()),
        }
    }
}

#[derive(Debug, PartialEq)]
enum Want {
    Closed,
    Bad,
    Frame(Vec<u8>, usize),
}
/// the reference: what the next frame of a byte stream is, and where it ends
fn reference(s: &[u8]) -> Want {
    let mut at = 0;
    let mut size: Option<u64> = None;
    loop {
        let line: Vec<u8> = match s[at..].iter().position(|b| *b == b'\n') {
            Some(i) => s[at..at + i + 1].to_vec(),
            None => s[at..].to_vec(),
        };
        at += line.len();
        if line.is_empty() {
            return Want::Closed;
        }
        let Ok(line) = String::from_utf8(line) else { return Want::Bad };
        let b: Vec<char> = line.chars().collect();
        if b.len() < 2 || b[b.len() - 1] != '\n' || b[b.len() - 2] != '\r' {
            return Want::Bad;
        }
        let b = &b[..b.len() - 2];
        if b.is_empty() {
            break;
        }
        let Some(i) = (0..b.len()).find(|i| b[*i] == ':' && b.get(i + 1) == Some(&' ')) else { return Want::Bad };
        let name: String = b[..i].iter().map(|c| if ('A'..='Z').contains(c) { ((*c as u8) + 32) as char } else { *c }).collect();
        if name == "content-length" {
            let v = &b[i + 2..];
            let d = if v.first() == Some(&'+') { &v[1..] } else { v };
            if d.is_empty() || !d.iter().all(|c| ('0'..='9').contains(c)) {
                return Want::Bad;
            }
            let mut n: u128 = 0;
            for c in d {
                n = n * 10 + (*c as u8 - b'0') as u128;
                if n > u64::MAX as u128 {
                    return Want::Bad;
                }
            }
            size = Some(n as u64);
        }
    }
    let Some(n) = size else { return Want::Bad };
    if n > (s.len() - at) as u64 {
        return Want::Bad;
    }
    let body = &s[at..at + n as usize];
    if std::str::from_utf8(body).is_err() {
        return Want::Bad;
    }
    Want::Frame(body.to_vec(), at + n as usize)
}

fn read(kind: bool, c: &mut Chunks) -> io::Result<Option<Message>> {
    if kind { Message::read_lsp(c) } else { Message::read_dap(c) }
}
fn show(b: &[u8]) -> String {
    let s = b.escape_ascii().to_string();
    if s.len() > 1500 { format!("{}…({} bytes)", &s[..1500], b.len()) } else { s }
}
/// a pipe that takes a few bytes at a time, is interrupted now and then and shows the reader only what was flushed
struct Pipe {
    out: Vec<u8>,
    held: Vec<u8>,
    step: usize,
    intr: bool,
    k: usize,
    left: usize,
}
impl io::Write for Pipe {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.k += 1;
        if self.intr && self.k % 3 == 1 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.left == 0 && !b.is_empty() {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        let n = b.len().min(self.step).min(self.left);
        self.left -= n;
        self.held.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.out.append(&mut self.held);
        Ok(())
    }
}
impl Pipe {
    fn new(step: usize, intr: bool, left: usize) -> Self {
        Pipe { out: vec![], held: vec![], step, intr, k: 0, left }
    }
}
pub fn written(m: Message) -> Vec<u8> {
    let mut p = Pipe::new(usize::MAX, false, usize::MAX);
    m.write(&mut p).unwrap();
    p.out
}
/// the JSON value a frame carries
fn payload(frame: &[u8]) -> Option<Value> {
    match reference(frame) {
        Want::Frame(b, end) if end == frame.len() => serde_json::from_slice(&b).ok(),
        _ => None,
    }
}

pub fn run(cx: &mut Ctx) {
    if cx.prop == "C01" { round_trip(cx) } else { malformed(cx) }
}

fn round_trip(cx: &mut Ctx) {
    cx.rule = "a case is a sequence of 0..6 random messages written and read back; distinct by wire bytes".into();
    let mut n = 0;
    while cx.more(n, 15_000, 400_000) {
        n += 1;
        let mut r = Rng(cx.rng.next());
        let kind = r.chance(1, 2);
        let count = r.below(6);
        let mut wire = vec![];
        let mut frames = vec![];
        let what = format!("write and read back {} messages, case seed {}", count, r.0);
        cx.case(&what);
        let (step, intr) = (*r.pick(&[1, 3, 7, 64, 4096, usize::MAX]), r.chance(1, 3));
        for _ in 0..count {
            let m = message(&mut r, kind);
            let dbg = format!("{m:?}");
            let res = cx.guard("writing a message", &dbg, || {
                let mut p = Pipe::new(step, intr, usize::MAX);
                let res = m.write(&mut p).map_err(|e| e.to_string());
                (p.out, res)
            });
            let Some((f, res)) = res else { return };
            if let Err(e) = res {
                return cx.fail(&format!("a message written to a pipe that takes {step} bytes at a time"), &dbg, "written", &e);
            }
            // exactly one header, then exactly the payload
            let Some(e) = f.windows(4).position(|w| w == b"\r\n\r\n") else {
                return cx.fail("a message on the wire", &dbg, "header block and payload", &show(&f));
            };
            let body = &f[e + 4..];
            let head = format!("Content-Length: {}\r\n\r\n", body.len());
            if f[..e + 4] != *head.as_bytes() || serde_json::from_slice::<Value>(body).map(|v| !v.is_object()).unwrap_or(true) {
                return cx.fail("a message on the wire", &dbg, &format!("{head:?} then one JSON object"), &show(&f));
            }
            wire.extend_from_slice(&f);
            frames.push(f);
        }
        let rintr = r.chance(1, 3);
        let sz = sizes(&mut r);
        let mut c = Chunks::new(&wire, sz, rintr);
        for (i, f) in frames.iter().enumerate() {
            let got = loop {
                match cx.guard("reading a message", &show(&wire), || read(kind, &mut c)) {
                    None => return,
                    Some(g) => break g,
                }
            };
            match got {
                Ok(Some(m)) => {
                    let back = if r.chance(1, 4) {
                        // the other end goes away in the middle
                        let cut = r.below(f.len());
                        let Ok(Some(again)) = read(kind, &mut Chunks::new(f, sizes(&mut r), false)) else { return cx.fail("a message read a second time", &show(f), "the message", "something else") };
                        let res = cx.guard("writing a message to a pipe that breaks", &show(f), || again.write(&mut Pipe::new(step, intr, cut)).is_err());
                        match res {
                            None => return,
                            Some(false) => return cx.fail(&format!("a message written to a pipe that breaks after {cut} bytes"), &show(f), "an error", "reported as written"),
                            _ => {}
                        }
                        written(m)
                    } else {
                        written(m)
                    };
                    if payload(&back) != payload(f) || payload(f).is_none() {
                        return cx.fail(&format!("message {i} read back"), &show(&wire), &show(f), &show(&back));
                    }
                }
                other => return cx.fail(&format!("message {i} read back"), &show(&wire), "the message", &format!("{other:?}")),
            }
        }
        match read(kind, &mut c) {
            Ok(None) => {}
            other => return cx.fail("the end of the stream", &show(&wire), "a clean end", &format!("{other:?}")),
        }
        cx.eval(&if count == 0 { String::new() } else { show(&wire) });
        cx.done();
    }
}

fn malformed(cx: &mut Ctx) {
    cx.rule = "a case is a random byte stream (valid, mutated or adversarial frames) read to its first error; distinct by bytes".into();
    let mut n = 0;
    while cx.more(n, 40_000, 1_000_000) {
        n += 1;
        let mut r = Rng(cx.rng.next());
        let kind = r.chance(1, 2);
        let mut s: Vec<u8> = vec![];
        for _ in 0..r.range(1, 3) {
            piece(&mut r, kind, &mut s);
        }
        if r.chance(1, 3) {
            let k = r.below(s.len() + 1);
            s.truncate(k);
        }
        for _ in 0..r.below(3) {
            if s.is_empty() || r.chance(1, 2) {
                continue;
            }
            let i = r.below(s.len());
            match r.below(4) {
                0 => s[i] = r.next() as u8,
                1 => {
                    s.remove(i);
                }
                2 => s.insert(i, *r.pick(b"\r\n: 0\xff\xc3")),
                _ => s[i] ^= 0x20,
            }
        }
        let id = show(&s);
        cx.risky(&format!("{} stream {}", if kind { "LSP" } else { "DAP" }, id));
        let sz = sizes(&mut r);
        let mut c = Chunks::new(&s, sz, false);
        let mut at = 0;
        for _ in 0..8 {
            let want = reference(&s[at..]);
            let Some(got) = cx.guard("reading a message", &id, || read(kind, &mut c)) else { return };
            match (&want, &got) {
                (Want::Closed, Ok(None)) => break,
                (Want::Bad, Err(_)) => break,
                (Want::Frame(body, end), g) => {
                    let ok = if kind { serde_json::from_slice::<lsp::Message>(body).is_ok() } else { serde_json::from_slice::<dap::Message>(body).is_ok() };
                    match g {
                        Err(_) if !ok => break,
                        Ok(Some(_)) if ok => {
                            at += end;
                            if c.at != at {
                                return cx.fail("bytes consumed for a message", &id, &at.to_string(), &c.at.to_string());
                            }
                        }
                        g => return cx.fail("a frame", &id, &format!("{want:?}, a message: {ok}"), &format!("{g:?}")),
                    }
                }
                _ => return cx.fail("reading a stream", &id, &format!("{want:?}"), &format!("{got:?}")),
            }
        }
        cx.eval(&id);
        cx.done();
    }
    let _ = js;
}

fn piece(r: &mut Rng, kind: bool, s: &mut Vec<u8>) {
    let body: Vec<u8> = match r.below(8) {
        0 => b"{}".to_vec(),
        1 => text(r).into_bytes(),
        2 => (0..r.below(6)).map(|_| r.next() as u8).collect(),
        3 => b"[1,2]".to_vec(),
        _ => {
            let f = written(message(r, kind));
            match reference(&f) {
                Want::Frame(b, _) => b,
                _ => vec![],
            }
        }
    };
    let heads = r.below(4);
    let name = *r.pick(&["Content-Length", "content-length", "CONTENT-LENGTH", "Content-Length", "Content-LengtH"]);
    let mut lines: Vec<Vec<u8>> = vec![format!("{name}: {}", body.len()).into_bytes()];
    for _ in 0..heads {
        let l: Vec<u8> = match r.below(18) {
            16 => {
                // a length with one odd character around or in it
                let mut d = body.len().to_string().into_bytes();
                let c = 0x20 + r.below(0x5f) as u8;
                let i = r.below(d.len() + 1);
                d.insert(i, c);
                [b"Content-Length: ".to_vec(), d].concat()
            }
            17 => [b"Content-Length: ".to_vec(), body.len().to_string().into_bytes(), vec![r.next() as u8 & 0x7f]].concat(),
            0 => b"Content-Type: application/vscode-jsonrpc; charset=utf-8".to_vec(),
            1 => b"X: y: z".to_vec(),
            2 => b"X:y".to_vec(),
            3 => b": ".to_vec(),
            4 => format!("Content-Length: {}", r.pick(&[u64::MAX, 1 << 63, (1 << 63) - 1, 1 << 40, 1 << 33, 1_000_000_007])).into_bytes(),
            5 => format!("Content-Length: {}", r.below(10)).into_bytes(),
            6 => b"Content-Length: -1".to_vec(),
            7 => b"Content-Length: ".to_vec(),
            8 => format!("Content-Length: +{}", body.len()).into_bytes(),
            9 => format!("Content-Length:  {}", body.len()).into_bytes(),
            10 => b"Content-Length: 18446744073709551616".to_vec(),
            11 => format!("Content-Length: 000{}", body.len()).into_bytes(),
            12 => "Ünïcode: ü".as_bytes().to_vec(),
            13 => b"\xff: x".to_vec(),
            14 => format!(" Content-Length: {}", r.below(10)).into_bytes(),
            _ => b"Content-Length-X: 5".to_vec(),
        };
        let i = r.below(lines.len() + 1);
        lines.insert(i, l);
    }
    if r.chance(1, 10) {
        lines.remove(r.below(lines.len()));
    }
    for l in lines {
        s.extend_from_slice(&l);
        s.extend_from_slice(if r.chance(1, 25) { b"\n" } else if r.chance(1, 40) { b"\r" } else { b"\r\n" });
    }
    s.extend_from_slice(b"\r\n");
    s.extend_from_slice(&body);
}

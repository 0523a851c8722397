//! The stdio threads: what the reader thread hands on, what the writer thread puts out (C01, C02, C04).
use crate::frames::{message, written};
use crate::vx::*;
use serde_json::{json, Value};
use std::io::{self, BufReader, Cursor, Write};
use std::sync::{Arc, Mutex};
use sync_ls::{lsp, transport::io_transport, Message, MessageKind};

fn shown(m: &Message) -> String {
    match m {
        Message::Lsp(m) => serde_json::to_string(m).unwrap(),
        Message::Dap(m) => serde_json::to_string(m).unwrap(),
    }
}
/// an output that takes `cap` bytes in pieces and then fails
#[derive(Clone)]
struct Out(Arc<Mutex<Vec<u8>>>, usize, usize);
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut g = self.0.lock().unwrap();
        let n = b.len().min(self.1).min(self.2 - g.len());
        if n == 0 && !b.is_empty() {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        g.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
const NEAR: [&str; 9] = ["$/exit", "exitX", "Exit", "textDocument/exit", "exit ", "", "shutdown", "window/exit", "ex"];

pub fn run(cx: &mut Ctx) {
    cx.rule += "; the stdio threads over random messages, near-exit names, malformed tails and failing outputs";
    let mut n = 0;
    while cx.more(n, 400, 20_000) {
        n += 1;
        let mut r = Rng(cx.rng.next());
        one(cx, &mut r);
    }
}
fn one(cx: &mut Ctx, r: &mut Rng) {
    let is_lsp = r.chance(2, 3);
    let kind = if is_lsp { MessageKind::Lsp } else { MessageKind::Dap };
    // input
    let mut bytes = vec![];
    let mut want: Vec<String> = vec![];
    let mut stopped = false;
    let mut msgs: Vec<Message> = (0..r.below(7)).map(|_| message(r, is_lsp)).collect();
    for m in &mut msgs {
        if is_lsp && r.chance(1, 3) {
            let name = if cx.prop == "C04" && r.chance(1, 3) { "exit" } else { *r.pick(&NEAR) };
            let p = r.pick(&[Value::Null, json!({}), json!([1])]).clone();
            *m = if r.chance(1, 5) {
                lsp::Request::new(3.into(), "exit".into(), p).into()
            } else {
                lsp::Notification::new(name.into(), p).into()
            };
        }
    }
    for m in msgs {
        let s = shown(&m);
        let exit = matches!(&m, Message::Lsp(lsp::Message::Notification(n)) if n.method == "exit");
        bytes.extend(written(m));
        if !stopped {
            // what is read back is judged as text: a null result reads as an absent one
            want.push(s.replace(",\"result\":null", ""));
            stopped = exit;
        }
    }
    let tail: &[u8] = if cx.prop == "C02" || r.chance(1, 4) {
        *r.pick(&[&b""[..], b"Content-Length: 5\r\n\r\n{}", b"\r\n", b"Content-Length: 2\r\n\r\n{}", b"Content-Length: 5", b"Content-Length: x\r\n\r\n", b"Content-Length: 2\r\n\r\n\xff\xfe", b"Content-Length: 2\n\n{}"])
    } else {
        b""
    };
    // all of these but the empty one are errors
    let bad = !stopped && !tail.is_empty();
    bytes.extend_from_slice(tail);
    let cap = r.range(1, 64);
    let show = format!("{} input {:?} in pieces of {cap}", if is_lsp { "LSP" } else { "DAP" }, String::from_utf8_lossy(&bytes));
    // output
    let outs: Vec<Message> = (0..r.below(5)).map(|_| message(r, is_lsp)).collect();
    let limit = if r.chance(1, 4) { r.below(200) } else { usize::MAX };
    let full: Vec<u8> = outs.iter().flat_map(|m| written(match m {
        Message::Lsp(m) => Message::Lsp(m.clone()),
        Message::Dap(m) => Message::Dap(m.clone()),
    })).collect();
    let sink = Out(Default::default(), r.range(1, 50), limit);
    let sink2 = sink.clone();
    cx.case(&show);
    let got = cx.guard("stdio threads", &show, move || {
        let (tx, rx, threads) = io_transport(kind, move || BufReader::with_capacity(cap, Cursor::new(bytes)), move || sink2);
        let mut got = vec![];
        for m in outs {
            if tx.send(m).is_err() {
                break;
            }
        }
        drop(tx);
        while let Ok(m) = rx.recv() {
            got.push(shown(&m));
        }
        let j = threads.join().map_err(|e| e.kind());
        (got, j)
    });
    cx.done();
    let Some((got, joined)) = got else { return };
    if got != want {
        // behind or at an exit notification: the session's business, otherwise the wire's
        let props: &[&str] = if got.len() != want.len() { &["C01", "C04", "C40"] } else { &["C01", "C40"] };
        return blame(cx, props, "messages the reader thread hands on", &show, &format!("{want:?}"), &format!("{got:?}"));
    }
    let out = sink.0.lock().unwrap().clone();
    let cut = full.len() > limit;
    // a reader that failed is reported at once: the writer may still be at work
    if !bad && out != full[..full.len().min(limit)] {
        return blame(cx, &["C01", "C40"], "what the writer thread puts out", &show, &format!("{:?}", String::from_utf8_lossy(&full)), &format!("{:?} (fails after {limit})", String::from_utf8_lossy(&out)));
    }
    let exp = if bad { "an error of the input" } else if cut { "BrokenPipe" } else { "Ok" };
    let ok = match joined {
        Ok(()) => exp == "Ok",
        Err(k) => if bad { k != io::ErrorKind::BrokenPipe } else { cut && k == io::ErrorKind::BrokenPipe },
    };
    if !ok {
        return blame(cx, if bad { &["C02", "C40"] } else { &["C01", "C02", "C40"] }, "how the stdio threads end", &show, exp, &format!("{joined:?}"));
    }
    cx.eval(&show);
}
fn blame(cx: &mut Ctx, props: &[&str], what: &str, input: &str, expected: &str, got: &str) {
    if props.contains(&cx.prop.as_str()) {
        cx.fail(what, input, expected, got)
    }
}

/// an output that is slow, and may fail after some bytes
#[derive(Clone)]
struct Slow(Arc<Mutex<Vec<u8>>>, u64, usize, Option<bool>);
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.1 > 0 {
            std::thread::sleep(std::time::Duration::from_micros(self.1));
        }
        let mut g = self.0.lock().unwrap();
        let n = b.len().min(if self.3 == Some(true) { usize::MAX } else { self.2 - g.len() });
        if n == 0 && !b.is_empty() {
            // some outputs fail once only
            self.3 = self.3.map(|_| true);
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        g.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn copy(m: &Message) -> Message {
    match m {
        Message::Lsp(m) => Message::Lsp(m.clone()),
        Message::Dap(m) => Message::Dap(m.clone()),
    }
}

/// C40: a server that answers while it reads, over slow outputs, and whole sessions over real pipes
pub fn threads(cx: &mut Ctx) {
    cx.rule = "a case is one run of the io threads: messages that come in while others are sent from two threads, over slow and failing outputs, finished by join or join_write; and sessions of a child process over pipes that are read late".into();
    run(cx);
    let mut n = 0;
    while cx.more(n, 300, 6000) {
        n += 1;
        let mut r = Rng(cx.rng.next());
        both_ways(cx, &mut r);
    }
    n = 0;
    while cx.more(n, 60, 600) {
        n += 1;
        let mut r = Rng(cx.rng.next());
        session(cx, &mut r);
    }
}
fn both_ways(cx: &mut Ctx, r: &mut Rng) {
    let is_lsp = r.chance(2, 3);
    let kind = if is_lsp { MessageKind::Lsp } else { MessageKind::Dap };
    let mut bytes = vec![];
    let mut want = vec![];
    let mut stopped = false;
    let total = r.range(1, 12);
    for i in 0..total {
        let m = if is_lsp && r.chance(1, 12) { lsp::Notification::new("exit".into(), json!({"i": i})).into() } else { message(r, is_lsp) };
        if !stopped {
            want.push(shown(&m).replace(",\"result\":null", ""));
            stopped = matches!(&m, Message::Lsp(lsp::Message::Notification(n)) if n.method == "exit");
        }
        bytes.extend(written(m));
    }
    let cut = if !stopped && r.chance(1, 4) {
        bytes.extend_from_slice(b"Content-Length: 7\r\n\r\n{");
        true
    } else {
        false
    };
    let mine: Vec<Message> = (0..r.below(6)).map(|_| message(r, is_lsp)).collect();
    let answers: Vec<Message> = want.iter().map(|_| message(r, is_lsp)).collect();
    let late: Vec<Message> = (0..r.below(4)).map(|_| message(r, is_lsp)).collect();
    let limit = if r.chance(1, 5) { r.below(300) } else { usize::MAX };
    let out = Slow(Default::default(), if r.chance(1, 3) { r.below(300) as u64 } else { 0 }, limit, if r.chance(1, 2) { Some(false) } else { None });
    let pause = if r.chance(1, 30) { r.below(180) as u64 } else { 0 };
    let (sink, cap, only_write) = (out.clone(), r.range(1, 80), r.chance(1, 2));
    let show = format!("{} input {:?}, {} messages sent from aside, {} answers, {} late, output fails after {limit}, finished by {}", if is_lsp { "LSP" } else { "DAP" }, String::from_utf8_lossy(&bytes), mine.len(), answers.len(), late.len(), if only_write { "join_write" } else { "join" });
    cx.case(&show);
    let (a, b) = (mine.iter().map(copy).collect::<Vec<_>>(), answers.iter().map(copy).collect::<Vec<_>>());
    let c = late.iter().map(copy).collect::<Vec<_>>();
    let n_all = a.len() + b.len() + c.len();
    let got = cx.guard("the io threads", &show, move || {
        let (tx, rx, threads) = io_transport(kind, move || BufReader::with_capacity(cap, Cursor::new(bytes)), move || sink);
        let tx2 = tx.clone();
        let aside = std::thread::spawn(move || a.into_iter().take_while(|m| tx2.send(copy(m)).is_ok()).count());
        let mut got = vec![];
        let mut sent = 0;
        let mut b = b.into_iter();
        loop {
            // a server that is busy now and then
            if pause > 0 && got.len() % 3 == 1 {
                std::thread::sleep(std::time::Duration::from_millis(pause));
            }
            let Ok(m) = rx.recv() else { break };
            got.push(shown(&m));
            if let Some(m) = b.next() {
                sent += tx.send(m).is_ok() as usize;
            }
        }
        // the input is over: what is sent now has to come out all the same
        for m in b.chain(c) {
            sent += tx.send(m).is_ok() as usize;
        }
        drop(tx);
        sent += aside.join().unwrap();
        let j = if only_write { threads.join_write() } else { threads.join() };
        (got, sent, j.map_err(|e| e.kind()))
    });
    let at_join = out.0.lock().unwrap().clone();
    cx.done();
    let Some((got, sent, joined)) = got else { return };
    if got != want {
        return cx.fail("the messages handed to the server", &show, &format!("{want:?}"), &format!("{got:?}"));
    }
    // what came out: frames of what was sent, the two senders interleaved
    let frames: Vec<(Vec<u8>, bool)> = mine.iter().map(|m| (written(copy(m)), true)).chain(answers.iter().chain(&late).map(|m| (written(copy(m)), false))).collect();
    let full: usize = frames.iter().map(|f| f.0.len()).sum();
    let failing = full > limit;
    if failing {
        if at_join.len() > limit || (!cut && joined != Err(io::ErrorKind::BrokenPipe)) {
            return cx.fail("a failing output", &show, "its error", &format!("{joined:?}"));
        }
    } else {
        if sent != n_all {
            return cx.fail("the messages taken from the server", &show, &n_all.to_string(), &sent.to_string());
        }
        // a reader that failed is reported at once by join: the writer may still be at work
        if !(cut && !only_write) {
            let (mut x, mut y): (Vec<&[u8]>, Vec<&[u8]>) = (vec![], vec![]);
            for (f, m) in &frames {
                if *m { x.push(f) } else { y.push(f) }
            }
            if !interleaved(&at_join, &x, &y) {
                return cx.fail("the output when the transport has finished", &show, &format!("an interleaving of {} and {} messages", x.len(), y.len()), &String::from_utf8_lossy(&at_join));
            }
        }
        let ok = if cut && !only_write { joined.is_err() } else { joined.is_ok() };
        if !ok {
            return cx.fail("how the io threads end", &show, if cut { "an error of the input" } else { "Ok" }, &format!("{joined:?}"));
        }
    }
    cx.eval(&show);
}
/// is `s` made of `x` and `y`, each in its order?
fn interleaved(s: &[u8], x: &[&[u8]], y: &[&[u8]]) -> bool {
    let mut at = std::collections::BTreeSet::from([(0usize, 0usize)]);
    let mut end = false;
    while let Some((i, j)) = at.pop_first() {
        let n: usize = x[..i].iter().map(|f| f.len()).sum::<usize>() + y[..j].iter().map(|f| f.len()).sum::<usize>();
        if n == s.len() && i == x.len() && j == y.len() {
            end = true;
        }
        if i < x.len() && s[n..].starts_with(x[i]) {
            at.insert((i + 1, j));
        }
        if j < y.len() && s[n..].starts_with(y[j]) {
            at.insert((i, j + 1));
        }
    }
    end
}

/// the child: answer every message by `big` bytes, and say goodbye `late` times after the last
pub fn child(a: &[String]) -> ! {
    let (kind, big, late, fails): (&str, usize, usize, bool) = (&a[0], a[1].parse().unwrap(), a[2].parse().unwrap(), a[3] == "fails");
    let args = sync_ls::transport::MirrorArgs { mirror: String::new(), replay: String::new() };
    let text = |k: usize, s: &str| format!("{k}:{s}:{}", "x".repeat(big));
    let r = if kind == "lsp" {
        sync_ls::transport::with_stdio_transport::<sync_ls::LspMessage>(args, |c| {
            let mut k = 0;
            for m in c.receiver.lsp.iter() {
                let _ = c.sender.lsp.send(lsp::Notification::new(text(k, &shown(&m.into())), json!(1)).into());
                k += 1;
            }
            for _ in 0..late {
                let _ = c.sender.lsp.send(lsp::Notification::new(text(k, "late"), json!(1)).into());
                k += 1;
            }
            if fails { Err(anyhow::anyhow!("no")) } else { Ok(()) }
        })
    } else {
        sync_ls::transport::with_stdio_transport::<sync_ls::DapMessage>(args, |c| {
            let mut k = 0;
            for m in c.receiver.lsp.iter() {
                let _ = c.sender.lsp.send(sync_ls::dap::Event::new(k as i64, text(k, &shown(&m.into())), None::<Value>).into());
                k += 1;
            }
            for _ in 0..late {
                let _ = c.sender.lsp.send(sync_ls::dap::Event::new(k as i64, text(k, "late"), None::<Value>).into());
                k += 1;
            }
            if fails { Err(anyhow::anyhow!("no")) } else { Ok(()) }
        })
    };
    std::process::exit(if r.is_ok() { 0 } else { 3 })
}
fn session(cx: &mut Ctx, r: &mut Rng) {
    use std::io::Read;
    use std::process::{Command, Stdio};
    let is_lsp = r.chance(2, 3);
    let big = *r.pick(&[0, 10, 5000, 70_000, 200_000]);
    let late = r.below(4);
    let fails = r.chance(1, 8);
    let mut bytes = vec![];
    let mut texts = vec![];
    let mut stopped = false;
    for i in 0..r.below(6) {
        let m: Message = if is_lsp && r.chance(1, 6) { lsp::Notification::new("exit".into(), json!({"i": i})).into() } else { message(r, is_lsp) };
        if !stopped {
            texts.push(shown(&m).replace(",\"result\":null", ""));
            stopped = matches!(&m, Message::Lsp(lsp::Message::Notification(n)) if n.method == "exit");
        }
        bytes.extend(written(m));
    }
    texts.extend((0..late).map(|_| "late".to_string()));
    let want: Vec<u8> = texts.iter().enumerate().flat_map(|(k, t)| {
        let t = format!("{k}:{t}:{}", "x".repeat(big));
        written(if is_lsp { lsp::Notification::new(t, json!(1)).into() } else { sync_ls::dap::Event::new(k as i64, t, None::<Value>).into() })
    }).collect();
    let open = stopped && r.chance(1, 2);
    let show = format!("{} session over pipes, input {:?}{}, answers of {big} bytes, {late} late messages{}", if is_lsp { "LSP" } else { "DAP" }, String::from_utf8_lossy(&bytes), if open { " left open" } else { "" }, if fails { ", the program fails" } else { "" });
    cx.case(&show);
    let run = || -> Option<(Vec<u8>, Option<i32>)> {
        let mut c = Command::new(std::env::current_exe().ok()?)
            .args(["stdio-child", if is_lsp { "lsp" } else { "dap" }, &big.to_string(), &late.to_string(), if fails { "fails" } else { "works" }])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        let mut i = c.stdin.take()?;
        let w = std::thread::spawn(move || {
            let _ = i.write_all(&bytes).and_then(|_| i.flush());
            i
        });
        if !open {
            // read late: the pipe is full by then
            let mut o = c.stdout.take()?;
            std::thread::sleep(std::time::Duration::from_millis(15));
            let mut v = vec![];
            let rd = std::thread::spawn(move || {
                let _ = o.read_to_end(&mut v);
                v
            });
            drop(w.join().ok()?);
            let v = rd.join().ok()?;
            return Some((v, c.wait().ok()?.code()));
        }
        // the input stays open: the session ends all the same
        let mut o = c.stdout.take()?;
        std::thread::sleep(std::time::Duration::from_millis(15));
        let rd = std::thread::spawn(move || {
            let mut v = vec![];
            let _ = o.read_to_end(&mut v);
            v
        });
        let t = std::time::Instant::now();
        let code = loop {
            if let Some(s) = c.try_wait().ok()? {
                break s.code();
            }
            if t.elapsed().as_secs() > 20 {
                let _ = c.kill();
                let _ = c.wait();
                break Some(-1);
            }
            std::thread::sleep(std::time::Duration::from_millis(2));
        };
        let v = rd.join().ok()?;
        drop(w.join());
        Some((v, code))
    };
    let got = run();
    cx.done();
    let Some((out, code)) = got else { return };
    if code != Some(if fails { 3 } else { 0 }) {
        return cx.fail("how the session ends", &show, if fails { "with the error of the program" } else { "well" }, &format!("exit code {code:?}"));
    }
    // a failed program is not waited for
    if if fails { !want.starts_with(&out) } else { out != want } {
        let cut = |b: &[u8]| format!("{} bytes ending in {:?}", b.len(), String::from_utf8_lossy(&b[b.len().saturating_sub(80)..]));
        return cx.fail("the output of the session", &show, &cut(&want), &cut(&out));
    }
    cx.eval(&show);
}

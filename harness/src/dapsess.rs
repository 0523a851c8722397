//! Debug sessions against an independent model (C06).
use crate::conn::*;
use crate::vx::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use sync_ls::*;

type Log = Arc<Mutex<Vec<String>>>;
type Slots = Arc<Mutex<HashMap<String, tokio::sync::oneshot::Sender<LspResult<Value>>>>>;
struct S {
    log: Log,
    client: LspClient,
    slots: Slots,
}
const CMDS: [&str; 9] = ["t/a", "t/ab", "t/raw", "t/typed", "threads", "Disconnect", "disconnectX", "terminate", "x/initialize"];
struct R<const K: usize>;
impl<const K: usize> dapts::IRequest for R<K> {
    const COMMAND: &'static str = CMDS[K];
    type Arguments = Value;
    type Response = Value;
}
#[derive(serde::Serialize, serde::Deserialize)]
struct Typed {
    n: u32,
    #[serde(flatten)]
    rest: serde_json::Map<String, Value>,
}
struct RT;
impl dapts::IRequest for RT {
    const COMMAND: &'static str = "t/typed";
    type Arguments = Typed;
    type Response = Value;
}
fn err_of(v: &Value) -> ResponseError {
    ResponseError { code: -32803, message: v["msg"].as_str().unwrap_or("m").into(), data: None }
}
fn behave(s: &mut S, name: &str, args: Value) -> SchedulableResponse<Value> {
    s.log.lock().unwrap().push(format!("req {name} {args}"));
    match args["mode"].as_str().unwrap_or("") {
        "err" => just_result(Err(err_of(&args))),
        "early" => Err(err_of(&args)),
        "future" => {
            let (tx, rx) = tokio::sync::oneshot::channel();
            s.slots.lock().unwrap().insert(args["tok"].as_str().unwrap_or("").into(), tx);
            just_future(async move { rx.await.unwrap() })
        }
        "soon" => {
            let v = args["v"].clone();
            just_future(async move { Ok(v) })
        }
        _ => just_ok(args["v"].clone()),
    }
}
fn h<const K: usize>(s: &mut S, args: Value) -> SchedulableResponse<Value> {
    behave(s, CMDS[K], args)
}
fn h_typed(s: &mut S, t: Typed) -> SchedulableResponse<Value> {
    let mut m = t.rest;
    m.insert("n".into(), json!(t.n));
    behave(s, "t/typed", Value::Object(m))
}
fn h_raw(s: &mut S, id: RequestId, args: Value) -> ScheduledResult {
    raw(s, "t/raw", id, args)
}
fn h_disc(s: &mut S, id: RequestId, args: Value) -> ScheduledResult {
    raw(s, "disconnect", id, args)
}
fn raw(s: &mut S, name: &str, id: RequestId, args: Value) -> ScheduledResult {
    s.log.lock().unwrap().push(format!("raw {name} {id} {args}"));
    match args["mode"].as_str().unwrap_or("") {
        "err" | "early" => Err(err_of(&args)),
        "none" => Ok(None),
        "double" => {
            s.client.respond_result(id.clone(), Ok(args["v"].clone()));
            s.client.respond_result(id, Ok(json!("second")));
            Ok(Some(()))
        }
        _ => {
            s.client.respond_result(id, Ok(args["v"].clone()));
            Ok(Some(()))
        }
    }
}
const EVTS: [&str; 2] = ["e/a", "e/ab"];
struct A {
    log: Log,
    client: LspClient,
    slots: Slots,
}
#[derive(serde::Deserialize)]
struct Init {
    ok: u32,
    #[serde(default)]
    mode: String,
}
impl Initializer for A {
    type I = Init;
    type S = S;
    fn initialize(self, req: Init) -> (S, AnySchedulableResponse) {
        self.log.lock().unwrap().push(format!("init {}", req.ok));
        let s = S { log: self.log, client: self.client, slots: self.slots };
        let r = match req.mode.as_str() {
            "err" => just_result(Err(ResponseError { code: -7, message: "no".into(), data: None })),
            "soon" => just_future(async { Ok(json!({"cap": 1})) }),
            _ => just_ok(json!({"cap": 1})),
        };
        (s, r)
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ph {
    U,
    R,
    S,
}
/// success with a body / failure with a message (if it is known)
type Want = (i64, Result<Value, Option<String>>);
struct M {
    ph: Ph,
    out: Vec<Want>,
    log: Vec<String>,
    wait: Vec<(String, i64)>,
}
impl M {
    fn request(&mut self, seq: i64, cmd: &str, a: &Value) {
        let typed = a.is_object() && a["n"].as_u64().map_or(false, |n| n <= u32::MAX as u64);
        match (self.ph, cmd) {
            (Ph::U, "initialize") => match a.get("ok").and_then(|v| v.as_u64()).filter(|n| *n <= u32::MAX as u64) {
                Some(n) => {
                    self.ph = Ph::R;
                    self.log.push(format!("init {n}"));
                    self.out.push((seq, if a["mode"] == "err" { Err(Some("no".into())) } else { Ok(json!({"cap": 1})) }));
                }
                None => self.out.push((seq, Err(None))),
            },
            (Ph::U | Ph::S, _) | (Ph::R, "initialize") => self.out.push((seq, Err(None))),
            (Ph::R, "t/raw" | "disconnect") => {
                self.log.push(format!("raw {cmd} {seq} {a}"));
                self.out.push((seq, match a["mode"].as_str().unwrap_or("") {
                    "err" | "early" => Err(Some(err_of(a).message)),
                    "none" => Ok(Value::Null),
                    _ => Ok(a["v"].clone()),
                }));
                if cmd == "disconnect" {
                    self.ph = Ph::S;
                }
            }
            (Ph::R, "t/typed") if !typed => self.out.push((seq, Err(None))),
            (Ph::R, "t/a" | "t/ab" | "t/typed" | "threads" | "Disconnect" | "disconnectX" | "terminate" | "x/initialize") => {
                self.log.push(format!("req {cmd} {a}"));
                match a["mode"].as_str().unwrap_or("") {
                    "err" | "early" => self.out.push((seq, Err(Some(err_of(a).message)))),
                    "future" => self.wait.push((a["tok"].as_str().unwrap_or("").into(), seq)),
                    _ => self.out.push((seq, Ok(a["v"].clone()))),
                }
            }
            (Ph::R, _) => self.out.push((seq, Err(Some("method not found".into())))),
        }
    }
}

pub fn run(cx: &mut Ctx) {
    cx.rule = "random debug sessions (requests of every shape with sequence numbers over all of i64, events, batches, late completions) \
               against an independent model; non-trivial if the session was initialized and at least two requests were answered"
        .into();
    let rt = runtime();
    let (ttx, trx) = template::<DapMessage>();
    let mut n = 0;
    while cx.more(n, 12_000, 1_000_000) {
        n += 1;
        let mut r = Rng(cx.rng.next());
        let (otx, orx) = crossbeam_channel::unbounded();
        let mut tx = ttx.clone();
        tx.lsp = otx;
        let root = LspClientRoot::new(rt.handle().clone(), tx);
        let client = root.weak();
        let (log, slots): (Log, Slots) = Default::default();
        let l1 = log.clone();
        let mut b = DapBuilder::new(A { log: log.clone(), client: client.clone(), slots: slots.clone() }, client.clone())
            .with_request::<R<0>>(h::<0>)
            .with_request::<R<1>>(h::<1>)
            .with_raw_request::<R<2>>(h_raw)
            .with_request::<RT>(h_typed)
            .with_request::<R<4>>(h::<4>)
            .with_request::<R<5>>(h::<5>)
            .with_request::<R<6>>(h::<6>)
            .with_request::<R<7>>(h::<7>)
            .with_request::<R<8>>(h::<8>)
            .with_raw_request::<dapts::request::Disconnect>(h_disc);
        for e in EVTS {
            let l = l1.clone();
            b.notif_handlers.insert(e, Box::new(move |_, v: Value| {
                l.lock().unwrap().push(format!("evt {e} {v}"));
                if v["mode"] == "err" { Err(err_of(&v)) } else { Ok(()) }
            }));
        }
        let mut driver = b.build();
        let mut m = M { ph: Ph::U, out: vec![], log: vec![], wait: vec![] };
        let mut trace: Vec<String> = vec![];
        let mut used: Vec<i64> = vec![];
        let mut answered = 0;
        let len = r.range(3, 22);
        let mut k = 0;
        while k < len {
            let (tx, rx) = crossbeam_channel::unbounded();
            for _ in 0..r.range(1, 3) {
                k += 1;
                let v = match r.below(4) {
                    0 => Value::Null,
                    1 => json!([1, "é"]),
                    _ => json!({"k": k}),
                };
                let mode = *r.pick(&["ok", "err", "early", "future", "soon", "none", "double", "", "ok"]);
                let mut a = if r.chance(1, 10) { Value::Null } else { json!({"mode": mode, "v": v, "msg": format!("m{k}"), "tok": format!("k{k}"), "n": if r.chance(1, 5) { json!(-1) } else { json!(k) }}) };
                if a.is_object() {
                    // what real clients send along
                    for k in ["restart", "terminateDebuggee", "suspendDebuggee", "noDebug", "threadId", "all", "force"] {
                        if r.chance(1, 6) {
                            a[k] = r.pick(&[json!(true), json!(false), json!(1), json!(0), Value::Null]).clone();
                        }
                    }
                }
                if r.chance(1, 5) {
                    let e = *r.pick(&["e/a", "e/ab", "e/", "e/none", "t/a", "initialized", "exit", ""]);
                    trace.push(format!("event {e} {a}"));
                    if m.ph == Ph::R && EVTS.contains(&e) {
                        m.log.push(format!("evt {e} {a}"));
                    }
                    tx.send(dap::Event::new(k as i64, e.to_owned(), a).into()).unwrap();
                    continue;
                }
                let seq = loop {
                    let s = match r.below(8) {
                        0 => r.next() as i64,
                        1 => i64::MAX - r.below(3) as i64,
                        2 => i64::MIN + r.below(3) as i64,
                        3 => (1i64 << 32) + r.below(4) as i64,
                        4 => i32::MAX as i64 + r.below(3) as i64 - 1,
                        5 => i32::MIN as i64 - r.below(3) as i64 + 1,
                        6 => -(r.below(5) as i64),
                        _ => r.below(500) as i64,
                    };
                    if !used.contains(&s) {
                        break s;
                    }
                };
                used.push(seq);
                let (cmd, a) = if m.ph == Ph::U && r.chance(1, 3) {
                    ("initialize", match r.below(6) {
                        0 => json!({}),
                        1 => json!({"ok": "x"}),
                        2 => json!({"ok": 1, "mode": "err"}),
                        3 => json!({"ok": 1, "mode": "soon"}),
                        _ => json!({"ok": 2}),
                    })
                } else {
                    (match r.below(14) {
                        0 => "initialize",
                        1 if r.chance(1, 3) => "disconnect",
                        2 => *r.pick(&["", "t/", "t/unknown", "disconnec", "disconnect2", "Disconnect", "initialize2", "initialized", "Threads", "shutdown", "exit"]),
                        _ => CMDS[r.below(CMDS.len())],
                    }, a)
                };
                trace.push(format!("request seq={seq} {cmd} {a}"));
                m.request(seq, cmd, &a);
                tx.send(dap::Request { seq, command: cmd.into(), arguments: a }.into()).unwrap();
            }
            drop(tx);
            let finish = if !m.wait.is_empty() && r.chance(1, 2) { Some(r.below(m.wait.len())) } else { None };
            let tr = trace.join("\n");
            cx.case(&tr);
            let res = cx.guard("debug session", &tr, || {
                let (_etx, erx) = crossbeam_channel::unbounded();
                let mut inbox = trx.clone();
                inbox.lsp = rx.clone();
                inbox.event = erx;
                let res = driver.start(inbox, false).map_err(|e| e.to_string());
                if let Some(f) = finish {
                    let (tok, seq) = m.wait.remove(f);
                    if let Some(tx) = slots.lock().unwrap().remove(&tok) {
                        let ok = f % 2 == 0;
                        let _ = tx.send(if ok { Ok(json!(tok)) } else { Err(ResponseError { code: 1, message: tok.clone(), data: None }) });
                        m.out.push((seq, if ok { Ok(json!(tok)) } else { Err(Some(tok)) }));
                        // a second answer to the same request
                    }
                }
                settle(&rt);
                res
            });
            cx.done();
            match res {
                None => return,
                Some(Err(e)) => return cx.fail("the session failed", &tr, "it goes on", &e),
                _ => {}
            }
            if rx.len() != 0 {
                return cx.fail("messages left unread", &tr, "0", &rx.len().to_string());
            }
            let mut got: Vec<Value> = vec![];
            while let Ok(msg) = orx.try_recv() {
                match msg {
                    Message::Dap(dap::Message::Response(x)) => got.push(serde_json::to_value(x).unwrap()),
                    o => return cx.fail("unexpected message", &tr, "responses only", &format!("{o:?}")),
                }
            }
            let want = std::mem::take(&mut m.out);
            let mut left = got.clone();
            for (seq, w) in &want {
                match left.iter().position(|g| {
                    g["request_seq"] == *seq
                        && match w {
                            Ok(v) => g["success"] == true && g.get("body").unwrap_or(&Value::Null) == v,
                            Err(msg) => g["success"] == false && msg.as_ref().map_or(true, |m| g["message"] == m.as_str()),
                        }
                }) {
                    Some(p) => {
                        left.remove(p);
                        answered += 1;
                    }
                    None => return cx.fail("an answer is missing or wrong", &tr, &format!("seq {seq}: {w:?}"), &format!("{got:?}")),
                }
            }
            if !left.is_empty() {
                return cx.fail("an answer nobody is waiting for", &tr, &format!("{want:?}"), &format!("{left:?}"));
            }
            let (l, wl) = (std::mem::take(&mut *log.lock().unwrap()), std::mem::take(&mut m.log));
            if l != wl {
                return cx.fail("handlers called", &tr, &format!("{wl:?}"), &format!("{l:?}"));
            }
            if driver.state().is_some() != (m.ph == Ph::R) {
                return cx.fail("phase", &tr, &format!("{:?}", m.ph), "driver.state() disagrees");
            }
            if client.has_pending_requests() == m.wait.is_empty() {
                return cx.fail("pending requests", &tr, &format!("{:?}", m.wait), "has_pending_requests() disagrees");
            }
        }
        cx.eval(&if m.ph != Ph::U && answered >= 2 { trace.join(";") } else { String::new() });
    }
    dap_replies(cx);
}

/// replies to requests of the server, through the client object
fn dap_replies(cx: &mut Ctx) {
    let rt = runtime();
    let (ttx, _) = template::<DapMessage>();
    let mut n = 0;
    while cx.more(n, 100, 2000) {
        n += 1;
        let (otx, orx) = crossbeam_channel::unbounded();
        let mut tx = ttx.clone();
        tx.lsp = otx;
        let root = LspClientRoot::new(rt.handle().clone(), tx);
        let c = root.weak();
        let seq = cx.rng.next() as i64;
        let tr = format!("register and answer seq {seq}");
        let id: RequestId = match serde_json::from_value(json!(seq)) {
            Ok(id) => id,
            Err(_) => continue,
        };
        let r = cx.guard("answer", &tr, || {
            c.register_request("x", &id, std::time::Instant::now());
            c.respond_result(id.clone(), Ok(json!(1)));
            c.respond_result(id.clone(), Ok(json!(2)));
            orx.try_iter().map(|m| match m {
                Message::Dap(dap::Message::Response(r)) => r.request_seq,
                _ => 0,
            }).collect::<Vec<_>>()
        });
        match r {
            None => return,
            Some(v) if v != vec![seq] => return cx.fail("sequence number of the answer", &tr, &format!("[{seq}]"), &format!("{v:?}")),
            _ => {}
        }
    }
}

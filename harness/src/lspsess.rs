//! LSP sessions against an independent model of the session rules (C03, C04, C05, C16).
use crate::conn::*;
use crate::vx::*;
use lsp_types::request::Request as Req;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::path::Path;
use std::sync::{Arc, Mutex};
use sync_ls::lsp::{Notification, Request, Response};
use sync_ls::req_queue;
use sync_ls::*;

type Log = Arc<Mutex<Vec<String>>>;
type Slots = Arc<Mutex<HashMap<String, tokio::sync::oneshot::Sender<LspResult<Value>>>>>;

struct S {
    log: Log,
    client: LspClient,
    slots: Slots,
}

const METHODS: [&str; 17] = ["t/a", "t/ab", "t/b", "t/raw", "t/raw2", "t/typed", "t/bad", "t/typed_", "T/a", "$/a", "textDocument/hover", "t/unused", "shutdownX", "x/shutdown", "initializeX", "t/opt", "t/opt_"];
const NOTIFS: [&str; 7] = ["n/a", "n/ab", "n/typed", "N/a", "$/x", "textDocument/didOpen", "n/opt"];

struct R<const K: usize>;
impl<const K: usize> Req for R<K> {
    type Params = Value;
    type Result = Value;
    const METHOD: &'static str = METHODS[K];
}
#[derive(serde::Serialize, serde::Deserialize, Debug)]
struct Typed {
    n: u32,
    #[serde(flatten)]
    rest: serde_json::Map<String, Value>,
}
struct RT<const K: usize>;
impl<const K: usize> Req for RT<K> {
    type Params = Typed;
    type Result = Value;
    const METHOD: &'static str = METHODS[K];
}
/// a result that cannot be turned into JSON
#[derive(serde::Deserialize)]
struct Bad;
impl serde::Serialize for Bad {
    fn serialize<Z: serde::Serializer>(&self, _: Z) -> Result<Z::Ok, Z::Error> {
        Err(serde::ser::Error::custom("not representable"))
    }
}
struct RBad;
impl Req for RBad {
    type Params = Value;
    type Result = Bad;
    const METHOD: &'static str = "t/bad";
}
struct N<const K: usize>;
impl<const K: usize> lsp_types::notification::Notification for N<K> {
    type Params = Value;
    const METHOD: &'static str = NOTIFS[K];
}
struct NT;
impl lsp_types::notification::Notification for NT {
    type Params = Typed;
    const METHOD: &'static str = "n/typed";
}

fn err_of(v: &Value) -> ResponseError {
    ResponseError { code: v["code"].as_i64().unwrap_or(-1) as i32, message: v["msg"].as_str().unwrap_or("m").into(), data: None }
}

fn behave(s: &mut S, name: &str, args: Value) -> SchedulableResponse<Value> {
    s.log.lock().unwrap().push(format!("req {name} {args}"));
    match args["mode"].as_str().unwrap_or("") {
        "err" => just_result(Err(err_of(&args))),
        "early" => Err(err_of(&args)),
        "future" => {
            let (tx, rx) = tokio::sync::oneshot::channel();
            s.slots.lock().unwrap().insert(args["tok"].as_str().unwrap_or("").into(), tx);
            just_future(async move { rx.await.unwrap() })
        }
        "soon" => {
            let v = args["v"].clone();
            just_future(async move { Ok(v) })
        }
        _ => just_ok(args["v"].clone()),
    }
}
fn h_async<const K: usize>(s: &mut S, args: Value) -> SchedulableResponse<Value> {
    behave(s, METHODS[K], args)
}
fn h_typed<const K: usize>(s: &mut S, t: Typed) -> SchedulableResponse<Value> {
    let mut m = t.rest;
    m.insert("n".into(), json!(t.n));
    behave(s, METHODS[K], Value::Object(m))
}
/// params that may be absent
struct RO<const K: usize>;
impl<const K: usize> Req for RO<K> {
    type Params = Option<Typed>;
    type Result = Value;
    const METHOD: &'static str = METHODS[K];
}
struct NO;
impl lsp_types::notification::Notification for NO {
    type Params = Option<Typed>;
    const METHOD: &'static str = "n/opt";
}
fn opt(t: Option<Typed>) -> Value {
    t.map_or(Value::Null, |t| {
        let mut m = t.rest;
        m.insert("n".into(), json!(t.n));
        Value::Object(m)
    })
}
fn h_opt(s: &mut S, t: Option<Typed>) -> SchedulableResponse<Value> {
    behave(s, "t/opt", opt(t))
}
fn h_opt_(s: &mut S, id: RequestId, t: Option<Typed>) -> ScheduledResult {
    let args = opt(t);
    let shown = args.to_string();
    raw_behave(s, "t/opt_", id, &args, &shown)
}
fn h_notifo(s: &mut S, t: Option<Typed>) -> LspResult<()> {
    s.log.lock().unwrap().push(format!("ntf n/opt {:?}", t.map(|t| t.n)));
    Ok(())
}
fn h_bad(s: &mut S, args: Value) -> SchedulableResponse<Bad> {
    s.log.lock().unwrap().push(format!("req t/bad {args}"));
    if args["mode"] == "soon" {
        return just_future(async { Ok(Bad) });
    }
    just_ok(Bad)
}
fn raw_behave(s: &mut S, name: &str, id: RequestId, args: &Value, shown: &str) -> ScheduledResult {
    s.log.lock().unwrap().push(format!("raw {name} {id} {shown}"));
    match args["mode"].as_str().unwrap_or("") {
        "err" | "early" => Err(err_of(args)),
        "none" => Ok(None),
        "self" => {
            s.client.respond_result(id, Ok(args["v"].clone()));
            Ok(Some(()))
        }
        "selferr" => {
            s.client.respond_result::<Value>(id, Err(err_of(args)));
            Ok(Some(()))
        }
        "double" => {
            s.client.respond_result(id.clone(), Ok(args["v"].clone()));
            s.client.respond_result(id.clone(), Ok(json!("second")));
            s.client.respond_lsp(Response::new_ok(id, json!("third")));
            Ok(Some(()))
        }
        "lsp" => {
            s.client.respond_lsp(Response::new_ok(id, args["v"].clone()));
            Ok(Some(()))
        }
        "sched" => s.client.schedule(id, just_ok(args["v"].clone())),
        // answered later, from outside
        _ => Ok(Some(())),
    }
}
fn h_raw<const K: usize>(s: &mut S, id: RequestId, args: Value) -> ScheduledResult {
    let shown = args.to_string();
    raw_behave(s, METHODS[K], id, &args, &shown)
}
fn h_rawt<const K: usize>(s: &mut S, id: RequestId, t: Typed) -> ScheduledResult {
    let mut m = t.rest;
    m.insert("n".into(), json!(t.n));
    let args = Value::Object(m);
    let shown = args.to_string();
    raw_behave(s, METHODS[K], id, &args, &shown)
}
fn h_notif<const K: usize>(s: &mut S, args: Value) -> LspResult<()> {
    s.log.lock().unwrap().push(format!("ntf {} {args}", NOTIFS[K]));
    if args["mode"] == "err" {
        return Err(err_of(&args));
    }
    Ok(())
}
fn h_notift(s: &mut S, t: Typed) -> LspResult<()> {
    s.log.lock().unwrap().push(format!("ntf n/typed {}", t.n));
    Ok(())
}
fn h_inited(s: &mut S, args: Value) -> LspResult<()> {
    s.log.lock().unwrap().push(format!("ntf initialized {args}"));
    Ok(())
}
fn h_exit(s: &mut S, args: Value) -> LspResult<()> {
    s.log.lock().unwrap().push(format!("ntf exit {args}"));
    Ok(())
}
fn h_shutdown(s: &mut S, id: RequestId, args: Value) -> ScheduledResult {
    let shown = args.to_string();
    raw_behave(s, "shutdown", id, &args, &shown)
}
fn h_cmd<const K: usize>(s: &mut S, args: Vec<Value>) -> SchedulableResponse<Value> {
    let v = Value::Array(args.clone());
    s.log.lock().unwrap().push(format!("cmd {} {v}", CMDS[K]));
    match args.first() {
        Some(a) if a["mode"] == "err" => just_result(Err(err_of(a))),
        Some(a) if a["mode"] == "early" => Err(err_of(a)),
        _ => just_ok(v),
    }
}
const CMDS: [&str; 5] = ["c.a", "c.ab", "c.raw", "C.a", "tinymist.c.b"];
fn h_cmdraw(s: &mut S, id: RequestId, args: Vec<Value>) -> ScheduledResult {
    let shown = Value::Array(args.clone()).to_string();
    raw_behave(s, "c.raw", id, args.first().unwrap_or(&json!({"mode":"none"})), &shown)
}
const RES: [&str; 5] = ["/r/a", "/r/ab", "/r/raw", "rel", "none"];
fn h_res<const K: usize>(s: &mut S, args: Vec<Value>) -> AnySchedulableResponse {
    let v = Value::Array(args.clone());
    s.log.lock().unwrap().push(format!("res {} {v}", RES[K]));
    just_ok(v)
}
fn h_resraw(s: &mut S, id: RequestId, args: Vec<Value>) -> ScheduledResult {
    let shown = Value::Array(args.clone()).to_string();
    raw_behave(s, "/r/raw", id, args.get(1).unwrap_or(&json!({"mode":"none"})), &shown)
}

#[derive(serde::Deserialize)]
struct InitParams {
    ok: u32,
    #[serde(default)]
    mode: String,
}
struct Args {
    log: Log,
    client: LspClient,
    slots: Slots,
}
impl Initializer for Args {
    type I = InitParams;
    type S = S;
    fn initialize(self, req: InitParams) -> (S, AnySchedulableResponse) {
        self.log.lock().unwrap().push(format!("init {}", req.ok));
        let s = S { log: self.log, client: self.client, slots: self.slots };
        let res = match req.mode.as_str() {
            "err" => just_result(Err(ResponseError { code: -7, message: "no".into(), data: None })),
            "early" => Err(ResponseError { code: -7, message: "no".into(), data: None }),
            "soon" => just_future(async move { Ok(json!({"cap": 1})) }),
            "null" => just_ok(Value::Null),
            "nullsoon" => just_future(async move { Ok(Value::Null) }),
            _ => just_ok(json!({"cap": 1})),
        };
        (s, res)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ph {
    U,
    I,
    R,
    S,
}

/// what an answer has to be
#[derive(Clone, Debug)]
enum Want {
    Ok(Value),
    Err(Option<i64>, Option<String>),
}

struct Model {
    ph: Ph,
    has_initialized: bool,
    has_exit: bool,
    /// id, answer, why: 'L' refused by the phase, 'I' initialize, 'D' refused by dispatch, 'H' a handler's outcome
    out: Vec<(Value, Want, char)>,
    log: Vec<String>,
    /// answered only when told to: token or id
    waiting_tok: Vec<(String, Value)>,
    waiting_raw: Vec<Value>,
    done_ids: Vec<Value>,
}

fn idtext(id: &Value) -> String {
    match id {
        Value::String(s) => format!("{s:?}"),
        v => v.to_string(),
    }
}

impl Model {
    fn answer(&mut self, id: &Value, w: Want) {
        self.answer_(id, w, 'H')
    }
    fn answer_(&mut self, id: &Value, w: Want, why: char) {
        self.out.push((id.clone(), w, why));
        self.done_ids.push(id.clone());
    }
    fn refuse(&mut self, id: &Value, code: Option<i64>) {
        let why = if self.ph == Ph::R { 'D' } else { 'L' };
        self.answer_(id, Want::Err(code, None), why)
    }
    fn want_err(a: &Value) -> Want {
        let e = err_of(a);
        Want::Err(Some(e.code as i64), Some(e.message))
    }
    fn asyncm(&mut self, id: &Value, name: &str, args: &Value) {
        self.log.push(format!("req {name} {args}"));
        match args["mode"].as_str().unwrap_or("") {
            "err" | "early" => self.answer(id, Self::want_err(args)),
            "future" => self.waiting_tok.push((args["tok"].as_str().unwrap_or("").into(), id.clone())),
            _ => self.answer(id, Want::Ok(args["v"].clone())),
        }
    }
    fn rawm(&mut self, id: &Value, name: &str, args: &Value, shown: &str) {
        self.log.push(format!("raw {name} {} {shown}", idtext(id)));
        match args["mode"].as_str().unwrap_or("") {
            "err" | "early" | "selferr" => self.answer(id, Self::want_err(args)),
            "none" => self.answer(id, Want::Ok(Value::Null)),
            "self" | "double" | "lsp" | "sched" => self.answer(id, Want::Ok(args["v"].clone())),
            _ => self.waiting_raw.push(id.clone()),
        }
    }
    fn typed(args: &Value) -> bool {
        args.is_object() && args["n"].as_u64().map(|n| n <= u32::MAX as u64).unwrap_or(false)
    }
    fn request(&mut self, id: &Value, method: &str, args: &Value) {
        match (self.ph, method) {
            (Ph::U, "initialize") => {
                let ok = args.get("ok").and_then(|v| v.as_u64()).filter(|n| *n <= u32::MAX as u64);
                match ok {
                    Some(n) => {
                        self.log.push(format!("init {n}"));
                        self.ph = Ph::I;
                        match args["mode"].as_str().unwrap_or("") {
                            "err" | "early" => self.answer_(id, Want::Err(Some(-7), Some("no".into())), 'I'),
                            "null" | "nullsoon" => self.answer_(id, Want::Ok(Value::Null), 'I'),
                            _ => self.answer_(id, Want::Ok(json!({"cap": 1})), 'I'),
                        }
                    }
                    None => self.refuse(id, None),
                }
            }
            (Ph::U | Ph::I, m) => self.refuse(id, if m == "initialize" { None } else { Some(-32002) }),
            (Ph::R, "initialize") => self.answer_(id, Want::Err(None, None), 'L'),
            (Ph::S, _) => self.refuse(id, Some(-32600)),
            (Ph::R, "workspace/executeCommand") => {
                let Some(cmd) = args["command"].as_str() else { return self.refuse(id, None) };
                let list = match args.get("arguments") {
                    None => vec![],
                    Some(Value::Array(a)) => a.clone(),
                    Some(_) => return self.refuse(id, None),
                };
                let v = Value::Array(list.clone());
                match cmd {
                    "c.a" | "c.ab" | "C.a" | "tinymist.c.b" => {
                        self.log.push(format!("cmd {cmd} {v}"));
                        match list.first() {
                            Some(a) if a["mode"] == "err" || a["mode"] == "early" => self.answer(id, Self::want_err(a)),
                            _ => self.answer(id, Want::Ok(v)),
                        }
                    }
                    "c.raw" => self.rawm(id, "c.raw", list.first().unwrap_or(&json!({"mode":"none"})), &v.to_string()),
                    // two spellings of a path are the same resource
                    "tinymist.getResources" => match list.first().and_then(|p| p.as_str()).map(|p| RES.iter().find(|k| Path::new(p) == Path::new(k)).copied().unwrap_or(p)) {
                        None => self.refuse(id, None),
                        Some(p @ ("/r/a" | "/r/ab" | "rel" | "none")) => {
                            self.log.push(format!("res {p} {v}"));
                            self.answer(id, Want::Ok(v))
                        }
                        Some("/r/raw") => self.rawm(id, "/r/raw", list.get(1).unwrap_or(&json!({"mode":"none"})), &v.to_string()),
                        Some(_) => self.refuse(id, Some(-32601)),
                    },
                    _ => self.refuse(id, Some(-32601)),
                }
            }
            (Ph::R, m) => match m {
                "t/a" | "t/ab" | "t/b" | "T/a" | "$/a" | "textDocument/hover" | "shutdownX" | "x/shutdown" | "initializeX" => self.asyncm(id, m, args),
                "t/raw" | "t/raw2" => self.rawm(id, m, args, &args.to_string()),
                "t/typed" if Self::typed(args) => self.asyncm(id, m, args),
                "t/typed_" if Self::typed(args) => self.rawm(id, m, args, &args.to_string()),
                "t/opt" if Self::typed(args) || args.is_null() => self.asyncm(id, m, args),
                "t/opt_" if Self::typed(args) || args.is_null() => self.rawm(id, m, args, &args.to_string()),
                "t/typed" | "t/typed_" | "t/opt" | "t/opt_" => self.refuse(id, None),
                "t/bad" => {
                    self.log.push(format!("req t/bad {args}"));
                    self.answer(id, Want::Err(None, None))
                }
                "shutdown" => {
                    self.rawm(id, m, args, &args.to_string());
                    self.ph = Ph::S;
                }
                _ => self.refuse(id, Some(-32601)),
            },
        }
    }
    fn notification(&mut self, method: &str, args: &Value) {
        if method == "initialized" && self.ph == Ph::I {
            self.ph = Ph::R;
        }
        if self.ph != Ph::R {
            return;
        }
        match method {
            "initialized" if self.has_initialized => self.log.push(format!("ntf initialized {args}")),
            "exit" if self.has_exit => self.log.push(format!("ntf exit {args}")),
            "n/a" | "n/ab" | "N/a" | "$/x" | "textDocument/didOpen" => self.log.push(format!("ntf {method} {args}")),
            "n/opt" if args.is_null() => self.log.push("ntf n/opt None".into()),
            "n/opt" if Self::typed(args) => self.log.push(format!("ntf n/opt Some({})", args["n"])),
            "n/typed" if Self::typed(args) => self.log.push(format!("ntf n/typed {}", args["n"])),
            _ => {}
        }
    }
}

#[derive(Clone)]
enum Step {
    Req(Value, String, Value),
    Ntf(String, Value),
    /// reply to a request of the server: id, value
    Reply(Value, Value, bool),
    Event(u32),
    EventOther,
    // done from outside the session
    Finish(usize, bool),
    Late(Value),
    RawAnswer(usize),
    Send(u64),
}

fn show(st: &Step) -> String {
    match st {
        Step::Req(i, m, a) => format!("request id={i} {m} {a}"),
        Step::Ntf(m, a) => format!("notification {m} {a}"),
        Step::Reply(i, v, ok) => format!("reply id={i} {v} ok={ok}"),
        Step::Event(n) => format!("event {n}"),
        Step::EventOther => "event of an unregistered type".into(),
        Step::Finish(n, ok) => format!("finish future #{n} ok={ok}"),
        Step::Late(i) => format!("answer {i} although not pending"),
        Step::RawAnswer(n) => format!("answer deferred #{n}"),
        Step::Send(v) => format!("server sends a request {v}"),
    }
}

fn event_text(n: u32) -> String {
    match n % 5 { 0 => format!("u32 {n}"), 1 => format!("i64 {n}"), 2 => format!("u8 {}", n as u8), 3 => "char c".into(), _ => format!("u64 {n}") }
}
fn rid(v: &Value) -> RequestId {
    serde_json::from_value(v.clone()).unwrap()
}

fn gen_args(r: &mut Rng, n: usize) -> Value {
    let v = match r.below(6) {
        0 => Value::Null,
        1 => json!(n),
        2 => json!("text\u{1F600}é"),
        3 => json!([1, null, {"a": "b"}]),
        _ => json!({"k": n}),
    };
    let mode = *r.pick(&["ok", "ok", "err", "early", "future", "soon", "none", "self", "selferr", "double", "lsp", "sched", "defer", ""]);
    match r.below(12) {
        0 => Value::Null,
        1 => json!([]),
        2 => json!("x"),
        _ => json!({"mode": mode, "v": v, "code": if r.chance(1, 2) { (r.below(5) as i64) - 32803 } else { *r.pick(&[0, 1, -1, 404, i32::MIN as i64, i32::MAX as i64, -32600, -32002, -32603, -32601, -32602, -32700, -32800]) }, "msg": if r.chance(1, 6) { String::new() } else { format!("e{n}\u{e9}") }, "tok": format!("k{n}"), "n": if r.chance(1, 5) { json!("no") } else { json!(n) }}),
    }
}

fn gen_id(r: &mut Rng, used: &HashSet<String>, done: &[Value]) -> Value {
    loop {
        let id = match r.below(8) {
            0 => json!(i32::MIN),
            1 => json!(i32::MAX),
            2 => json!(format!("{}", r.below(6))),
            3 => json!(""),
            4 => json!(-(r.below(4) as i64)),
            5 if !done.is_empty() => done[r.below(done.len())].clone(),
            _ => json!(r.below(400)),
        };
        if !used.contains(&id.to_string()) {
            return id;
        }
    }
}

struct Sess {
    driver: LsDriver<LspMessage, Args>,
    client: LspClient,
    _root: LspClientRoot,
    out: crossbeam_channel::Receiver<Message>,
    log: Log,
    slots: Slots,
}

fn build(rt: &tokio::runtime::Runtime, tx: &TConnectionTx<LspMessage>, has_initialized: bool, has_exit: bool) -> Sess {
    let (otx, orx) = crossbeam_channel::unbounded();
    let mut tx = tx.clone();
    tx.lsp = otx;
    let root = LspClientRoot::new(rt.handle().clone(), tx);
    let client = root.weak();
    let log: Log = Default::default();
    let slots: Slots = Default::default();
    let args = Args { log: log.clone(), client: client.clone(), slots: slots.clone() };
    let mut b = LsBuilder::<LspMessage, Args>::new(args, client.clone())
        .with_request::<R<0>>(h_async::<0>)
        .with_request::<R<1>>(h_async::<1>)
        .with_request::<R<2>>(h_async::<2>)
        .with_raw_request::<R<3>>(h_raw::<3>)
        .with_raw_request::<R<4>>(h_raw::<4>)
        .with_request::<RT<5>>(h_typed::<5>)
        .with_request::<RBad>(h_bad)
        .with_request_::<RT<7>>(h_rawt::<7>)
        .with_request::<R<8>>(h_async::<8>)
        .with_request::<R<9>>(h_async::<9>)
        .with_request::<R<10>>(h_async::<10>)
        .with_request::<RO<15>>(h_opt)
        .with_request_::<RO<16>>(h_opt_)
        .with_notification::<NO>(h_notifo)
        .with_request::<R<12>>(h_async::<12>)
        .with_request::<R<13>>(h_async::<13>)
        .with_request::<R<14>>(h_async::<14>)
        .with_raw_request::<lsp_types::request::Shutdown>(h_shutdown)
        .with_notification_::<N<0>>(h_notif::<0>)
        .with_notification::<N<1>>(h_notif::<1>)
        .with_notification::<NT>(h_notift)
        .with_notification::<N<3>>(h_notif::<3>)
        .with_notification_::<N<4>>(h_notif::<4>)
        .with_notification_::<N<5>>(h_notif::<5>)
        .with_command("c.a", h_cmd::<0>)
        .with_command("c.ab", h_cmd::<1>)
        .with_command_("c.raw", h_cmdraw)
        .with_command("C.a", h_cmd::<3>)
        .with_command("tinymist.c.b", h_cmd::<4>)
        .with_resource("/r/a", h_res::<0>)
        .with_resource("/r/ab", h_res::<1>)
        .with_resource("rel", h_res::<3>)
        .with_resource("none", h_res::<4>)
        .with_resource_(Path::new("/r/raw").into(), h_resraw);
    macro_rules! on_event {
        ($zero:expr, $t:ty) => {{
            let log = log.clone();
            b = b.with_event(&$zero, move |s, n: $t| {
                let ph = match s {
                    ServiceState::Uninitialized(Some(_)) => "u",
                    ServiceState::Uninitialized(None) => "gone",
                    ServiceState::Ready(_) => "r",
                };
                log.lock().unwrap().push(format!("evt {ph} {} {n}", stringify!($t)));
                Ok(())
            });
        }};
    }
    on_event!(0u32, u32);
    on_event!(0i64, i64);
    on_event!(0u8, u8);
    on_event!('a', char);
    on_event!(0u64, u64);
    if has_initialized {
        b = b.with_notification_::<lsp_types::notification::Initialized>(h_inited);
    }
    if has_exit {
        b = b.with_notification_::<lsp_types::notification::Exit>(h_exit);
    }
    Sess { driver: b.build(), client, _root: root, out: orx, log, slots }
}

struct SendReq;
impl Req for SendReq {
    type Params = Value;
    type Result = Value;
    const METHOD: &'static str = "s/req";
}

/// now and then a name that is almost the one asked for
fn near(r: &mut Rng, n: String) -> String {
    if !r.chance(1, 14) {
        return n;
    }
    match r.below(8) {
        0 => format!("{n}{}", *r.pick(&["X", "/x", ".", "s", " ", "\0", "/"])),
        1 => format!("{}{n}", *r.pick(&["x", "/", " ", "$/", "workspace/", "tinymist.", "tinymist/", "textDocument/", "c.", "_", "window/"])),
        2 => n.to_uppercase(),
        3 => n.to_lowercase(),
        4 => n.chars().take(n.chars().count().saturating_sub(1)).collect(),
        5 => n.chars().skip(1).collect(),
        6 => format!("{n}{n}"),
        _ => n.replace('/', "."),
    }
}

pub fn run(cx: &mut Ctx) {
    cx.rule = "random LSP sessions (requests of every registered shape, notifications, replies, events, answers made from outside, message \
               batches) against an independent model of the session rules; a session is non-trivial if it reached the ready phase and \
               was answered at least three times"
        .into();
    if cx.prop == "C03" || cx.prop == "C05" {
        queue_model(cx);
        if !cx.failed() {
            queue_scale(cx);
        }
    }
    if cx.prop == "C03" {
        race(cx);
    }
    if cx.prop == "C05" {
        peer(cx);
    }
    let rt = runtime();
    let (ttx, trx) = template::<LspMessage>();
    let mut n = 0;
    while cx.more(n, 12_000, 1_000_000) {
        n += 1;
        let seed = cx.rng.next();
        session(cx, &rt, &ttx, &trx, seed);
    }
}

/// a disagreement counts against the properties it breaks only
fn blame(cx: &mut Ctx, props: &[&str], what: &str, input: &str, expected: &str, got: &str) {
    if props.contains(&cx.prop.as_str()) {
        cx.fail(what, input, expected, got)
    }
}

fn session(cx: &mut Ctx, rt: &tokio::runtime::Runtime, ttx: &TConnectionTx<LspMessage>, trx: &TConnectionRx<LspMessage>, seed: u64) {
    let mut r = Rng(seed);
    let (hi, he) = (r.chance(1, 2), r.chance(1, 2));
    let mut se = build(rt, ttx, hi, he);
    let mut m = Model { ph: Ph::U, has_initialized: hi, has_exit: he, out: vec![], log: vec![], waiting_tok: vec![], waiting_raw: vec![], done_ids: vec![] };
    let mut trace: Vec<String> = vec![];
    let mut used: HashSet<String> = HashSet::new(); // pending ids
    let mut sent_ids: Vec<Value> = vec![]; // of requests the server sent
    let mut open_sent: Vec<(Value, u64)> = vec![];
    let mut next_handler = 0u64;
    let mut over = false;
    let len = r.range(4, 30);
    let mut answered = 0;
    let mut k = 0;
    while k < len && !over {
        // a batch of wire messages or one other step
        let ph0 = m.ph;
        let batch = if r.chance(1, 3) { r.range(2, 5) } else { 1 };
        let mut steps: Vec<Step> = vec![];
        for _ in 0..batch {
            k += 1;
            let eager = match m.ph {
                Ph::U => r.chance(1, 3),
                Ph::I => r.chance(1, 3),
                _ => false,
            };
            let st = if eager && steps.is_empty() {
                if m.ph == Ph::U {
                    let id = gen_id(&mut r, &used, &m.done_ids);
                    Step::Req(id, "initialize".into(), match r.below(10) {
                        8 => json!({"ok": 6, "mode": "null"}),
                        9 => json!({"ok": 7, "mode": "nullsoon"}),
                        0 => json!({}),
                        1 => Value::Null,
                        2 => json!({"ok": "x"}),
                        3 => json!({"ok": 3, "mode": "err"}),
                        4 => json!({"ok": 3, "mode": "early"}),
                        5 => json!({"ok": 4, "mode": "soon"}),
                        _ => json!({"ok": 5}),
                    })
                } else {
                    Step::Ntf("initialized".into(), json!({}))
                }
            } else {
                match r.below(if batch > 1 { 12 } else { 20 }) {
                    0..=6 => {
                        let id = gen_id(&mut r, &used, &m.done_ids);
                        let mut args = gen_args(&mut r, k);
                        let meth = match r.below(20) {
                            0 => "initialize".to_owned(),
                            1 if r.chance(1, 3) => "shutdown".to_owned(),
                            2 => (*r.pick(&["t/unknown", "", "t", "t/", "shutdow", "exit", "initialized", "t/a ", "workspace/executecommand", "t/unused", "initialize2"])).to_owned(),
                            3..=8 => {
                                let a = match r.below(8) {
                                    0 => json!([]),
                                    1 => json!([args]),
                                    2 => json!(["/r/a", 1]),
                                    3 => json!(["/r/raw", args]),
                                    4 => json!([7]),
                                    5 => json!([RES[r.below(5)], "x"]),
                                    6 => json!([*r.pick(&["/r/none", "/rel", "r/a", "a", "./rel", "rel/", "/r//a", "/r/./ab", "/r/../r/a", "/r", "../none", "raw", "/r/a/", "RAW", "rel/a", "file:///r/a"])]),
                                    _ => json!(["x", k]),
                                };
                                let a = if r.chance(1, 20) { json!([near(&mut r, "/r/a".into()), "x"]) } else { a };
                                let c = (*r.pick(&["c.a", "c.ab", "c.raw", "C.a", "c.none", "c.b", "tinymist.c.b", "tinymist.c.a", "tinymist.getResources", "tinymist.getResources", ""])).to_owned();
                                let c = if r.chance(1, 4) { near(&mut r, c) } else { c };
                                args = json!({"command": near(&mut r, c), "arguments": a});
                                if r.chance(1, 10) {
                                    args = json!({"arguments": []});
                                } else if r.chance(1, 10) {
                                    args = json!({"command": "c.a"});
                                } else if r.chance(1, 10) {
                                    args = json!({"command": "tinymist.getResources"});
                                } else if r.chance(1, 12) {
                                    args = json!({"command": "c.a", "arguments": 3});
                                }
                                "workspace/executeCommand".to_owned()
                            }
                            _ => METHODS[r.below(METHODS.len())].to_owned(),
                        };
                        Step::Req(id, near(&mut r, meth), args)
                    }
                    7..=9 => {
                        let meth = match r.below(10) {
                            0 => "initialized",
                            1 if r.chance(1, 4) => "exit",
                            2 => *r.pick(&["n/unknown", "", "n/", "exit ", "t/a", "shutdown", "initialize"]),
                            _ => NOTIFS[r.below(NOTIFS.len())],
                        };
                        Step::Ntf(near(&mut r, meth.into()), gen_args(&mut r, k))
                    }
                    10 | 11 => {
                        let id = match r.below(4) {
                            0 => json!(r.below(1000)),
                            1 => json!(format!("{}", r.below(3))),
                            _ if !sent_ids.is_empty() => sent_ids[r.below(sent_ids.len())].clone(),
                            _ => json!(0),
                        };
                        Step::Reply(id, json!({"n": k}), r.chance(2, 3))
                    }
                    12 => Step::Event(k as u32),
                    13 => Step::EventOther,
                    14 => Step::Finish(r.below(8), r.chance(2, 3)),
                    15 => Step::Late(if m.done_ids.is_empty() || r.chance(1, 3) { json!(987654) } else { m.done_ids[r.below(m.done_ids.len())].clone() }),
                    16 => Step::RawAnswer(r.below(8)),
                    _ => Step::Send(k as u64),
                }
            };
            let single = !matches!(st, Step::Req(..) | Step::Ntf(..) | Step::Reply(..));
            if single && !steps.is_empty() {
                continue;
            }
            // keep ids of one batch apart: an id is free again once answered, which the model knows only after the step
            if let Step::Req(id, ..) = &st {
                used.insert(id.to_string());
            }
            steps.push(st.clone());
            // model
            match &st {
                Step::Req(id, meth, a) => m.request(id, meth, a),
                Step::Ntf(meth, a) => {
                    m.notification(meth, a);
                    if meth == "exit" {
                        over = true;
                    }
                }
                Step::Reply(id, v, ok) => {
                    if m.ph == Ph::R {
                        if let Some(p) = open_sent.iter().position(|x| x.0 == *id) {
                            let (id, h) = open_sent.remove(p);
                            m.log.push(format!("reply handler {h} id {} ok {ok} {v}", idtext(&id)));
                        }
                    }
                }
                Step::Event(v) => match m.ph {
                    Ph::U => m.log.push(format!("evt u {}", event_text(*v))),
                    Ph::I | Ph::R => m.log.push(format!("evt r {}", event_text(*v))),
                    Ph::S => {}
                },
                _ => {}
            }
            if single {
                break;
            }
            if over {
                // a message behind the exit must stay unread
                if r.chance(1, 2) && batch > 1 {
                    steps.push(Step::Ntf("n/a".into(), json!("after exit")));
                }
                break;
            }
        }
        for s in &steps {
            trace.push(show(s));
        }
        let tr = trace.join("\n");
        cx.case(&tr);
        // the real thing
        let ex = over;
        let first = steps[0].clone();
        let mut sent_now: Option<u64> = None;
        let crossing = ph0 != Ph::R || !matches!(m.ph, Ph::R | Ph::S);
        let ok = cx.guard("session", &tr, || -> Result<(), String> {
            match &first {
                Step::Req(..) | Step::Ntf(..) | Step::Reply(..) => {
                    let (tx, rx) = crossbeam_channel::unbounded();
                    for s in &steps {
                        let msg: Message = match s {
                            Step::Req(id, me, a) => Request { id: rid(id), method: me.clone(), params: a.clone() }.into(),
                            Step::Ntf(me, a) => Notification { method: me.clone(), params: a.clone() }.into(),
                            Step::Reply(id, v, true) => Response::new_ok(rid(id), v.clone()).into(),
                            Step::Reply(id, v, false) => Response::new_err(rid(id), 5, v.to_string()).into(),
                            _ => unreachable!(),
                        };
                        tx.send(msg).unwrap();
                    }
                    let behind = if ex { steps.iter().rev().take_while(|s| !matches!(s, Step::Ntf(m, _) if m == "exit")).count() } else { 0 };
                    let mut inbox = trx.clone();
                    inbox.lsp = rx.clone();
                    // keep the connection open at exit: the loop has to end by itself
                    let keep = if ex { Some(tx) } else { drop(tx); None };
                    let (etx, erx) = crossbeam_channel::unbounded();
                    inbox.event = erx;
                    let res = se.driver.start(inbox, false);
                    drop((keep, etx));
                    if let Err(e) = res {
                        return Err(format!("session failed: {e}"));
                    }
                    if rx.len() != behind {
                        return Err(format!("{} messages left unread, expected {behind}", rx.len()));
                    }
                }
                Step::Event(_) | Step::EventOther => {
                    let (etx, erx) = crossbeam_channel::unbounded::<Event>();
                    let (_tx, rx) = crossbeam_channel::unbounded();
                    match &first {
                        Step::Event(n) => etx.send(match n % 5 { 0 => Box::new(*n), 1 => Box::new(*n as i64), 2 => Box::new(*n as u8), 3 => Box::new('c'), _ => Box::new(*n as u64) }).unwrap(),
                        _ => etx.send(Box::new("other".to_owned())).unwrap(),
                    }
                    drop(etx);
                    let mut inbox = trx.clone();
                    inbox.lsp = rx;
                    inbox.event = erx;
                    se.driver.start(inbox, false).map_err(|e| format!("session failed: {e}"))?;
                }
                Step::Finish(n, ok) => {
                    if !m.waiting_tok.is_empty() {
                        let (tok, id) = m.waiting_tok.remove(n % m.waiting_tok.len());
                        let tx = se.slots.lock().unwrap().remove(&tok);
                        if let Some(tx) = tx {
                            let v = json!({"late": tok});
                            let e = ResponseError { code: -99, message: "late".into(), data: None };
                            let _ = tx.send(if *ok { Ok(v.clone()) } else { Err(e) });
                            m.answer(&id, if *ok { Want::Ok(v) } else { Want::Err(Some(-99), Some("late".into())) });
                        }
                    }
                }
                Step::Late(id) => {
                    // not pending: nothing may be sent
                    if !used.contains(&id.to_string()) {
                        se.client.respond_result(rid(id), Ok(json!("late")));
                        se.client.respond_lsp(Response::new_err(rid(id), 1, "late".into()));
                    }
                }
                Step::RawAnswer(n) => {
                    if !m.waiting_raw.is_empty() {
                        let id = m.waiting_raw.remove(n % m.waiting_raw.len());
                        se.client.respond_result(rid(&id), Ok(json!({"deferred": id})));
                        m.answer(&id, Want::Ok(json!({"deferred": id})));
                    }
                }
                Step::Send(v) => {
                    let h = next_handler;
                    sent_now = Some(h);
                    let log = se.log.clone();
                    let typed: TypedLspClient<S> = se.client.to_typed();
                    let f = move |log: &Log, resp: Response| {
                        let (ok, v) = match (&resp.result, &resp.error) {
                            (Some(v), None) => (true, v.to_string()),
                            (_, Some(e)) => (false, e.message.clone()),
                            _ => (true, "null".into()),
                        };
                        log.lock().unwrap().push(format!("reply handler {h} id {} ok {ok} {v}", resp.id));
                    };
                    if h % 2 == 0 {
                        typed.send_lsp_request::<SendReq>(json!({"p": v}), move |s: &mut S, resp| f(&s.log, resp));
                    } else {
                        se.client.send_lsp_request_::<SendReq>(json!({"p": v}), move |_, resp| f(&log, resp));
                    }
                }
            }
            settle(rt);
            Ok(())
        });
        cx.done();
        match ok {
            None => return,
            Some(Err(e)) => return blame(cx, &["C04"], "LSP session", &tr, "the session goes on until exit or the end of the connection", &e),
            Some(Ok(())) => {}
        }
        // observe
        let mut got: Vec<Value> = vec![];
        let mut reqs: Vec<Value> = vec![];
        while let Ok(msg) = se.out.try_recv() {
            match msg {
                Message::Lsp(lsp::Message::Response(x)) => got.push(serde_json::to_value(x).unwrap()),
                Message::Lsp(lsp::Message::Request(x)) => reqs.push(serde_json::to_value(x).unwrap()),
                o => return blame(cx, &["C03", "C05"], "unexpected message from the server", &tr, "no such message", &format!("{o:?}")),
            }
        }
        // requests sent by the server
        match (sent_now, reqs.len()) {
            (Some(h), 1) => {
                let id = reqs[0]["id"].clone();
                if sent_ids.contains(&id) {
                    return blame(cx, &["C05"], "a request of the server reuses an id", &tr, &format!("an id not in {sent_ids:?}"), &id.to_string());
                }
                if reqs[0]["method"] != "s/req" || !reqs[0]["params"].is_object() {
                    return blame(cx, &["C05"], "request of the server", &tr, "s/req with its params", &reqs[0].to_string());
                }
                sent_ids.push(id.clone());
                open_sent.push((id, h));
                next_handler += 1;
            }
            (None, 0) => {}
            _ => return blame(cx, &["C05"], "requests sent by the server", &tr, &format!("{}", sent_now.is_some() as u8), &format!("{reqs:?}")),
        }
        // answers
        let want = std::mem::take(&mut m.out);
        let mut left = got.clone();
        let mut bad: Vec<(&Value, &Want, char)> = vec![];
        for (id, w, why) in &want {
            used.remove(&id.to_string());
            let p = left.iter().position(|g| {
                g["id"] == *id
                    && match w {
                        Want::Ok(v) => g.get("error").is_none() && g.get("result") == Some(v),
                        Want::Err(c, msg) => {
                            g.get("result").is_none()
                                && g.get("error").is_some()
                                && c.map_or(true, |c| g["error"]["code"] == c)
                                && msg.as_ref().map_or(true, |m| g["error"]["message"] == m.as_str())
                        }
                    }
            });
            match p {
                Some(p) => {
                    left.remove(p);
                    answered += 1;
                }
                None => bad.push((id, w, *why)),
            }
        }
        for (id, w, why) in &bad {
            let other = left.iter().find(|g| g["id"] == **id);
            let props: &[&str] = match (why, other) {
                ('L' | 'I', None) => &["C03", "C04"],
                ('L' | 'I', Some(_)) => &["C04"],
                (_, None) => &["C03", "C16"],
                ('D', Some(g)) if g["error"]["code"] == -32002 => &["C04"],
                ('D', Some(_)) => &["C16"],
                (_, Some(g)) if g["error"]["code"] == -32002 || g["error"]["code"] == -32600 => &["C03", "C04", "C16"],
                _ => &["C03", "C16"],
            };
            blame(cx, props, "an answer is missing or wrong", &tr, &format!("id {id}: {w:?}"), &format!("{got:?}"));
        }
        if !left.iter().all(|g| bad.iter().any(|b| *b.0 == g["id"])) {
            blame(cx, &["C03"], "an answer nobody is waiting for", &tr, &format!("{want:?}"), &format!("{left:?}"));
        }
        let log = std::mem::take(&mut *se.log.lock().unwrap());
        let wl = std::mem::take(&mut m.log);
        let split = |l: &[String]| -> (Vec<String>, Vec<String>) {
            // what an event handler sees before the ready phase is in no property
            l.iter().filter(|s| m.ph == Ph::R || !s.starts_with("evt ")).cloned().partition(|s| s.starts_with("reply "))
        };
        let ((gr, gh), (wr, wh)) = (split(&log), split(&wl));
        if gr != wr {
            blame(cx, &["C05"], "reply handlers called", &tr, &format!("{wr:?}"), &format!("{gr:?}"));
        }
        if gh != wh {
            let props: &[&str] = if crossing { &["C04", "C16"] } else { &["C16"] };
            blame(cx, props, "handlers called", &tr, &format!("{wh:?}"), &format!("{gh:?}"));
        }
        if log != wl || !bad.is_empty() || !left.is_empty() {
            return;
        }
        let pend = !m.waiting_tok.is_empty() || !m.waiting_raw.is_empty();
        if se.client.has_pending_requests() != pend {
            return blame(cx, &["C03"], "pending requests", &tr, &format!("{pend}"), &format!("{}", !pend));
        }
        let ready = m.ph == Ph::R;
        if se.driver.state().is_some() != ready || se.driver.state_mut().is_some() != ready {
            return blame(cx, &["C04"], "phase", &tr, &format!("{:?}", m.ph), "driver.state() disagrees");
        }
    }
    let key = if answered >= 3 && m.ph != Ph::U { trace.join(";") } else { String::new() };
    cx.eval(&key);
}

/// the two queues against plain maps
fn queue_model(cx: &mut Ctx) {
    let mut n = 0;
    while cx.more(n, 1500, 50_000) {
        n += 1;
        let mut r = Rng(cx.rng.next());
        let mut q: req_queue::ReqQueue<u32, u32> = Default::default();
        let (mut inc, mut out): (HashMap<Value, u32>, HashMap<Value, u32>) = Default::default();
        let mut ever: HashSet<Value> = HashSet::new();
        let mut tr = String::new();
        let ids = [json!(1), json!("1"), json!(2), json!(0), json!(-1), json!(""), json!(i32::MAX), json!("x")];
        for k in 0..r.range(3, 40) {
            let id = r.pick(&ids).clone();
            let op = r.below(9);
            tr += &format!("{op}:{id} ");
            cx.case(&tr);
            let bad = cx.guard("request queue", &tr.clone(), || -> Option<String> {
                match op {
                    0 | 1 => {
                        q.incoming.register(rid(&id), k as u32);
                        inc.insert(id.clone(), k as u32);
                        None
                    }
                    2 => {
                        let (g, w) = (q.incoming.complete(&rid(&id)), inc.remove(&id));
                        (g != w).then(|| format!("complete({id}) = {g:?}, expected {w:?}"))
                    }
                    3 => {
                        let (g, w) = (q.incoming.cancel(rid(&id)), inc.remove(&id));
                        match (&g, &w) {
                            (None, None) => None,
                            (Some(resp), Some(_)) if resp.id == rid(&id) && resp.result.is_none() && resp.error.as_ref().map(|e| e.code) == Some(-32800) => None,
                            _ => Some(format!("cancel({id}) = {g:?}, pending {w:?}")),
                        }
                    }
                    4 => (q.incoming.is_completed(&rid(&id)) == inc.contains_key(&id)).then(|| format!("is_completed({id})")),
                    5 | 6 => {
                        let req = q.outgoing.register("m".into(), json!({"a": k}), k as u32);
                        let v = serde_json::to_value(&req.id).unwrap();
                        let fresh = ever.insert(v.clone());
                        out.insert(v.clone(), k as u32);
                        (!fresh || req.method != "m" || req.params != json!({"a": k})).then(|| format!("register gave {req:?}, fresh id: {fresh}"))
                    }
                    7 => {
                        let id = if out.is_empty() || r.chance(1, 3) { id.clone() } else { out.keys().min_by_key(|v| v.to_string()).unwrap().clone() };
                        let (g, w) = (q.outgoing.complete(rid(&id)), out.remove(&id));
                        (g != w).then(|| format!("outgoing complete({id}) = {g:?}, expected {w:?}"))
                    }
                    _ => {
                        let v = json!(q.outgoing.alloc_request_id());
                        (!ever.insert(v.clone())).then(|| format!("alloc_request_id gave {v} again"))
                    }
                }
                .or_else(|| (q.incoming.has_pending() == inc.is_empty()).then(|| "has_pending".into()))
                .or_else(|| ids.iter().find(|i| q.incoming.is_completed(&rid(i)) == inc.contains_key(i)).map(|i| format!("pending state of {i} changed")))
            });
            cx.done();
            match bad {
                None => return,
                Some(Some(b)) => return blame(cx, if b.contains("outgoing") || b.contains("register gave") || b.contains("alloc") { &["C05"] } else { &["C03"] }, "request queue", &tr, "agreement with a plain map", &b),
                _ => {}
            }
        }
        cx.eval(&tr);
    }
}

/// thousands of requests pending at once, both ways, answered in some other order
fn queue_scale(cx: &mut Ctx) {
    let mut r = Rng(cx.rng.next());
    for n in [100usize, 3000, 20000] {
        let show = format!("{n} requests registered, then completed in another order");
        cx.case(&show);
        let order: Vec<usize> = { let mut o: Vec<usize> = (0..n).collect(); for i in (1..n).rev() { o.swap(i, r.below(i + 1)); } o };
        let bad = cx.guard("request queue", &show, || -> Option<(bool, String)> {
            let mut q: req_queue::ReqQueue<usize, usize> = Default::default();
            let mut ids = vec![];
            for k in 0..n {
                q.incoming.register((k as i32).into(), k);
                ids.push(q.outgoing.register("m".into(), json!(k), k).id);
            }
            for (c, k) in order.iter().enumerate() {
                let id: RequestId = (*k as i32).into();
                if c % 7 == 0 {
                    if q.incoming.cancel(id).is_none() {
                        return Some((true, format!("request {k} is not pending any more")));
                    }
                } else if q.incoming.complete(&id) != Some(*k) {
                    return Some((true, format!("request {k} is not pending any more")));
                }
                let g = q.outgoing.complete(ids[*k].clone());
                if g != Some(*k) {
                    return Some((false, format!("the handler of sent request {k} is {g:?}")));
                }
            }
            q.incoming.has_pending().then(|| (true, "has_pending".to_owned()))
        });
        cx.done();
        match bad {
            None => return,
            Some(Some((inc, b))) => return blame(cx, if inc { &["C03"] } else { &["C05"] }, "request queue", &show, "agreement with a plain map", &b),
            _ => {}
        }
        cx.eval(&show);
    }
}

/// several threads answer the same requests: one answer each
fn race(cx: &mut Ctx) {
    let rt = runtime();
    let (ttx, _) = template::<LspMessage>();
    let mut n = 0;
    while cx.more(n, 60, 3000) {
        n += 1;
        let (otx, orx) = crossbeam_channel::unbounded();
        let mut tx = ttx.clone();
        tx.lsp = otx;
        let root = LspClientRoot::new(rt.handle().clone(), tx);
        let c = root.weak();
        let ids: Vec<i32> = (0..20).collect();
        for i in &ids {
            c.register_request("m", &(*i).into(), std::time::Instant::now());
        }
        let hs: Vec<_> = (0..4)
            .map(|t| {
                let (c, ids) = (c.clone(), ids.clone());
                std::thread::spawn(move || {
                    for i in ids {
                        c.respond_result((i).into(), Ok(json!(t)))
                    }
                })
            })
            .collect();
        let died = hs.into_iter().map(|h| h.join().is_err()).any(|x| x);
        let mut got: Vec<String> = orx
            .try_iter()
            .map(|m| match m {
                Message::Lsp(lsp::Message::Response(r)) => r.id.to_string(),
                o => format!("{o:?}"),
            })
            .collect();
        got.sort();
        let mut want: Vec<String> = ids.iter().map(|i| i.to_string()).collect();
        want.sort();
        if died || got != want || c.has_pending_requests() {
            return cx.fail("4 threads answer the same 20 requests", "respond_result from 4 threads", &format!("{want:?}"), &format!("{got:?}"));
        }
        cx.eval(&format!("race {n}"));
    }
}

/// a peer that replies at once, from another thread, to requests sent by several threads, with handlers that send further requests
fn peer(cx: &mut Ctx) {
    let rt = runtime();
    let (ttx, _) = template::<LspMessage>();
    let mut n = 0;
    while cx.more(n, 150, 5000) {
        n += 1;
        let show = format!("three threads send 8 requests each, every reply handler sends one more, the peer replies at once (round {n})");
        cx.case(&show);
        let (otx, orx) = crossbeam_channel::bounded(if n % 2 == 0 { 0 } else { 100 });
        let mut tx = ttx.clone();
        tx.lsp = otx;
        let root = LspClientRoot::new(rt.handle().clone(), tx);
        let c = root.weak();
        let seen: Arc<Mutex<Vec<String>>> = Default::default();
        let replies: Arc<Mutex<Vec<String>>> = Default::default();
        // as the stdio threads do: one takes what is sent, another delivers replies
        let (ptx, prx) = std::sync::mpsc::channel();
        // handlers run there; what they send goes out from a thread of its own so that a full channel cannot stop the peer
        let (c2, seen2, root2) = (c.clone(), seen.clone(), root);
        let peer = std::thread::spawn(move || {
            let mut k = 0;
            while k < 48 {
                let Ok(m) = orx.recv_timeout(std::time::Duration::from_secs(20)) else { break };
                k += 1;
                let _ = ptx.send(m);
            }
        });
        let deliver = std::thread::spawn(move || {
            for m in prx {
                let Message::Lsp(lsp::Message::Request(q)) = m else { continue };
                seen2.lock().unwrap().push(q.id.to_string());
                c2.complete_lsp_request(&mut (), Response::new_ok(q.id.clone(), json!([q.id, q.params])));
                c2.complete_lsp_request(&mut (), Response::new_ok(q.id, json!("again")));
            }
            drop(root2);
        });
        let ts: Vec<_> = (0..3)
            .map(|t| {
                let (c, replies) = (c.clone(), replies.clone());
                std::thread::spawn(move || {
                    let mut subs = vec![];
                    let (stx, srx) = std::sync::mpsc::channel::<(LspClient, u64, Arc<Mutex<Vec<String>>>)>();
                    subs.push(std::thread::spawn(move || {
                        for (c, k, rs) in srx {
                            c.send_lsp_request_::<SendReq>(json!({"p": k}), move |_, resp| {
                                rs.lock().unwrap().push(format!("{k} {}", resp.result.map(|v| v[1]["p"].to_string()).unwrap_or_default()));
                            });
                        }
                    }));
                    for k in 0..8u64 {
                        let k = t * 100 + k;
                        let (c2, rs, stx) = (c.clone(), replies.clone(), stx.clone());
                        c.send_lsp_request_::<SendReq>(json!({"p": k}), move |_, resp| {
                            rs.lock().unwrap().push(format!("{k} {}", resp.result.map(|v| v[1]["p"].to_string()).unwrap_or_default()));
                            let _ = c2.has_pending_requests();
                            let _ = stx.send((c2.clone(), k + 1000, rs.clone()));
                        });
                    }
                    drop(stx);
                    for s in subs {
                        let _ = s.join();
                    }
                })
            })
            .collect();
        let mut died = false;
        for h in ts {
            died |= h.join().is_err();
        }
        died |= peer.join().is_err();
        died |= deliver.join().is_err();
        let seen = seen.lock().unwrap().clone();
        if seen.iter().collect::<HashSet<_>>().len() != seen.len() {
            return cx.fail("ids of requests sent by several threads", &show, "all different", &format!("{seen:?}"));
        }
        let mut got = replies.lock().unwrap().clone();
        got.sort();
        let mut want: Vec<String> = (0..3u64).flat_map(|t| (0..8).flat_map(move |k| [t * 100 + k, t * 100 + k + 1000])).map(|k| format!("{k} {k}")).collect();
        want.sort();
        if died || got != want {
            return cx.fail("every reply reaches its own handler once", &show, &format!("{want:?}"), &format!("{got:?}"));
        }
        cx.done();
        cx.eval(&show);
    }
}

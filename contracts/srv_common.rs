// Shared by the units lspsrv and dapsrv: the driver's maps of handlers and its state.
//@include req_body.rs
//@rw type Option<Box<Args>> => Option<Args>
//@rw type EventMap<Args, Args::S> => VxEventMap
//@rw type ExecuteCmdMap<Args::S> => StrMap<VxHandler>
//@rw type NotifyCmdMap<Args::S> => StrMap<VxNotifyHandler>
//@rw type RegularCmdMap<Args::S> => StrMap<VxHandler>
//@rw type ResourceMap<Args::S> => PathMap<VxHandler>
//@rw type AnySchedulableResponse => SchedulableResponse<JsonValue>
//@rw type anyhow::Result<()> => Result<(), AnyErr>
//@rw type PathBuf => VxPath
//@rw expr serde_json::from_value::<Args::I>($x) => vx_from_value::<Args::I>($x)
//@rw expr from_value::<PathBuf>($x) => vx_from_value::<VxPath>($x)
//@rw expr from_value::<VxPath>($x) => vx_from_value::<VxPath>($x)
//@rw expr serde_json::from_value::<VxPath>($x) => vx_from_value::<VxPath>($x)
//@rw expr from_value::<ExecuteCommandParams>($x) => vx_from_value::<ExecuteCommandParams>($x)
//@rw expr handler($a, $b, $c, $d) => handler.vx_handle($a, $b, $c, $d)
//@rw expr handler($a, $b) => handler.vx_notify($a, $b)
//@rw expr event_handler($a, $b, $c) => event_handler.vx_event($a, $b, $c)
//@rw expr $a.starts_with($b) => vx_starts_with(&$a, $b)
//@rw expr $a.ends_with($b) => vx_ends_with(&$a, $b)
//@rw expr $a.eq_ignore_ascii_case($b) => vx_eq_ignore_case(&$a, $b)
//@rw expr $a == "tinymist.getResources" => $a.vx_eq("tinymist.getResources")
//@rw expr futures::future::MaybeDone::Done($e) => MaybeDone::Done($e)
//@rw expr serde_json::Value::Null => vx_null()
//@rw expr &*$r.method => $r.method.as_str()
//@rw expr &*$r.command => $r.command.as_str()
//@rw expr &*$r.event => $r.event.as_str()
//@rw expr args.initialize($p) => args.initialize($p)
//@rw expr args.first() => vx_first(&args)
//@rw expr $u.as_deref_mut() => vx_as_mut($u)
//@rw expr event.as_ref().type_id() => event.vx_type_id()
//@rw expr $p.as_path() => &$p
//@rw expr std::mem::swap($a, $b) => vstd_swap($a, $b)
//@thread vx_handle vx_notify vx_event initialize recv schedule_tail complete_lsp_request complete_dap_request on_lsp_request on_request on_notification on_event on_execute_command get_resources start_
verus! {
use vstd::string::*;
/// two texts with the same characters are the same text
broadcast axiom fn axiom_str_ext(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;

// ---- decoding ---------------------------------------------------------------
/// what serde decodes a value to, if it decodes
uninterp spec fn decode<T>(v: JsonValue) -> Option<T>;
#[verifier::external_body]
#[derive(Debug)]
struct DeErr { x: u8 }
#[verifier::external_body]
fn vx_from_value<T>(v: JsonValue) -> (r: Result<T, DeErr>)
    ensures r is Ok <==> decode::<T>(v) is Some, r is Ok ==> decode::<T>(v) == Some(r->Ok_0) { unimplemented!() }
#[verifier::external_body]
fn vx_null() -> (r: JsonValue) ensures r == to_json(None::<()>), json_ok(None::<()>) { unimplemented!() }
fn vx_first(v: &Vec<JsonValue>) -> (r: Option<&JsonValue>)
    ensures v@.len() == 0 <==> r is None, r is Some ==> *r->0 == v@[0]
{ if v.len() == 0 { None } else { Some(&v[0]) } }
#[verifier::external_body]
struct VxPath { x: u8 }
fn vstd_swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { core::mem::swap(a, b) }
#[verifier::external_body]
struct AnyErr { x: u8 }

// ---- the error constructors ---------------------------------------------------
impl VxDisplay for DeErr {
    uninterp spec fn text(self) -> Str;
    #[verifier::external_body]
    fn to_string(self) -> (r: Str) { unimplemented!() }
}
//@fn crates/sync-lsp/src/server.rs not_initialized C04 C06
//@ret r
ensures r.code == -32002,
//@end
//@fn crates/sync-lsp/src/server.rs invalid_request C04 C06 C16
//@sig fn invalid_request<D: VxDisplay>(msg: D) -> (r: ResponseError)
ensures r.code == -32600, r.message == msg.text(),
//@end
//@fn crates/sync-lsp/src/server.rs invalid_params C16
//@sig fn invalid_params<D: VxDisplay>(msg: D) -> (r: ResponseError)
ensures r.code == -32602, r.message == msg.text(),
//@end
//@fn crates/sync-lsp/src/server.rs method_not_found C06 C16
//@ret r
ensures r.code == -32601, r.message == lit_text("method not found"@),
//@end
//@fn crates/sync-lsp/src/server.rs just_result C04 C06 C16
//@sig fn just_result<T>(res: Result<T, ResponseError>) -> (r: SchedulableResponse<T>)
ensures r == Ok::<MaybeDone<T>, ResponseError>(MaybeDone::Done(res)),
//@end
//@fn crates/sync-lsp/src/server.rs just_ok C04 C06 C16
//@sig fn just_ok<T>(res: T) -> (r: SchedulableResponse<T>)
ensures r == Ok::<MaybeDone<T>, ResponseError>(MaybeDone::Done(Ok(res))),
//@end

// ---- handlers -------------------------------------------------------------------
enum Arg { One(JsonValue), Many(Seq<JsonValue>) }
/// what the driver did with a handler: everything a property can ask about
enum Call {
    Init { with: InitArg, gave: SchedulableResponse<JsonValue> },
    Req { h: VxHandler, id: RequestId, params: Arg, before: Q, res: ScheduledResult, after: Q, sent: Seq<Message>, open: bool },
    Ntf { ntf: VxNotifyHandler, body: JsonValue },
}
/// decoded initialization arguments, of whatever type
#[verifier::external_body]
struct InitArg { x: u8 }
uninterp spec fn init_arg<I>(i: I) -> InitArg;
trait ArgOf: Sized { spec fn arg(self) -> Arg; }
impl ArgOf for JsonValue { spec fn arg(self) -> Arg { Arg::One(self) } }
impl ArgOf for Vec<JsonValue> { spec fn arg(self) -> Arg { Arg::Many(self@) } }
#[verifier::external_body]
struct VxHandler { x: u8 }
#[verifier::external_body]
struct VxNotifyHandler { x: u8 }
#[verifier::external_body]
struct VxEventHandler { x: u8 }
/// handlers reach the queue and the connection through the client object only; they never reach the driver
spec fn kept(o: World, n: World) -> bool { n.inbox == o.inbox && n.taken == o.taken && !n.locked && n.q.outgoing.wf() }
impl VxHandler {
    #[verifier::external_body]
    fn vx_handle<S, P: ArgOf>(&self, s: &mut S, c: &LspClient, id: RequestId, p: P, Tracked(w): Tracked<&mut World>) -> (r: ScheduledResult)
        requires !old(w).locked, old(w).q.outgoing.wf(),
        ensures kept(*old(w), *final(w)),
            final(w).calls == old(w).calls.push(Call::Req { h: *self, id, params: p.arg(), before: old(w).q, res: r, after: final(w).q, sent: final(w).sent, open: final(w).open }),
    { unimplemented!() }
}
impl VxNotifyHandler {
    #[verifier::external_body]
    fn vx_notify<S>(&self, s: &mut S, p: JsonValue, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ResponseError>)
        requires !old(w).locked, old(w).q.outgoing.wf(),
        ensures kept(*old(w), *final(w)), final(w).calls == old(w).calls.push(Call::Ntf { ntf: *self, body: p }),
    { unimplemented!() }
}
impl VxEventHandler {
    #[verifier::external_body]
    fn vx_event<A, S>(&self, s: ServiceState<A, S>, c: &LspClient, e: VxEvent, Tracked(w): Tracked<&mut World>) -> (r: Result<(), AnyErr>)
        requires !old(w).locked, old(w).q.outgoing.wf(),
        ensures kept(*old(w), *final(w)), final(w).calls == old(w).calls,
    { unimplemented!() }
}
/// the program's own initializer
trait Initializer: Sized {
    type I;
    type S;
    fn initialize(self, req: Self::I, Tracked(w): Tracked<&mut World>) -> (r: (Self::S, SchedulableResponse<JsonValue>))
        requires !old(w).locked, old(w).q.outgoing.wf(),
        ensures kept(*old(w), *final(w)), final(w).open == old(w).open, final(w).sent == old(w).sent, final(w).runs == old(w).runs,
            final(w).q == old(w).q,
            r.1 is Ok ==> !(r.1->Ok_0 is Gone),
            final(w).calls == old(w).calls.push(Call::Init { with: init_arg(req), gave: r.1 }),
    ;
}
/// a HashMap keyed by text
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
struct StrMap<V> { v: core::marker::PhantomData<V> }
impl<V> StrMap<V> {
    uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&V>)
        ensures r == (if self@.dom().contains(k@) { Some(&self@[k@]) } else { None::<&V> }) { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
}
/// a HashMap keyed by path
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
struct PathMap<V> { v: core::marker::PhantomData<V> }
impl<V> PathMap<V> {
    uninterp spec fn view(&self) -> Map<VxPath, V>;
    #[verifier::external_body]
    fn get(&self, k: &VxPath) -> (r: Option<&V>)
        ensures r == (if self@.dom().contains(*k) { Some(&self@[*k]) } else { None::<&V> }) { unimplemented!() }
}
#[verifier::external_body]
struct VxTypeId { x: u8 }
#[verifier::external_body]
struct VxEvent { x: u8 }
impl VxEvent {
    #[verifier::external_body]
    fn vx_type_id(&self) -> VxTypeId { unimplemented!() }
}
#[verifier::external_body]
struct VxEventMap { x: u8 }
impl VxEventMap {
    #[verifier::external_body]
    fn get(&self, k: &VxTypeId) -> (r: Option<&VxEventHandler>) { unimplemented!() }
}
fn vx_as_mut<A>(a: &mut Option<A>) -> (r: Option<&mut A>)
    ensures (*old(a)) is Some <==> (*final(a)) is Some
{ a.as_mut() }

//@type crates/sync-lsp/src/server.rs State
//@type crates/sync-lsp/src/server.rs ServiceState
//@type crates/sync-lsp/src/server.rs LsDriver

impl<A, S> State<A, S> {
    /// the initializer is there until it was used
    spec fn wf(self) -> bool { self is Uninitialized ==> self->Uninitialized_0 is Some }

    //@fn crates/sync-lsp/src/server.rs State::opt C04
    //@ret r
    ensures r is Some <==> self is Ready, r is Some ==> *r->0 == self->Ready_0,
    //@end

    //@fn crates/sync-lsp/src/server.rs State::opt_mut C04 C16
    //@ret r
    ensures
        r is Some <==> (*old(self)) is Ready,
        r is Some ==> *r->0 == (*old(self))->Ready_0 && *final(self) == State::<A, S>::Ready(*final(r->0)),
        r is None ==> *final(self) == *old(self),
    //@end
}
impl LspClient {
    #[verifier::external_body]
    fn start_notification(&self, m: &Str) { unimplemented!() }
    #[verifier::external_body]
    fn stop_notification(&self, m: &Str, t: Instant, r: Result<(), ResponseError>) { unimplemented!() }
}
spec fn is_err_code(m: Message, k: MessageKind, id: RequestId, code: int) -> bool {
    match k {
        MessageKind::Lsp => m is LspResponse && m->LspResponse_0.id == id && m->LspResponse_0.result is None
            && m->LspResponse_0.error is Some && m->LspResponse_0.error->0.code == code,
        MessageKind::Dap => m is DapResponse && m->DapResponse_0.request_seq == id_num(id) && !m->DapResponse_0.success
            && (code == -32601 ==> m->DapResponse_0.message == Some(lit_text("method not found"@))),
    }
}
/// no other request is touched
spec fn others_kept(o: World, n: World, id: RequestId) -> bool {
    forall|k: RequestId| k != id ==> (#[trigger] n.waiting(k) <==> o.waiting(k))
}
/// the request is answered at once by one message satisfying `ok`; nothing else happens
spec fn answered_now(o: World, n: World, id: RequestId, ok: spec_fn(Message) -> bool) -> bool {
    &&& !n.waiting(id) && others_kept(o, n, id)
    &&& n.open == o.open && n.runs == o.runs && n.q.outgoing == o.q.outgoing
    &&& if o.open { n.sent.len() == o.sent.len() + 1 && n.sent == o.sent.push(n.sent.last()) && ok(n.sent.last()) } else { n.sent == o.sent }
}
/// the request was refused: answered by an error, no handler ran
spec fn refused(o: World, n: World, k: MessageKind, id: RequestId, code: int) -> bool {
    &&& answered_now(o, n, id, |m: Message| is_err_code(m, k, id, code))
    &&& n.calls == o.calls
}
/// the outcome of a scheduled response
spec fn sched_out(r: SchedulableResponse<JsonValue>) -> Result<JsonValue, ResponseError> {
    match r { Ok(m) => outcome(m), Err(e) => Err(e) }
}
/// the initializer ran once, with the decoded arguments, and what it gave was answered
spec fn initialized(o: World, n: World, k: MessageKind, id: RequestId, arg: InitArg) -> bool {
    &&& n.calls.len() == o.calls.len() + 1
    &&& n.calls == o.calls.push(n.calls.last())
    &&& n.calls.last() is Init && n.calls.last()->with == arg
    &&& answered_now(o, n, id, |m: Message| answer_ok(k, id, sched_out(n.calls.last()->gave), m))
}
/// exactly the handler `h` ran, with the id and `params`, after the request was registered; what it left to answer was answered
spec fn handled(o: World, n: World, k: MessageKind, h: VxHandler, id: RequestId, params: Arg) -> bool {
    &&& n.calls.len() == o.calls.len() + 1
    &&& n.calls == o.calls.push(n.calls.last())
    &&& n.calls.last() is Req
    &&& n.calls.last()->h == h && n.calls.last()->id == id && n.calls.last()->params == params
    &&& n.calls.last()->before.incoming.p().dom() == o.q.incoming.p().dom().insert(id)
    &&& n.q.outgoing.wf()
    &&& ({
        let res = n.calls.last()->res;
        let q = n.calls.last()->after;
        let sent = n.calls.last()->sent;
        let open = n.calls.last()->open;
        if res is Ok && res->Ok_0 is Some {
            n.q == q && n.sent == sent
        } else {
            &&& n.q.incoming.p() == q.incoming.p().remove(id) && n.q.outgoing == q.outgoing
            &&& if q.incoming.p().dom().contains(id) && open {
                n.sent.len() == sent.len() + 1 && n.sent == sent.push(n.sent.last()) && answer_ok(k, id, res, n.sent.last())
            } else { n.sent == sent }
        }
    })
}
}

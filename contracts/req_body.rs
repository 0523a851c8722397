// Request queues and the client object (C03, C05): shared by the units req, lspsrv and dapsrv.
//@include sl_prelude.rs
//@rw type String => Str
//@rw type serde_json :: Value => JsonValue
//@rw type lsp::Response => Response
//@rw type dap::Response => DapResponse
//@rw type lsp::Request => Request
//@rw type tokio::runtime::Handle => VxHandle
//@rw type Weak<ConnectionTx> => VxWeak
//@rw type Arc<Mutex<ReqQueue>> => VxLock
//@rw type LspResult<$t> => Result<$t, ResponseError>
//@rw expr lsp::Response::new_ok($a, $b) => Response::new_ok($a, $b)
//@rw expr lsp::Response::new_err($a, $b, $c) => Response::new_err($a, $b, $c)
//@rw expr dap::Response::success($a, $b) => DapResponse::success($a, $b)
//@rw expr dap::Response::error($a, $b, $c) => DapResponse::error($a, $b, $c)
//@rw expr $x.into() => $x.vx_into()
//@rw expr serde_json::to_value($x) => vx_to_value($x)
//@rw expr $m.to_owned() => vx_string(&$m)
//@rw expr $m.to_string() => VxDisplay::to_string($m)
//@rw expr String::from($m) => vx_string(&$m)
//@rw expr Str::from($m) => vx_string(&$m)
//@option guards inline_async and_then_result
//@thread lock lock_tmp vx_unlock upgrade send respond respond_any_result respond_result complete_lsp_request complete_dap_request vx_call register_request schedule has_pending_requests send_request send_request_ send_lsp_request send_notification send_notification_ send_event respond_lsp
verus! {

//@type crates/sync-lsp/src/msg.rs IdRepr
//@type crates/sync-lsp/src/msg.rs RequestId
//@type crates/sync-lsp/src/msg.rs ResponseError
//@type crates/sync-lsp/src/msg.rs ErrorCode #[derive(Clone, Copy)]
//@type crates/sync-lsp/src/msg.rs MessageKind #[derive(Clone, Copy)]
//@type crates/sync-lsp/src/lsp.rs Request
//@type crates/sync-lsp/src/lsp.rs Response
//@type crates/sync-lsp/src/req_queue.rs Incoming #[verifier::accept_recursive_types(I)]
//@type crates/sync-lsp/src/req_queue.rs Outgoing #[verifier::accept_recursive_types(O)]
//@type crates/sync-lsp/src/req_queue.rs ReqQueue #[verifier::accept_recursive_types(I)] #[verifier::accept_recursive_types(O)]

/// the id a number stands for
spec fn int_id(i: int) -> RequestId {
    if i32::MIN <= i <= i32::MAX { RequestId(IdRepr::I32(i as i32)) } else { RequestId(IdRepr::I64(i as i64)) }
}
/// ids made from numbers are in the canonical form
spec fn canon(id: RequestId) -> bool { match id.0 { IdRepr::I64(x) => !(i32::MIN <= x <= i32::MAX), _ => true } }
spec fn id_num(id: RequestId) -> int { match id.0 { IdRepr::I32(x) => x as int, IdRepr::I64(x) => x as int, _ => 0 } }

impl RequestId {
    #[verifier::external_body]
    fn clone(&self) -> (r: RequestId) ensures r == *self { unimplemented!() }
    //@fn crates/sync-lsp/src/msg.rs From<i32>@RequestId::from as from_i32 C05 C06
    //@ret r
    ensures r == int_id(id as int),
    //@end
    //@fn crates/sync-lsp/src/msg.rs From<i64>@RequestId::from as from_i64 C05 C06
    //@ret r
    ensures r == int_id(id as int),
    //@end
    //@fn crates/sync-lsp/src/msg.rs RequestId::dap C03 C06
    //@ret r
    requires !(id.0 is String),
    ensures r == id_num(id),
    //@end
}

impl<I> Incoming<I> {
    #[verifier::inline]
    spec fn p(&self) -> Map<RequestId, I> { self.pending@ }

    //@fn crates/sync-lsp/src/req_queue.rs Incoming::register C03
    ensures final(self).p() == old(self).p().insert(id, data),
    //@end

    //@fn crates/sync-lsp/src/req_queue.rs Incoming::has_pending C03
    //@ret r
    ensures r == !(self.p().dom() =~= Set::<RequestId>::empty()),
    //@end

    //@fn crates/sync-lsp/src/req_queue.rs Incoming::is_completed C03
    //@ret r
    ensures r == !self.p().dom().contains(*id),
    //@end

    //@fn crates/sync-lsp/src/req_queue.rs Incoming::complete C03
    //@ret r
    ensures
        final(self).p() == old(self).p().remove(*id),
        !old(self).p().dom().contains(*id) ==> final(self).p() == old(self).p(),
        r == (if old(self).p().dom().contains(*id) { Some(old(self).p()[*id]) } else { None }),
    //@end

    //@fn crates/sync-lsp/src/req_queue.rs Incoming::cancel C03
    //@ret r
    ensures
        final(self).p() == old(self).p().remove(id),
        r is Some <==> old(self).p().dom().contains(id),
        r is Some ==> r->0.id == id && r->0.result is None && r->0.error is Some && r->0.error->0.code == -32800,
    //@end
}

impl<O> Outgoing<O> {
    #[verifier::inline]
    spec fn p(&self) -> Map<RequestId, O> { self.pending@ }
    /// every id handed out so far is below next_id
    spec fn wf(&self) -> bool {
        &&& self.next_id >= 0
        &&& forall|k: RequestId| #[trigger] self.p().dom().contains(k) ==> k.0 is I32 && 0 <= k.0->I32_0 < self.next_id
    }
    //@fn crates/sync-lsp/src/req_queue.rs Outgoing::alloc_request_id C05
    //@ret r
    requires old(self).wf(), old(self).next_id < i32::MAX,
    ensures
        r == old(self).next_id,
        final(self).next_id == old(self).next_id + 1,
        final(self).p() == old(self).p(),
        final(self).wf(),
    //@end

    //@fn crates/sync-lsp/src/req_queue.rs Outgoing::register C05
    //@rw expr RequestId::from($x) => RequestId::from_i32($x)
    //@sig fn register<P>(&mut self, method: Str, params: P, data: O) -> (r: Request)
    requires old(self).wf(), old(self).next_id < i32::MAX, json_ok(params),
    ensures
        r.id == int_id(old(self).next_id as int),
        r.method == method,
        r.params == to_json(params),
        !old(self).p().dom().contains(r.id),
        final(self).p() == old(self).p().insert(r.id, data),
        final(self).next_id == old(self).next_id + 1,
        final(self).wf(),
    //@end

    //@fn crates/sync-lsp/src/req_queue.rs Outgoing::complete C05
    //@ret r
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).p() == old(self).p().remove(id),
        !old(self).p().dom().contains(id) ==> final(self).p() == old(self).p(),
        final(self).next_id == old(self).next_id,
        r == (if old(self).p().dom().contains(id) { Some(old(self).p()[id]) } else { None }),
    //@end
}

// ---- serde_json::to_value -------------------------------------------------
#[verifier::external_body]
#[derive(Debug)]
struct SerErr { x: u8 }
#[verifier::external_body]
fn vx_to_value<P>(p: P) -> (r: Result<JsonValue, SerErr>)
    ensures r is Ok <==> json_ok(p), r is Ok ==> r->Ok_0 == to_json(p),
{ unimplemented!() }
/// a JSON value is its own JSON
broadcast axiom fn axiom_json_self(v: JsonValue) ensures #[trigger] to_json(v) == v;
broadcast axiom fn axiom_json_self_ok(v: JsonValue) ensures #[trigger] json_ok(v);
/// things with a text (`fmt::Display`)
trait VxDisplay: Sized {
    spec fn text(self) -> Str;
    fn to_string(self) -> (r: Str) ensures r == self.text();
}
uninterp spec fn lit_text(s: Seq<char>) -> Str;
impl VxDisplay for &str {
    spec fn text(self) -> Str { lit_text(self@) }
    #[verifier::external_body]
    fn to_string(self) -> (r: Str) { unimplemented!() }
}
impl VxDisplay for Str {
    spec fn text(self) -> Str { self }
    fn to_string(self) -> (r: Str) { self }
}
impl<'a> VxDisplay for &'a Str {
    spec fn text(self) -> Str { *self }
    #[verifier::external_body]
    fn to_string(self) -> (r: Str) { unimplemented!() }
}
impl VxDisplay for SerErr {
    uninterp spec fn text(self) -> Str;
    #[verifier::external_body]
    fn to_string(self) -> (r: Str) { unimplemented!() }
}
// ---- error constructors
//@fn crates/sync-lsp/src/server.rs resp_err C03 C04 C16
//@sig fn resp_err<D: VxDisplay>(code: ErrorCode, msg: D) -> (r: ResponseError)
ensures r.code == code as i32, r.message == msg.text(), r.data is None,
//@end
//@fn crates/sync-lsp/src/server.rs internal_error C03 C04 C16
//@sig fn internal_error<D: VxDisplay>(msg: D) -> (r: ResponseError)
ensures r.code == -32603, r.message == msg.text(), r.data is None,
//@end

impl Request {
    //@fn crates/sync-lsp/src/lsp.rs Request::new C05
    //@sig fn new<P>(id: RequestId, method: Str, params: P) -> (r: Request)
    requires json_ok(params),
    ensures r.id == id, r.method == method, r.params == to_json(params),
    //@end
}
impl Response {
    //@fn crates/sync-lsp/src/lsp.rs Response::new_ok C03
    //@sig fn new_ok<R>(id: RequestId, result: R) -> (r: Response)
    requires json_ok(result),
    ensures r == (Response { id, result: Some(to_json(result)), error: None }),
    //@end
    //@fn crates/sync-lsp/src/lsp.rs Response::new_err C03
    //@ret r
    ensures r == (Response { id, result: None, error: Some(ResponseError { code, message, data: None }) }),
    //@end
}
/// dapts::Response and its constructors (a dependency: assumed)
struct DapResponse { request_seq: i64, success: bool, message: Option<Str>, body: Option<JsonValue> }
impl DapResponse {
    #[verifier::external_body]
    fn success(seq: i64, body: JsonValue) -> (r: DapResponse)
        ensures r.request_seq == seq, r.success, r.message is None, r.body == Some(body) { unimplemented!() }
    #[verifier::external_body]
    fn error(seq: i64, message: Option<Str>, body: Option<JsonValue>) -> (r: DapResponse)
        ensures r.request_seq == seq, !r.success, r.message == message { unimplemented!() }
}
enum Message { LspResponse(Response), LspRequest(Request), DapResponse(DapResponse) }
trait VxInto<T> {
    spec fn spec_into(self) -> T;
    fn vx_into(self) -> (r: T) ensures r == self.spec_into();
}
impl VxInto<Message> for Response {
    spec fn spec_into(self) -> Message { Message::LspResponse(self) }
    fn vx_into(self) -> (r: Message) { Message::LspResponse(self) }
}
impl VxInto<Message> for Request {
    spec fn spec_into(self) -> Message { Message::LspRequest(self) }
    fn vx_into(self) -> (r: Message) { Message::LspRequest(self) }
}
impl VxInto<Message> for DapResponse {
    spec fn spec_into(self) -> Message { Message::DapResponse(self) }
    fn vx_into(self) -> (r: Message) { Message::DapResponse(self) }
}
enum LspOrDapResponse { Lsp(Response), Dap(DapResponse) }
impl VxInto<LspOrDapResponse> for Response {
    spec fn spec_into(self) -> LspOrDapResponse { LspOrDapResponse::Lsp(self) }
    fn vx_into(self) -> (r: LspOrDapResponse) { LspOrDapResponse::Lsp(self) }
}
impl VxInto<LspOrDapResponse> for DapResponse {
    spec fn spec_into(self) -> LspOrDapResponse { LspOrDapResponse::Dap(self) }
    fn vx_into(self) -> (r: LspOrDapResponse) { LspOrDapResponse::Dap(self) }
}
impl VxInto<RequestId> for i64 {
    spec fn spec_into(self) -> RequestId { int_id(self as int) }
    fn vx_into(self) -> (r: RequestId) { RequestId::from_i64(self) }
}
impl VxInto<RequestId> for i32 {
    spec fn spec_into(self) -> RequestId { int_id(self as int) }
    fn vx_into(self) -> (r: RequestId) { RequestId::from_i32(self) }
}

// ---- the outside world of a client -----------------------------------------
/// a registered reply handler (a boxed closure)
#[verifier::external_body]
struct ReqHandler { x: u8 }
struct Run { h: ReqHandler, resp: LspOrDapResponse, q: Q }
type Q = ReqQueue<(Str, Instant), ReqHandler>;
tracked struct World {
    ghost q: Q,          // content of the mutex
    ghost locked: bool,  // somebody (only this thread, see DESIGN) holds it
    ghost open: bool,    // the connection's receiving end is alive
    ghost sent: Seq<Message>,
    ghost runs: Seq<Run>,
    ghost calls: Seq<Call>,        // what the driver handed to handlers (units lspsrv, dapsrv)
    ghost inbox: Seq<InMsg>,       // what is still to be received
    ghost taken: Seq<InMsg>,       // what was received
}
#[verifier::external_body]
struct VxHandle { x: u8 }
impl VxHandle {
    /// the spawned future runs to its end once; extraction puts its body in place of the argument
    fn spawn(&self, x: ()) {}
}
#[verifier::external_body]
struct VxWeak { x: u8 }
struct VxTx { lsp: VxChan }
#[verifier::external_body]
struct VxChan { x: u8 }
#[verifier::external_body]
struct VxLock { x: u8 }
impl VxWeak {
    #[verifier::external_body]
    fn upgrade(&self, Tracked(w): Tracked<&mut World>) -> (r: Option<VxTx>)
        ensures *final(w) == *old(w), r is Some <==> old(w).open { unimplemented!() }
}
#[verifier::external_body]
struct SendErr { x: u8 }
impl VxChan {
    #[verifier::external_body]
    fn send(&self, m: Message, Tracked(w): Tracked<&mut World>) -> (r: Result<(), SendErr>)
        ensures old(w).open ==> r is Ok,
            r is Ok ==> *final(w) == (World { sent: old(w).sent.push(m), ..*old(w) }),
            r is Err ==> *final(w) == *old(w),
    { unimplemented!() }
}
impl VxLock {
    #[verifier::external_body]
    fn lock(&self, Tracked(w): Tracked<&mut World>) -> (r: &mut Q)
        requires !old(w).locked,
        ensures *r == old(w).q, *final(w) == (World { q: *final(r), locked: true, ..*old(w) }),
    { unimplemented!() }
    #[verifier::external_body]
    fn lock_tmp(&self, Tracked(w): Tracked<&mut World>) -> (r: &mut Q)
        requires !old(w).locked,
        ensures *r == old(w).q, *final(w) == (World { q: *final(r), ..*old(w) }),
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_unlock(Tracked(w): Tracked<&mut World>) ensures *final(w) == (World { locked: false, ..*old(w) }) { unimplemented!() }
impl ReqHandler {
    /// running a handler: it may take the lock, send, register; what matters is that it runs, with what, and when
    #[verifier::external_body]
    fn vx_call<S>(self, s: &mut S, resp: LspOrDapResponse, Tracked(w): Tracked<&mut World>)
        requires !old(w).locked,
        ensures final(w).runs == old(w).runs.push(Run { h: self, resp, q: old(w).q }), !final(w).locked,
            final(w).q.outgoing.wf(), final(w).calls == old(w).calls, final(w).inbox == old(w).inbox, final(w).taken == old(w).taken,
    { unimplemented!() }
}
uninterp spec fn handler_of<H>(h: H) -> ReqHandler;
#[verifier::external_body]
fn vx_box_handler<H>(h: H) -> (r: ReqHandler) ensures r == handler_of(h) { unimplemented!() }

//@type crates/sync-lsp/src/server.rs LspClient

// ---- futures ---------------------------------------------------------------
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct VxFut<T> { x: core::marker::PhantomData<T> }
impl<T> VxFut<T> { uninterp spec fn out(&self) -> Result<T, ResponseError>; }
#[verifier::external_body]
fn vx_await<T>(f: VxFut<T>) -> (r: Result<T, ResponseError>) ensures r == f.out() { unimplemented!() }
#[verifier::accept_recursive_types(T)]
enum MaybeDone<T> { Future(VxFut<T>), Done(Result<T, ResponseError>), Gone }
use MaybeDone::*;
type SchedulableResponse<T> = Result<MaybeDone<T>, ResponseError>;
type ScheduledResult = Result<Option<()>, ResponseError>;
spec fn outcome<T>(m: MaybeDone<T>) -> Result<T, ResponseError> {
    match m { MaybeDone::Done(r) => r, MaybeDone::Future(f) => f.out(), MaybeDone::Gone => arbitrary() }
}

impl World {
    spec fn waiting(self, id: RequestId) -> bool { self.q.incoming.p().dom().contains(id) }
}
/// the effect of answering `id` with a message satisfying `ok`
spec fn answered(o: World, n: World, id: RequestId, ok: spec_fn(Message) -> bool) -> bool {
    &&& n.locked == o.locked && n.open == o.open && n.runs == o.runs && n.q.outgoing == o.q.outgoing
    &&& n.calls == o.calls && n.inbox == o.inbox && n.taken == o.taken
    &&& n.q.incoming.p() == o.q.incoming.p().remove(id)
    &&& !o.waiting(id) ==> n.q.incoming.p() == o.q.incoming.p()
    &&& o.waiting(id) && o.open ==> n.sent.len() == o.sent.len() + 1 && n.sent == o.sent.push(n.sent.last()) && ok(n.sent.last())
    &&& !(o.waiting(id) && o.open) ==> n.sent == o.sent
}
/// what the answer to `id` with outcome `r` has to be
spec fn answer_ok<T>(k: MessageKind, id: RequestId, r: Result<T, ResponseError>, m: Message) -> bool {
    let res = match r { Ok(t) => if json_ok(t) { Ok(to_json(t)) } else { Err(-32603int) }, Err(e) => Err(e.code as int) };
    match k {
        MessageKind::Lsp => m is LspResponse && m->LspResponse_0.id == id && match res {
            Ok(v) => m->LspResponse_0.result == Some(v) && m->LspResponse_0.error is None,
            Err(c) => m->LspResponse_0.result is None && m->LspResponse_0.error is Some
                && m->LspResponse_0.error->0.code == c
                && (r is Err ==> m->LspResponse_0.error->0.message == r->Err_0.message),
        },
        MessageKind::Dap => m is DapResponse && m->DapResponse_0.request_seq == id_num(id) && match res {
            Ok(v) => m->DapResponse_0.success && m->DapResponse_0.body == Some(v),
            Err(c) => !m->DapResponse_0.success && (r is Err ==> m->DapResponse_0.message == Some(r->Err_0.message)),
        },
    }
}

impl LspClient {
    #[verifier::external_body]
    fn clone(&self) -> (r: LspClient) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    fn start_request(&self, id: &RequestId, m: &Str) { unimplemented!() }
    #[verifier::external_body]
    fn stop_request(&self, id: &RequestId, m: &Str, t: Instant) { unimplemented!() }
    spec fn id_fits(self, id: RequestId) -> bool { self.msg_kind is Dap ==> !(id.0 is String) }

    //@fn crates/sync-lsp/src/server.rs LspClient::has_pending_requests C03
    //@world Tracked(w): Tracked<&mut World>
    //@ret r
    requires !old(w).locked,
    ensures r == !(old(w).q.incoming.p().dom() =~= Set::<RequestId>::empty()), *final(w) == *old(w),
    //@end

    //@fn crates/sync-lsp/src/server.rs LspClient::register_request C03
    //@sig fn register_request(&self, method: &Str, id: &RequestId, received_at: Instant, Tracked(w): Tracked<&mut World>)
    requires !old(w).locked,
    ensures
        final(w).q.incoming.p().dom() == old(w).q.incoming.p().dom().insert(*id),
        forall|k: RequestId| k != *id && #[trigger] old(w).waiting(k) ==> final(w).q.incoming.p()[k] == old(w).q.incoming.p()[k],
        final(w).q.outgoing == old(w).q.outgoing, !final(w).locked,
        final(w).sent == old(w).sent, final(w).runs == old(w).runs, final(w).open == old(w).open,
        final(w).calls == old(w).calls, final(w).inbox == old(w).inbox, final(w).taken == old(w).taken,
    //@end

    //@fn crates/sync-lsp/src/server.rs LspClient::respond C03
    //@world Tracked(w): Tracked<&mut World>
    requires !old(w).locked,
    ensures answered(*old(w), *final(w), id, |m: Message| m == response),
    //@end

    //@fn crates/sync-lsp/src/server/lsp_srv.rs LspClient::respond_lsp C03
    //@world Tracked(w): Tracked<&mut World>
    requires !old(w).locked,
    ensures answered(*old(w), *final(w), response.id, |m: Message| m == Message::LspResponse(response)),
    //@end

    //@fn crates/sync-lsp/src/server.rs LspClient::respond_any_result C03
    //@world Tracked(w): Tracked<&mut World>
    //@entry
        broadcast use {axiom_json_self, axiom_json_self_ok};
    //@spec
    requires !old(w).locked, self.id_fits(id),
    ensures answered(*old(w), *final(w), id, |m: Message| answer_ok(self.msg_kind, id, result, m)),
    //@end

    //@fn crates/sync-lsp/src/server.rs LspClient::respond_result C03
    //@sig fn respond_result<T>(&self, id: RequestId, result: Result<T, ResponseError>, Tracked(w): Tracked<&mut World>)
    //@entry
        broadcast use {axiom_json_self, axiom_json_self_ok};
    //@spec
    requires !old(w).locked, self.id_fits(id),
    ensures answered(*old(w), *final(w), id, |m: Message| answer_ok(self.msg_kind, id, result, m)),
    //@end

    //@fn crates/sync-lsp/src/server.rs LspClient::schedule C03
    //@sig fn schedule<T>(&self, req_id: RequestId, resp: SchedulableResponse<T>, Tracked(w): Tracked<&mut World>) -> (r: ScheduledResult)
    requires !old(w).locked, self.id_fits(req_id), resp is Ok ==> !(resp->Ok_0 is Gone),
    ensures
        resp is Err ==> *final(w) == *old(w) && r is Err && r->Err_0 == resp->Err_0,
        resp is Ok ==> r == Ok::<Option<()>, ResponseError>(Some(()))
            && answered(*old(w), *final(w), req_id, |m: Message| answer_ok(self.msg_kind, req_id, outcome(resp->Ok_0), m)),
    //@end

    //@fn crates/sync-lsp/src/server.rs LspClient::schedule_tail C03
    //@world Tracked(w): Tracked<&mut World>
    requires !old(w).locked, self.id_fits(req_id),
    ensures
        resp is Ok && resp->Ok_0 is Some ==> *final(w) == *old(w),
        !(resp is Ok && resp->Ok_0 is Some) ==>
            answered(*old(w), *final(w), req_id, |m: Message| answer_ok(self.msg_kind, req_id, resp, m)),
    //@end

    //@fn crates/sync-lsp/src/server.rs LspClient::complete_lsp_request C05
    //@sig fn complete_lsp_request<S>(&self, service: &mut S, response: Response, Tracked(w): Tracked<&mut World>)
    //@rw expr handler($s, $r) => handler.vx_call($s, $r)
    requires !old(w).locked, old(w).q.outgoing.wf(),
    ensures run_for(*old(w), *final(w), response.id, LspOrDapResponse::Lsp(response)),
    //@end

    //@fn crates/sync-lsp/src/server.rs LspClient::complete_dap_request C05 C06
    //@sig fn complete_dap_request<S>(&self, service: &mut S, response: DapResponse, Tracked(w): Tracked<&mut World>)
    //@rw expr handler($s, $r) => handler.vx_call($s, $r)
    requires !old(w).locked, old(w).q.outgoing.wf(),
    ensures run_for(*old(w), *final(w), int_id(response.request_seq as int), LspOrDapResponse::Dap(response)),
    //@end

    //@fn crates/sync-lsp/src/server/lsp_srv.rs LspClient::send_lsp_request_ C05
    //@sig fn send_lsp_request_<R: Req, H>(&self, params: R::Params, handler: H, Tracked(w): Tracked<&mut World>)
    //@rw expr Box::new(|s, resp| handler(s, resp.try_into().unwrap())) => vx_box_handler(handler)
    //@rw expr vx_string(&R::METHOD) => R::method()
    //@rw expr R::METHOD.to_owned() => R::method()
    requires !old(w).locked, old(w).q.outgoing.wf(), old(w).q.outgoing.next_id < i32::MAX, json_ok(params),
    ensures ({
        let id = int_id(old(w).q.outgoing.next_id as int);
        &&& !old(w).q.outgoing.p().dom().contains(id)
        &&& final(w).q.outgoing.p() == old(w).q.outgoing.p().insert(id, handler_of(handler))
        &&& final(w).q.outgoing.next_id == old(w).q.outgoing.next_id + 1
        &&& final(w).q.outgoing.wf() && final(w).q.incoming == old(w).q.incoming
        &&& !final(w).locked && final(w).runs == old(w).runs
        &&& old(w).open ==> final(w).sent == old(w).sent.push(Message::LspRequest(Request { id, method: R::spec_method(), params: to_json(params) }))
        &&& !old(w).open ==> final(w).sent == old(w).sent
    }),
    //@end
}
trait Req: Sized {
    type Params;
    spec fn spec_method() -> Str;
    fn method() -> (r: Str) ensures r == Self::spec_method();
}
/// the handler registered for `id` (if any) runs once, with `resp`, after its entry is gone and without the lock
spec fn run_for(o: World, n: World, id: RequestId, resp: LspOrDapResponse) -> bool {
    &&& if o.q.outgoing.p().dom().contains(id) {
        &&& n.runs.len() == o.runs.len() + 1
        &&& n.runs == o.runs.push(n.runs.last())
        &&& n.runs.last().h == o.q.outgoing.p()[id] && n.runs.last().resp == resp
        &&& n.runs.last().q.outgoing.p() == o.q.outgoing.p().remove(id)
        &&& n.runs.last().q.outgoing.next_id == o.q.outgoing.next_id
        &&& n.runs.last().q.incoming == o.q.incoming
        &&& !n.locked
    } else {
        &&& n.q.outgoing.p() == o.q.outgoing.p() && n.q.outgoing.next_id == o.q.outgoing.next_id && n.q.incoming == o.q.incoming
        &&& n.runs == o.runs && n.sent == o.sent && !n.locked
    }
    &&& n.calls == o.calls && n.inbox == o.inbox && n.taken == o.taken && n.q.outgoing.wf()
}
}

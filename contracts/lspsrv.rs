// Unit: the LSP driver (C04, C16).
//@include srv_common.rs
//@rw type Event => VxEvent
//@rw type lsp::Notification => Notification
//@rw expr notification::Exit::METHOD.to_owned() => EXIT
//@rw expr not.method == $x => not.method.vx_eq($x)
//@rw type TConnectionRx<LspMessage> => VxInbox
//@rw expr request::Initialize::METHOD => INITIALIZE
//@rw pat request::Initialize::METHOD => INITIALIZE
//@rw expr request::Shutdown::METHOD => SHUTDOWN
//@rw pat request::Shutdown::METHOD => SHUTDOWN
//@rw expr request::ExecuteCommand::METHOD => EXECUTE_COMMAND
//@rw pat request::ExecuteCommand::METHOD => EXECUTE_COMMAND
//@rw expr notification::Initialized::METHOD => INITIALIZED
//@rw pat notification::Initialized::METHOD => INITIALIZED
//@rw expr notification::Exit::METHOD => EXIT
verus! {
// lsp-types constants (a dependency: assumed)
const INITIALIZE: &'static str = "initialize";
const SHUTDOWN: &'static str = "shutdown";
const EXECUTE_COMMAND: &'static str = "workspace/executeCommand";
const INITIALIZED: &'static str = "initialized";
const EXIT: &'static str = "exit";
//@type crates/sync-lsp/src/lsp.rs Notification
struct ExecuteCommandParams { command: Str, arguments: Vec<JsonValue> }
// lsp.rs: Message
enum LspMessage { Request(Request), Response(Response), Notification(Notification) }
//@type crates/sync-lsp/src/server.rs EventOrMessage #[verifier::accept_recursive_types(M)]
use EventOrMessage::*;
type InMsg = EventOrMessage<LspMessage>;
/// the receiving end of the connection: gives the messages in order until it is closed
#[verifier::external_body]
struct VxInbox { x: u8 }
impl VxInbox {
    #[verifier::external_body]
    fn recv(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<InMsg, AnyErr>)
        ensures
            old(w).inbox.len() == 0 ==> r is Err && *final(w) == *old(w),
            old(w).inbox.len() > 0 ==> r is Ok && r->Ok_0 == old(w).inbox[0]
                && *final(w) == (World { inbox: old(w).inbox.drop_first(), taken: old(w).taken.push(old(w).inbox[0]), ..*old(w) }),
    { unimplemented!() }
}

proof fn lits()
    ensures INITIALIZE@ != SHUTDOWN@, INITIALIZE@ != EXECUTE_COMMAND@, SHUTDOWN@ != EXECUTE_COMMAND@, INITIALIZED@ != EXIT@
{
    reveal_strlit("initialize"); reveal_strlit("shutdown"); reveal_strlit("workspace/executeCommand"); reveal_strlit("initialized"); reveal_strlit("exit");
    assert(INITIALIZE@.len() == 10 && SHUTDOWN@.len() == 8 && EXECUTE_COMMAND@.len() == 24 && INITIALIZED@.len() == 11 && EXIT@.len() == 4);
}

impl<M, Args: Initializer> LsDriver<M, Args> {
    //@fn crates/sync-lsp/src/server.rs LsDriver::get_resources C16
    //@world Tracked(w): Tracked<&mut World>
    //@ret r
    requires !old(w).locked, old(w).q.outgoing.wf(),
    ensures
        res_target(*old(self), args@) is Some ==> ran(*old(w), *final(w), res_target(*old(self), args@)->0, req_id, Arg::Many(args@), r),
        res_target(*old(self), args@) is None ==> r is Err && *final(w) == *old(w),
        old(self).state is Ready && res_unknown(*old(self), args@) ==> r is Err && r->Err_0.code == -32601,
        same_driver(*old(self), *final(self)),
    //@end

    //@fn crates/sync-lsp/src/server/lsp_srv.rs LsDriver::on_execute_command C16
    //@world Tracked(w): Tracked<&mut World>
    //@ret r
    requires !old(w).locked, old(w).q.outgoing.wf(),
    ensures
        old(self).state is Ready ==> command_result(*old(self), *old(w), *final(w), req.id, req.params, r),
        !(old(self).state is Ready) ==> r is Err && *final(w) == *old(w),
        same_driver(*old(self), *final(self)),
    //@end

    //@fn crates/sync-lsp/src/server/lsp_srv.rs LsDriver::on_lsp_request C04 C16
    //@world Tracked(w): Tracked<&mut World>
    //@entry
        proof { lits(); }
        broadcast use {axiom_str_ext, axiom_json_self, axiom_json_self_ok};
    //@spec
    requires
        !old(w).locked, old(w).q.outgoing.wf(), old(self).state.wf(), old(self).client.msg_kind is Lsp,
    ensures
        final(self).state.wf(), !final(w).locked, final(w).q.outgoing.wf(), final(self).client == old(self).client,
        final(w).inbox == old(w).inbox, final(w).taken == old(w).taken, same_maps(*old(self), *final(self)),
        lsp_step(*old(self), *final(self), *old(w), *final(w), req),
    //@end
}
/// refused with an error, which is `method not found` if the name is unknown
spec fn refused_some(o: World, n: World, id: RequestId, unknown: bool) -> bool {
    &&& answered_now(o, n, id, |m: Message| m is LspResponse && m->LspResponse_0.id == id && m->LspResponse_0.result is None
            && m->LspResponse_0.error is Some && (unknown ==> m->LspResponse_0.error->0.code == -32601))
    &&& n.calls == o.calls
}
impl<M, Args: Initializer> LsDriver<M, Args> {
    //@fn crates/sync-lsp/src/server/lsp_srv.rs LsDriver::on_notification C04 C16
    //@world Tracked(w): Tracked<&mut World>
    //@ret r
    //@entry
        proof { lits(); }
        broadcast use {axiom_str_ext, axiom_json_self, axiom_json_self_ok};
    //@spec
    requires
        !old(w).locked, old(w).q.outgoing.wf(), old(self).state.wf(), old(self).client.msg_kind is Lsp,
    ensures
        r is Ok,
        final(self).state.wf(), kept(*old(w), *final(w)), same_maps(*old(self), *final(self)),
        ntf_step(*old(self), *final(self), *old(w), *final(w), not),
    //@end

    //@fn crates/sync-lsp/src/server.rs LsDriver::ready C04
    //@world Tracked(w): Tracked<&mut World>
    //@ret r
    requires !old(w).locked, old(w).q.outgoing.wf(), old(self).state.wf(),
    ensures
        same_maps(*old(self), *final(self)), final(self).state.wf(),
        old(self).state is Uninitialized ==> final(self).state is Ready && final(w).calls == old(w).calls.push(Call::Init { with: init_arg(params), gave: r }),
        !(old(self).state is Uninitialized) ==> *final(self) == *old(self) && *final(w) == *old(w) && r is Ok && r->Ok_0 is Done && r->Ok_0->Done_0 is Err,
    //@end

    //@fn crates/sync-lsp/src/server/lsp_srv.rs LsDriver::start_ C04 C16
    //@world Tracked(w): Tracked<&mut World>
    //@ret r
    //@entry
        proof { lits(); }
        broadcast use {axiom_str_ext, axiom_json_self, axiom_json_self_ok};
    //@spec
    requires
        !old(w).locked, old(w).q.outgoing.wf(), old(self).state.wf(), old(self).client.msg_kind is Lsp,
        old(w).taken.len() == 0,
    ensures
        final(self).state.wf(), same_maps(*old(self), *final(self)),
        // received in order, nothing lost
        final(w).taken + final(w).inbox == old(w).inbox,
        // not past an exit notification
        forall|i: int| 0 <= i < final(w).taken.len() - 1 ==> !is_exit(#[trigger] final(w).taken[i]),
        // ends at the exit notification or when the connection closes (or a handler of the program's own events fails)
        r is Ok ==> final(w).inbox.len() == 0 || (final(w).taken.len() > 0 && is_exit(final(w).taken.last())),
        r is Err ==> final(w).taken.len() > 0 && final(w).taken.last() is Evt,
        // the phase is what the messages received say
        phase(final(self).state) == run_phase(*old(self), phase(old(self).state), final(w).taken),
    //@loop 0 while
        invariant
            !w.locked, w.q.outgoing.wf(), self.state.wf(), same_maps(*old(self), *self), self.client.msg_kind is Lsp,
            w.taken + w.inbox == old(w).inbox,
            forall|i: int| 0 <= i < w.taken.len() ==> !is_exit(#[trigger] w.taken[i]),
            phase(self.state) == run_phase(*old(self), phase(old(self).state), w.taken),
        ensures w.inbox.len() == 0,
        decreases w.inbox.len(),
    //@loopstart 0
        let ghost t0 = w.taken;
        proof { lits(); if w.inbox.len() > 0 { run_phase_push(*old(self), phase(old(self).state), t0, w.inbox[0]); } }
    //@end
}
spec fn is_exit(m: InMsg) -> bool {
    m matches EventOrMessage::Msg(LspMessage::Notification(n)) && n.method@ == EXIT@
}
enum Phase { U, I, R, S }
spec fn phase<A, S>(s: State<A, S>) -> Phase {
    match s { State::Uninitialized(_) => Phase::U, State::Initializing(_) => Phase::I, State::Ready(_) => Phase::R, State::ShuttingDown => Phase::S }
}
/// the phases of a session
spec fn next_phase<M, A: Initializer>(d: LsDriver<M, A>, p: Phase, m: InMsg) -> Phase {
    match m {
        EventOrMessage::Msg(LspMessage::Request(req)) => match p {
            Phase::U => if req.method@ == INITIALIZE@ && decode::<A::I>(req.params) is Some { Phase::I } else { Phase::U },
            Phase::R => if req.method@ == SHUTDOWN@ && d.requests@.dom().contains(SHUTDOWN@) { Phase::S } else { Phase::R },
            _ => p,
        },
        EventOrMessage::Msg(LspMessage::Notification(n)) => if p is I && n.method@ == INITIALIZED@ { Phase::R } else { p },
        _ => p,
    }
}
spec fn run_phase<M, A: Initializer>(d: LsDriver<M, A>, p: Phase, ms: Seq<InMsg>) -> Phase
    decreases ms.len()
{
    if ms.len() == 0 { p } else { next_phase(d, run_phase(d, p, ms.drop_last()), ms.last()) }
}
broadcast proof fn run_phase_push<M, A: Initializer>(d: LsDriver<M, A>, p: Phase, ms: Seq<InMsg>, m: InMsg)
    ensures #[trigger] run_phase(d, p, ms.push(m)) == next_phase(d, run_phase(d, p, ms), m)
{
    assert(ms.push(m).drop_last() =~= ms);
}
/// what one notification does
spec fn ntf_step<M, A: Initializer>(d: LsDriver<M, A>, e: LsDriver<M, A>, o: World, n: World, not: Notification) -> bool {
    let goes = d.state is Initializing && not.method@ == INITIALIZED@;
    &&& if d.state is Ready || goes { e.state is Ready } else { e.state == d.state }
    &&& if (d.state is Ready || goes) && d.notifications@.dom().contains(not.method@) {
        n.calls == o.calls.push(Call::Ntf { ntf: d.notifications@[not.method@], body: not.params })
    } else { n == o }
}
/// what one request does to a session (C04: phases and refusals; C16: dispatch)
spec fn lsp_step<M, A: Initializer>(d: LsDriver<M, A>, e: LsDriver<M, A>, o: World, n: World, req: Request) -> bool {
    let id = req.id;
    let k = MessageKind::Lsp;
    match d.state {
        State::Uninitialized(_) => if req.method@ == INITIALIZE@ {
            match decode::<A::I>(req.params) {
                None => refused(o, n, k, id, -32600) && e.state == d.state,
                Some(i) => e.state is Initializing && initialized(o, n, k, id, init_arg(i)),
            }
        } else { refused(o, n, k, id, -32002) && e.state == d.state },
        State::Initializing(_) => refused(o, n, k, id, -32002) && e.state == d.state,
        State::ShuttingDown => refused(o, n, k, id, -32600) && e.state == d.state,
        State::Ready(_) => if req.method@ == INITIALIZE@ {
            refused(o, n, k, id, -32600) && e.state == d.state
        } else if req.method@ == EXECUTE_COMMAND@ {
            e.state is Ready && match command_target(d, req.params) {
                Some(h) => handled(o, n, k, h.0, id, Arg::Many(h.1)),
                None => refused_some(o, n, id, command_unknown(d, req.params)),
            }
        } else if d.requests@.dom().contains(req.method@) {
            &&& handled(o, n, k, d.requests@[req.method@], id, Arg::One(req.params))
            &&& if req.method@ == SHUTDOWN@ { e.state is ShuttingDown } else { e.state is Ready }
        } else { refused(o, n, k, id, -32601) && e.state is Ready },
    }
}
spec fn same_maps<M, A: Initializer>(o: LsDriver<M, A>, n: LsDriver<M, A>) -> bool {
    n.client == o.client && n.commands == o.commands && n.requests == o.requests && n.resources == o.resources && n.notifications == o.notifications && n.events == o.events
}
spec fn same_driver<M, A: Initializer>(o: LsDriver<M, A>, n: LsDriver<M, A>) -> bool {
    &&& same_maps(o, n)
    &&& n.state is Ready <==> o.state is Ready
    &&& !(o.state is Ready) ==> n.state == o.state
}
/// the handler `h` ran with these parameters and gave `r`
spec fn ran(o: World, n: World, h: VxHandler, id: RequestId, p: Arg, r: ScheduledResult) -> bool {
    &&& n.calls == o.calls.push(Call::Req { h, id, params: p, before: o.q, res: r, after: n.q, sent: n.sent, open: n.open })
    &&& kept(o, n)
}
/// the resource handler the arguments name
spec fn res_target<M, A: Initializer>(d: LsDriver<M, A>, args: Seq<JsonValue>) -> Option<VxHandler> {
    if d.state is Ready && args.len() > 0 && decode::<VxPath>(args[0]) is Some && d.resources@.dom().contains(decode::<VxPath>(args[0])->0) {
        Some(d.resources@[decode::<VxPath>(args[0])->0])
    } else { None }
}
/// the command handler the parameters name, with its arguments
spec fn command_target<M, A: Initializer>(d: LsDriver<M, A>, params: JsonValue) -> Option<(VxHandler, Seq<JsonValue>)> {
    match decode::<ExecuteCommandParams>(params) {
        None => None,
        Some(p) => {
            let h = if p.command@ == "tinymist.getResources"@ { res_target(d, p.arguments@) }
                else if d.commands@.dom().contains(p.command@) { Some(d.commands@[p.command@]) } else { None };
            match h { Some(h) => Some((h, p.arguments@)), None => None }
        }
    }
}
/// the parameters decode, but the command or the resource they name does not exist
spec fn command_unknown<M, A: Initializer>(d: LsDriver<M, A>, params: JsonValue) -> bool {
    match decode::<ExecuteCommandParams>(params) {
        None => false,
        Some(p) => if p.command@ == "tinymist.getResources"@ { res_unknown(d, p.arguments@) } else { !d.commands@.dom().contains(p.command@) },
    }
}
spec fn res_unknown<M, A: Initializer>(d: LsDriver<M, A>, args: Seq<JsonValue>) -> bool {
    args.len() > 0 && decode::<VxPath>(args[0]) is Some && !d.resources@.dom().contains(decode::<VxPath>(args[0])->0)
}
spec fn command_result<M, A: Initializer>(d: LsDriver<M, A>, o: World, n: World, id: RequestId, params: JsonValue, r: ScheduledResult) -> bool {
    match command_target(d, params) {
        Some(h) => ran(o, n, h.0, id, Arg::Many(h.1), r),
        None => r is Err && n == o && (command_unknown(d, params) ==> r->Err_0.code == -32601),
    }
}
}
fn main() {}

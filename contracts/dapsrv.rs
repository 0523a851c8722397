// Unit: the DAP driver (C06).
//@include srv_common.rs
//@rw type dap::Request => DapRequest
//@rw type dap::Event => DapEvent
//@rw type Event => VxEvent
//@rw type TConnectionRx<DapMessage> => VxInbox
//@rw expr dapts::request::Initialize::COMMAND => INITIALIZE
//@rw pat dapts::request::Initialize::COMMAND => INITIALIZE
//@rw expr dapts::request::Disconnect::COMMAND => DISCONNECT
//@rw pat dapts::request::Disconnect::COMMAND => DISCONNECT
verus! {
// dapts constants and types (a dependency: assumed)
const INITIALIZE: &'static str = "initialize";
const DISCONNECT: &'static str = "disconnect";
struct DapRequest { seq: i64, command: Str, arguments: JsonValue }
struct DapEvent { seq: i64, event: Str, body: JsonValue }
// dap.rs: Message
enum DapMessage { Request(DapRequest), Response(DapResponse), Event(DapEvent) }
//@type crates/sync-lsp/src/server.rs EventOrMessage #[verifier::accept_recursive_types(M)]
use EventOrMessage::*;
type InMsg = EventOrMessage<DapMessage>;
/// the receiving end of the connection: gives the messages in order until it is closed
#[verifier::external_body]
struct VxInbox { x: u8 }
impl VxInbox {
    #[verifier::external_body]
    fn recv(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<InMsg, AnyErr>)
        ensures
            old(w).inbox.len() == 0 ==> r is Err && *final(w) == *old(w),
            old(w).inbox.len() > 0 ==> r is Ok && r->Ok_0 == old(w).inbox[0]
                && *final(w) == (World { inbox: old(w).inbox.drop_first(), taken: old(w).taken.push(old(w).inbox[0]), ..*old(w) }),
    { unimplemented!() }
}
proof fn lits()
    ensures INITIALIZE@ != DISCONNECT@
{
    reveal_strlit("initialize"); reveal_strlit("disconnect");
    assert(INITIALIZE@[0] == 'i' && DISCONNECT@[0] == 'd');
}

impl<M, Args: Initializer> LsDriver<M, Args> {
    //@fn crates/sync-lsp/src/server/dap_srv.rs LsDriver::on_request C06 C16
    //@world Tracked(w): Tracked<&mut World>
    //@entry
        proof { lits(); }
        broadcast use {axiom_str_ext, axiom_json_self, axiom_json_self_ok};
    //@spec
    requires
        !old(w).locked, old(w).q.outgoing.wf(), old(self).state.wf(), old(self).client.msg_kind is Dap,
    ensures
        final(self).state.wf(), !final(w).locked, final(w).q.outgoing.wf(), same_maps(*old(self), *final(self)),
        final(w).inbox == old(w).inbox, final(w).taken == old(w).taken,
        dap_step(*old(self), *final(self), *old(w), *final(w), req),
    //@end

    //@fn crates/sync-lsp/src/server/dap_srv.rs LsDriver::on_event C06 C16
    //@world Tracked(w): Tracked<&mut World>
    //@ret r
    requires
        !old(w).locked, old(w).q.outgoing.wf(), old(self).state.wf(),
    ensures
        r is Ok,
        final(self).state.wf(), kept(*old(w), *final(w)), same_maps(*old(self), *final(self)),
        phase(final(self).state) == phase(old(self).state),
        if old(self).state is Ready && old(self).notifications@.dom().contains(not.event@) {
            final(w).calls == old(w).calls.push(Call::Ntf { ntf: old(self).notifications@[not.event@], body: not.body })
        } else { *final(w) == *old(w) && final(self).state == old(self).state },
    //@end

    //@fn crates/sync-lsp/src/server/dap_srv.rs LsDriver::start_ C06
    //@world Tracked(w): Tracked<&mut World>
    //@ret r
    requires
        !old(w).locked, old(w).q.outgoing.wf(), old(self).state.wf(), old(self).client.msg_kind is Dap,
        old(w).taken.len() == 0,
    ensures
        final(self).state.wf(), same_maps(*old(self), *final(self)),
        final(w).taken + final(w).inbox == old(w).inbox,
        r is Ok ==> final(w).inbox.len() == 0,
        r is Err ==> final(w).taken.len() > 0 && final(w).taken.last() is Evt,
        phase(final(self).state) == run_phase(*old(self), phase(old(self).state), final(w).taken),
    //@loop 0 while
        invariant
            !w.locked, w.q.outgoing.wf(), self.state.wf(), same_maps(*old(self), *self), self.client.msg_kind is Dap,
            w.taken + w.inbox == old(w).inbox,
            phase(self.state) == run_phase(*old(self), phase(old(self).state), w.taken),
        ensures w.inbox.len() == 0,
        decreases w.inbox.len(),
    //@loopstart 0
        proof { lits(); if w.inbox.len() > 0 { run_phase_push(*old(self), phase(old(self).state), w.taken, w.inbox[0]); } }
    //@end
}
spec fn same_maps<M, A: Initializer>(o: LsDriver<M, A>, n: LsDriver<M, A>) -> bool {
    n.client == o.client && n.commands == o.commands && n.requests == o.requests && n.resources == o.resources && n.notifications == o.notifications && n.events == o.events
}
enum Phase { U, I, R, S }
spec fn phase<A, S>(s: State<A, S>) -> Phase {
    match s { State::Uninitialized(_) => Phase::U, State::Initializing(_) => Phase::I, State::Ready(_) => Phase::R, State::ShuttingDown => Phase::S }
}
/// the phases of a debug session
spec fn next_phase<M, A: Initializer>(d: LsDriver<M, A>, p: Phase, m: InMsg) -> Phase {
    match m {
        EventOrMessage::Msg(DapMessage::Request(req)) => match p {
            Phase::U => if req.command@ == INITIALIZE@ && decode::<A::I>(req.arguments) is Some { Phase::R } else { Phase::U },
            Phase::R => if req.command@ == DISCONNECT@ && d.requests@.dom().contains(DISCONNECT@) { Phase::S } else { Phase::R },
            _ => p,
        },
        _ => p,
    }
}
spec fn run_phase<M, A: Initializer>(d: LsDriver<M, A>, p: Phase, ms: Seq<InMsg>) -> Phase
    decreases ms.len()
{
    if ms.len() == 0 { p } else { next_phase(d, run_phase(d, p, ms.drop_last()), ms.last()) }
}
proof fn run_phase_push<M, A: Initializer>(d: LsDriver<M, A>, p: Phase, ms: Seq<InMsg>, m: InMsg)
    ensures run_phase(d, p, ms.push(m)) == next_phase(d, run_phase(d, p, ms), m)
{
    assert(ms.push(m).drop_last() =~= ms);
}
/// what one request does to a debug session; the answer always carries the request's own number
spec fn dap_step<M, A: Initializer>(d: LsDriver<M, A>, e: LsDriver<M, A>, o: World, n: World, req: DapRequest) -> bool {
    let id = int_id(req.seq as int);
    let k = MessageKind::Dap;
    &&& id_num(id) == req.seq
    &&& match d.state {
        State::Uninitialized(_) => if req.command@ == INITIALIZE@ {
            match decode::<A::I>(req.arguments) {
                None => refused(o, n, k, id, -32600) && e.state == d.state,
                Some(i) => e.state is Ready && initialized(o, n, k, id, init_arg(i)),
            }
        } else { refused(o, n, k, id, -32002) && e.state == d.state },
        State::Initializing(_) => refused(o, n, k, id, -32002) && e.state == d.state,
        State::ShuttingDown => refused(o, n, k, id, -32600) && e.state == d.state,
        State::Ready(_) => if req.command@ == INITIALIZE@ {
            refused(o, n, k, id, -32600) && e.state == d.state
        } else if d.requests@.dom().contains(req.command@) {
            &&& handled(o, n, k, d.requests@[req.command@], id, Arg::One(req.arguments))
            &&& if req.command@ == DISCONNECT@ { e.state is ShuttingDown } else { e.state is Ready }
        } else { refused(o, n, k, id, -32601) && e.state is Ready },
    }
}
}
fn main() {}

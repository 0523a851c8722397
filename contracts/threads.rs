// Unit: the io threads of the transport (C40, C01, C04). Each thread is judged as a process over its channel: what will
// ever be sent on a channel is fixed ahead (a prophecy), so that every schedule of the other threads is covered.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, path_statements, non_snake_case, unreachable_patterns)]
//@option chains inline_spawn
//@rw type io::Result<$t> => Result<$t, IoErr>
//@rw type std::io::Result<$t> => Result<$t, IoErr>
//@rw type thread::JoinHandle<Result<(), IoErr>> => VxJoin
//@rw pat crate::MessageKind::Lsp => MessageKind::Lsp
//@rw pat crate::MessageKind::Dap => MessageKind::Dap
//@rw type Sender<Message> => Sender
//@rw type Receiver<Message> => Receiver
//@rw type JoinHandle<Result<(), IoErr>> => VxJoin
//@rw type &mut World => &mut World
//@rw type crate::MessageKind => MessageKind
//@rw type impl FnOnce() -> I + Send + Sync + 'static => VxOpen<I>
//@rw type impl FnOnce() -> O + Send + Sync + 'static => VxOpen<O>
//@rw expr inp() => inp.vx_open()
//@rw expr out() => out.vx_open()
//@rw expr bounded::<Message>($n) => vx_channel()
//@rw expr unbounded::<Message>() => vx_channel()
//@rw expr $r.into_iter().try_for_each(|$v| $b) => { let mut vx_res: Result<(), IoErr> = Ok(()); while let Some($v) = $r.vx_recv() { vx_res = $b; if vx_res.is_err() { break; } } vx_res }
//@rw expr $r.iter().try_for_each(|$v| $b) => { let mut vx_res: Result<(), IoErr> = Ok(()); while let Some($v) = $r.vx_recv() { vx_res = $b; if vx_res.is_err() { break; } } vx_res }
//@rw expr Message::read_lsp::<I> => VxReader::Lsp
//@rw expr Message::read_dap::<I> => VxReader::Dap
//@rw expr read_impl($x) => read_impl.vx_read($x)
//@rw expr std::panic::panic_any($e) => return vx_panic()
//@thread vx_run io_transport join_write vx_spawn vx_channel write send vx_recv join
use vstd::prelude::*;
use vstd::string::*;
verus! {
uninterp spec fn vx_vac(k: int) -> bool;
#[verifier::external_body]
fn vx_panic<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body]
#[derive(Debug)]
struct IoErr { x: u8 }
//@type crates/sync-lsp/src/msg.rs MessageKind #[derive(Clone, Copy)]
//@rw type String => Str
//@rw type serde_json::Value => JsonValue
//@rw type LspMessage => LspMessage
//@rw expr $a.method == $b => $a.method.vx_is($b)
#[verifier::external_body]
struct JsonValue { x: u8 }
#[verifier::external_body]
struct LspRequest { x: u8 }
#[verifier::external_body]
struct LspResponse { x: u8 }
#[verifier::external_body]
struct DapMessage { x: u8 }
#[verifier::external_body]
struct Str { x: u8 }
impl Str {
    uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    fn vx_is(&self, s: &str) -> (r: bool) ensures r == (self@ == s@) { unimplemented!() }
}
//@type crates/sync-lsp/src/lsp.rs Notification
enum LspMessage { Request(LspRequest), Response(LspResponse), Notification(Notification) }
//@type crates/sync-lsp/src/msg.rs Message
impl Notification {
    //@fn crates/sync-lsp/src/lsp.rs Notification::is_exit C40 C04
    //@ret r
    ensures r == (self.method@ == "exit"@),
    //@end
}
spec fn is_exit(m: Message) -> bool { m matches Message::Lsp(LspMessage::Notification(n)) && n.method@ == "exit"@ }

// ---- the input and its messages -------------------------------------------------------------
enum Parsed { Closed, Bad, Msg(Message, Seq<u8>) }
/// the next message of an input (decided under C01 and C02)
uninterp spec fn parse(k: MessageKind, b: Seq<u8>) -> Parsed;
axiom fn shorter(k: MessageKind, b: Seq<u8>)
    ensures parse(k, b) matches Parsed::Msg(_, r) ==> r.len() < b.len();
/// what the reader hands on: all messages up to the first exit notification, the end of the input or its first error
spec fn delivered(k: MessageKind, b: Seq<u8>) -> Seq<Message> decreases b.len() {
    match parse(k, b) {
        Parsed::Msg(m, r) => if is_exit(m) || r.len() >= b.len() { seq![m] } else { seq![m] + delivered(k, r) },
        _ => Seq::empty(),
    }
}
/// it ends well: by an exit notification or the end of the input
spec fn ends_well(k: MessageKind, b: Seq<u8>) -> bool decreases b.len() {
    match parse(k, b) {
        Parsed::Msg(m, r) => is_exit(m) || r.len() >= b.len() || ends_well(k, r),
        Parsed::Closed => true,
        Parsed::Bad => false,
    }
}
trait BufRead: Sized { spec fn rest(&self) -> Seq<u8>; }
trait Write: Sized { spec fn id(&self) -> int; spec fn takes(&self, m: Message, n: int) -> bool; }
struct VxOpen<T> { t: T }
impl<T> VxOpen<T> {
    fn vx_open(self) -> (r: T) ensures r == self.t { self.t }
}
enum VxReader { Lsp, Dap }
impl VxReader {
    spec fn kind(&self) -> MessageKind { match self { VxReader::Lsp => MessageKind::Lsp, VxReader::Dap => MessageKind::Dap } }
    #[verifier::external_body]
    fn vx_read<I: BufRead>(&self, i: &mut I) -> (r: Result<Option<Message>, IoErr>)
        ensures match parse(self.kind(), old(i).rest()) {
            Parsed::Closed => r is Ok && r->Ok_0 is None,
            Parsed::Bad => r is Err,
            Parsed::Msg(m, rest) => r is Ok && r->Ok_0 == Some(m) && final(i).rest() == rest,
        } { unimplemented!() }
}
impl Message {
    #[verifier::external_body]
    fn write<O: Write>(self, o: &mut O, Tracked(w): Tracked<&mut World>) -> (r: Result<(), IoErr>)
        ensures
            final(o).id() == old(o).id(),
            r is Ok <==> encodes(self, old(o).id(), old(w).put.len() as int),
            r is Ok ==> final(w).put == old(w).put.push((old(o).id(), self)) && final(w).same_but_put(*old(w)),
            r is Err ==> *final(w) == *old(w),
        { unimplemented!() }
}
/// the n-th message can be written out
uninterp spec fn encodes(m: Message, o: int, n: int) -> bool;

// ---- channels -------------------------------------------------------------------------------
/// `come`: what will be received from a channel until all its senders are gone; `given`: what was sent to it;
/// `put`: what was written, and to which output
tracked struct World { ghost come: Map<int, Seq<Message>>, ghost given: Map<int, Seq<Message>>, ghost put: Seq<(int, Message)>, ghost chans: int, ghost joined: Set<int>, ghost threads: int, ghost ran: Seq<Connection> }
impl World {
    spec fn same_but_put(self, o: World) -> bool { self.come == o.come && self.given == o.given && self.chans == o.chans && self.joined == o.joined && self.ran == o.ran && self.threads == o.threads }
}
struct Sender { ghost id: int }
struct Receiver { ghost id: int }
#[verifier::external_body]
fn vx_channel(Tracked(w): Tracked<&mut World>) -> (r: (Sender, Receiver))
    ensures r.0.id == r.1.id, r.0.id == old(w).chans, *final(w) == (World { chans: old(w).chans + 1, ..*old(w) }) { unimplemented!() }
impl Sender {
    /// hands a message over (the receiver listens as long as the reader runs)
    #[verifier::external_body]
    fn send(&self, m: Message, Tracked(w): Tracked<&mut World>) -> (r: Result<(), IoErr>)
        ensures r is Ok, *final(w) == (World { given: old(w).given.insert(self.id, old(w).given[self.id].push(m)), ..*old(w) }) { unimplemented!() }
}
impl Receiver {
    #[verifier::external_body]
    fn vx_recv(&self, Tracked(w): Tracked<&mut World>) -> (r: Option<Message>)
        ensures
            old(w).come[self.id].len() == 0 <==> r is None,
            r is None ==> *final(w) == *old(w),
            r is Some ==> r->0 == old(w).come[self.id][0] && *final(w) == (World { come: old(w).come.insert(self.id, old(w).come[self.id].drop_first()), ..*old(w) }) { unimplemented!() }
}
/// a thread: what its body came to (the body is judged where it is spawned)
#[verifier::external_body]
struct VxJoin { x: u8 }
#[derive(Debug)]
#[verifier::external_body]
struct Payload { x: u8 }
impl VxJoin {
    uninterp spec fn id(&self) -> int;
    uninterp spec fn res(&self) -> Result<(), IoErr>;
    /// waits for the thread; it does not panic
    #[verifier::external_body]
    fn join(self, Tracked(w): Tracked<&mut World>) -> (r: Result<Result<(), IoErr>, Payload>)
        ensures r is Ok, r->Ok_0 == self.res(), *final(w) == (World { joined: old(w).joined.insert(self.id()), ..*old(w) }) { unimplemented!() }
}
#[verifier::external_body]
fn vx_spawn(r: Result<(), IoErr>, Tracked(w): Tracked<&mut World>) -> (j: VxJoin)
    ensures j.res() == r, j.id() == old(w).threads, *final(w) == (World { threads: old(w).threads + 1, ..*old(w) }) { unimplemented!() }
/// everything in order, up to the first message that cannot be written
spec fn put_all(o: int, p: Seq<(int, Message)>, ms: Seq<Message>) -> Seq<(int, Message)> decreases ms.len() {
    if ms.len() == 0 || !encodes(ms[0], o, p.len() as int) { p } else { put_all(o, p.push((o, ms[0])), ms.drop_first()) }
}
spec fn all_put(o: int, n: int, ms: Seq<Message>) -> bool decreases ms.len() {
    ms.len() == 0 || (encodes(ms[0], o, n) && all_put(o, n + 1, ms.drop_first()))
}
spec fn failed(r: Option<Result<(), IoErr>>) -> bool { r is Some && r->0 is Err }
/// nothing is missing from the output when the writer ends well
proof fn all_is_put(o: int, p: Seq<(int, Message)>, ms: Seq<Message>)
    ensures all_put(o, p.len() as int, ms) ==> put_all(o, p, ms) == p + ms.map_values(|m: Message| (o, m))
    decreases ms.len()
{
    let f = |m: Message| (o, m);
    if ms.len() > 0 {
        all_is_put(o, p.push((o, ms[0])), ms.drop_first());
        assert(p.push((o, ms[0])) + ms.drop_first().map_values(f) =~= p + ms.map_values(f));
    } else {
        assert(p + ms.map_values(f) =~= p);
    }
}
//@type crates/sync-lsp/src/transport.rs IoThreads
impl IoThreads {
    //@fn crates/sync-lsp/src/transport.rs IoThreads::join C40
    //@world Tracked(w): Tracked<&mut World>
    //@ret r
    ensures
        // everything was waited for, and an error of a thread is not lost
        r is Ok ==> final(w).joined.contains(self.reader.id()) && final(w).joined.contains(self.writer.id()),
        r is Ok <==> self.reader.res() is Ok && self.writer.res() is Ok,
        r is Err ==> r == self.reader.res() || r == self.writer.res(),
        final(w).put == old(w).put && final(w).given == old(w).given && final(w).ran == old(w).ran,
    //@end
    //@fn crates/sync-lsp/src/transport.rs IoThreads::join_write C40
    //@world Tracked(w): Tracked<&mut World>
    //@ret r
    ensures final(w).joined.contains(self.writer.id()), r == self.writer.res(), final(w).put == old(w).put && final(w).given == old(w).given && final(w).ran == old(w).ran,
    //@end
}
//@fn crates/sync-lsp/src/transport.rs io_transport C40 C01 C04
//@world Tracked(w): Tracked<&mut World>
//@ret r
ensures
    r.0.id == old(w).chans || r.1.id == old(w).chans, r.0.id != r.1.id,
    r.2.writer.id() != r.2.reader.id(), final(w).ran == old(w).ran,
    // whatever is sent to the transport is written in order, until it cannot be written; the writer ends when no sender is left
    final(w).put == put_all(out.t.id(), old(w).put, old(w).come[r.0.id]),
    r.2.writer.res() is Ok <==> all_put(out.t.id(), old(w).put.len() as int, old(w).come[r.0.id]),
    r.2.writer.res() is Ok ==> final(w).put == old(w).put + old(w).come[r.0.id].map_values(|m: Message| (out.t.id(), m)),
    // whatever the input says is handed on in order, up to an exit notification, its end or an error
    final(w).given[r.1.id] == old(w).given[r.1.id] + delivered(kind, inp.t.rest()),
    r.2.reader.res() is Ok <==> ends_well(kind, inp.t.rest()),
    forall|c: int| c != r.1.id ==> #[trigger] final(w).given[c] == old(w).given[c],
//@entry
    let ghost w0 = *w;
    let ghost oid = out.t.id();
    let ghost b0 = inp.t.rest();
//@before 0
    let ghost w1 = *w;
//@loop 0 whilelet
    invariant_except_break vx_res is Ok, put_all(oid, w.put, w.come[writer_receiver.id]) == put_all(oid, w0.put, w0.come[writer_receiver.id]), all_put(oid, w.put.len() as int, w.come[writer_receiver.id]) <==> all_put(oid, w0.put.len() as int, w0.come[writer_receiver.id])
    invariant w.ran == w0.ran, w.chans == w1.chans, w.threads == w1.threads, out.id() == oid, w.given == w0.given, forall|c: int| c != writer_receiver.id ==> w.come[c] == w0.come[c]
    ensures w.put == put_all(oid, w0.put, w0.come[writer_receiver.id]), vx_res is Ok <==> all_put(oid, w0.put.len() as int, w0.come[writer_receiver.id])
    decreases w.come[writer_receiver.id].len()
//@after 0
    proof { all_is_put(oid, w0.put, w0.come[writer_receiver.id]); }
//@before 1
    let ghost w2 = *w;
//@loop 1 whilelet
    invariant_except_break vx_ret0 is None, w.given[reader_sender.id] + delivered(kind, inp.rest()) == w0.given[reader_sender.id] + delivered(kind, b0), ends_well(kind, inp.rest()) == ends_well(kind, b0)
    invariant w.ran == w0.ran, w.chans == w2.chans, w.threads == w2.threads, read_impl.kind() == kind, forall|c: int| c != reader_sender.id ==> w.given[c] == w0.given[c], w.put == put_all(oid, w0.put, w0.come[writer_receiver.id])
    ensures w.given[reader_sender.id] == w0.given[reader_sender.id] + delivered(kind, b0), vx_ret0 is Some ==> failed(vx_ret0), vx_ret0 is None <==> ends_well(kind, b0)
    decreases inp.rest().len()
//@loopstart 1
    proof { shorter(kind, inp.rest()); }
    let ghost g0 = w.given[reader_sender.id];
//@end
/// the mirror and replay files of the command line are opened when the reader starts (C07)
//@rw expr || std::io::stdout().lock() => vx_stdout()
struct MirrorArgs { mirror: Str, replay: Str }
impl Str {
    #[verifier::external_body]
    fn clone(&self) -> (r: Str) ensures r == *self { unimplemented!() }
}
struct VxIn { ghost b: Seq<u8> }
impl BufRead for VxIn { spec fn rest(&self) -> Seq<u8> { self.b } }
struct VxOut { ghost i: int }
impl Write for VxOut { spec fn id(&self) -> int { self.i } spec fn takes(&self, m: Message, n: int) -> bool { true } }
uninterp spec fn input() -> Seq<u8>;
uninterp spec fn stdout_id() -> int;
#[verifier::external_body]
fn vx_stdin() -> (r: VxOpen<VxIn>) ensures r.t.rest() == input() { unimplemented!() }
#[verifier::external_body]
fn vx_stdout() -> (r: VxOpen<VxOut>) ensures r.t.id() == stdout_id() { unimplemented!() }
struct EvSender { ghost id: int }
struct EvReceiver { ghost id: int }
#[verifier::external_body]
fn vx_events() -> (r: (EvSender, EvReceiver)) ensures r.0.id == r.1.id { unimplemented!() }
struct ConnectionTx { event: EvSender, lsp: Sender, marker: std::marker::PhantomData<Message> }
struct ConnectionRx { event: EvReceiver, lsp: Receiver, marker: std::marker::PhantomData<Message> }
struct Connection { sender: ConnectionTx, receiver: ConnectionRx }
/// the program
#[verifier::external_body]
struct VxProgram { x: u8 }
impl VxProgram {
    uninterp spec fn works(&self, c: Connection) -> bool;
    #[verifier::external_body]
    fn vx_run(self, c: Connection, Tracked(w): Tracked<&mut World>) -> (r: Result<(), IoErr>)
        ensures r is Ok <==> self.works(c), *final(w) == (World { ran: old(w).ran.push(c), ..*old(w) }) { unimplemented!() }
}
//@fn crates/sync-lsp/src/transport.rs with_stdio_transport_impl C40
//@option keep_closures
//@rw expr move || -> Box<dyn BufRead> { $b_list } => vx_stdin()
//@rw expr f($c) => f.vx_run($c)
//@rw expr unbounded::<crate::Event>() => vx_events()
//@world Tracked(w): Tracked<&mut World>
//@sig fn with_stdio_transport_impl(args: MirrorArgs, kind: MessageKind, f: VxProgram, Tracked(w): Tracked<&mut World>) -> (r: Result<(), IoErr>)
ensures
    final(w).ran.len() == old(w).ran.len() + 1,
    ({
        let c = final(w).ran.last();
        &&& c.sender.event.id == c.receiver.event.id
        // the program hears what the input says
        &&& final(w).given[c.receiver.lsp.id] == old(w).given[c.receiver.lsp.id] + delivered(kind, input())
        // and all that it says is out when the session ends well
        &&& r is Ok ==> f.works(c) && final(w).put == old(w).put + old(w).come[c.sender.lsp.id].map_values(|m: Message| (stdout_id(), m))
        &&& r is Err ==> !f.works(c) || !all_put(stdout_id(), old(w).put.len() as int, old(w).come[c.sender.lsp.id])
    }),
//@end
}
fn main() {}

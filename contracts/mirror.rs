// Unit: the session mirror (C07).
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, path_statements, non_snake_case, unreachable_patterns)]
//@rw type &mut [u8] => &mut VxBuf
//@rw type &[u8] => &VxBytes
//@rw type io::Result<$t> => Result<$t, IoErr>
//@rw type std::sync::Once => VxOnce
//@rw expr &$b[..$e] => $b.vx_to($e)
//@rw expr &$b[$e..] => $b.vx_from($e)
//@rw expr $o.call_once(|| {}) => $o.vx_once()
use vstd::prelude::*;
verus! {
uninterp spec fn vx_vac(k: int) -> bool;
#[verifier::external_body]
#[derive(Debug)]
struct IoErr { x: u8 }
#[verifier::external_body]
struct VxOnce { x: u8 }
impl VxOnce {
    #[verifier::external_body]
    fn vx_once(&self) { unimplemented!() }
}
/// bytes
#[verifier::external_body]
struct VxBytes { x: u8 }
impl VxBytes {
    uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to(&self, n: usize) -> (r: &VxBytes) requires n <= self@.len() ensures r@ == self@.take(n as int) { unimplemented!() }
    #[verifier::external_body]
    fn vx_from(&self, n: usize) -> (r: &VxBytes) requires n <= self@.len() ensures r@ == self@.skip(n as int) { unimplemented!() }
}
/// a caller's buffer
#[verifier::external_body]
struct VxBuf { x: u8 }
impl VxBuf {
    uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    fn vx_to(&self, n: usize) -> (r: &VxBytes) requires n <= self@.len() ensures r@ == self@.take(n as int) { unimplemented!() }
    #[verifier::external_body]
    fn vx_from(&self, n: usize) -> (r: &VxBytes) requires n <= self@.len() ensures r@ == self@.skip(n as int) { unimplemented!() }
}
/// the input: what was consumed, what is to come, how much of that is being shown, and what its next I/O will do
trait Read: Sized {
    spec fn taken(&self) -> Seq<u8>;
    spec fn rest(&self) -> Seq<u8>;
    spec fn shown(&self) -> int;
    /// the next I/O operation fails
    spec fn errs(&self) -> bool;
    fn read(&mut self, buf: &mut VxBuf) -> (r: Result<usize, IoErr>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r is Err <==> old(self).errs() && old(self).shown() == 0,
            r is Err ==> final(self).taken() == old(self).taken() && final(self).rest() == old(self).rest(),
            r is Ok ==> {
                let n = r->Ok_0 as int;
                &&& n <= old(buf)@.len() && n <= old(self).rest().len()
                &&& (n == 0 ==> old(buf)@.len() == 0 || old(self).rest().len() == 0)
                &&& final(buf)@.take(n) == old(self).rest().take(n)
                &&& final(self).taken() == old(self).taken() + old(self).rest().take(n)
                &&& final(self).rest() == old(self).rest().skip(n)
            },
    ;
}
trait BufRead: Read {
    fn fill_buf(&mut self) -> (r: Result<&VxBytes, IoErr>)
        ensures
            final(self).taken() == old(self).taken(), final(self).rest() == old(self).rest(),
            r is Err <==> old(self).errs() && old(self).shown() == 0,
            r is Err ==> final(self).shown() == 0,
            r is Ok ==> {
                &&& (r->Ok_0)@ == old(self).rest().take(final(self).shown())
                &&& (old(self).shown() > 0 ==> final(self).shown() == old(self).shown())
                &&& 0 <= final(self).shown() <= old(self).rest().len()
                &&& (final(self).shown() == 0 ==> old(self).rest().len() == 0)
            },
    ;
    fn consume(&mut self, amt: usize)
        requires amt <= old(self).shown(), old(self).shown() <= old(self).rest().len(),
        ensures
            final(self).taken() == old(self).taken() + old(self).rest().take(amt as int),
            final(self).rest() == old(self).rest().skip(amt as int),
            final(self).shown() == old(self).shown() - amt,
            final(self).errs() == old(self).errs(),
    ;
}
/// the mirror: what it holds, and whether it works
trait Write: Sized {
    spec fn done(&self) -> Seq<u8>;
    spec fn works(&self) -> bool;
    fn write_all(&mut self, b: &VxBytes) -> (r: Result<(), IoErr>)
        ensures final(self).works() ==> old(self).works(), r is Err ==> !final(self).works(),
            r is Ok && final(self).works() ==> final(self).done() == old(self).done() + b@,
    ;
    fn flush(&mut self) -> (r: Result<(), IoErr>)
        ensures final(self).works() ==> old(self).works() && final(self).done() == old(self).done();
}
//@type crates/sync-lsp/src/transport.rs MirrorWriter

impl<R: Read, W: Write> MirrorWriter<R, W> {
    /// as long as the mirror works, it holds exactly what was consumed
    spec fn wf(&self) -> bool {
        &&& self.1.works() ==> self.1.done() == self.0.taken()
        &&& 0 <= self.0.shown() <= self.0.rest().len()
    }
    spec fn mirrored(&self) -> bool { self.1.works() ==> self.1.done() == self.0.taken() }
}
broadcast proof fn take_take(s: Seq<u8>, m: int, n: int)
    requires 0 <= n <= m <= s.len()
    ensures #[trigger] s.take(m).take(n) == s.take(n)
{ assert(s.take(m).take(n) =~= s.take(n)); }
// To its reader the mirrored input behaves like the input itself, whether or not the mirror works.
impl<R: Read, W: Write> MirrorWriter<R, W> {
    //@fn crates/sync-lsp/src/transport.rs Read@MirrorWriter::read C07
    //@ret r
    requires old(self).wf(),
    ensures
        final(self).mirrored(),
        final(buf)@.len() == old(buf)@.len(),
        r is Err <==> old(self).0.errs() && old(self).0.shown() == 0,
        r is Err ==> final(self).0.taken() == old(self).0.taken() && final(self).0.rest() == old(self).0.rest(),
        r is Ok ==> {
            let n = r->Ok_0 as int;
            &&& n <= old(buf)@.len() && n <= old(self).0.rest().len()
            &&& (n == 0 ==> old(buf)@.len() == 0 || old(self).0.rest().len() == 0)
            &&& final(buf)@.take(n) == old(self).0.rest().take(n)
            &&& final(self).0.taken() == old(self).0.taken() + old(self).0.rest().take(n)
            &&& final(self).0.rest() == old(self).0.rest().skip(n)
        },
    //@end
}
impl<R: Read + BufRead, W: Write> MirrorWriter<R, W> {
    //@fn crates/sync-lsp/src/transport.rs BufRead@MirrorWriter::fill_buf C07
    //@ret r
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).0.taken() == old(self).0.taken(), final(self).0.rest() == old(self).0.rest(),
        r is Err <==> old(self).0.errs() && old(self).0.shown() == 0,
        r is Ok ==> {
            &&& (r->Ok_0)@ == old(self).0.rest().take(final(self).0.shown())
            &&& (old(self).0.shown() > 0 ==> final(self).0.shown() == old(self).0.shown())
            &&& 0 <= final(self).0.shown() <= old(self).0.rest().len()
            &&& (final(self).0.shown() == 0 ==> old(self).0.rest().len() == 0)
        },
    //@end
    //@fn crates/sync-lsp/src/transport.rs BufRead@MirrorWriter::consume C07
    //@entry
        broadcast use take_take;
    //@spec
    requires old(self).wf(), amt <= old(self).0.shown(),
    ensures
        final(self).wf(),
        final(self).0.taken() == old(self).0.taken() + old(self).0.rest().take(amt as int),
        final(self).0.rest() == old(self).0.rest().skip(amt as int),
        amt > 0 ==> final(self).0.shown() == old(self).0.shown() - amt,
    //@end
}
}
fn main() {}

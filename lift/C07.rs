//@include ../lift/common.rs
// C07: the mirroring reader alone, over schedules of reads, peeks and partial consumption and mirror failures.
use std::io::{self, BufRead, Read, Write};
use vx::{Ctx, Rng};
mod log {
    macro_rules! vx_nolog { ($($t:tt)*) => { { let _ = || { let _ = format!($($t)*); }; } }; }
    pub(crate) use vx_nolog as warn;
    pub(crate) use vx_nolog as info;
    pub(crate) use vx_nolog as error;
    pub(crate) use vx_nolog as debug;
    pub(crate) use vx_nolog as trace;
}
//@rawitems crates/sync-lsp/src/transport.rs MirrorWriter

/// input handing out its bytes in chunks, with errors in between
struct In {
    data: Vec<u8>,
    at: usize,
    shown: usize,
    sizes: Vec<usize>,
    errs: Vec<bool>,
    k: usize,
}
impl In {
    fn peek_errs(&self) -> bool {
        self.shown == 0 && self.errs[(self.k + 1) % self.errs.len()]
    }
}
impl Read for In {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = { let b = self.fill_buf()?; let n = b.len().min(buf.len()); buf[..n].copy_from_slice(&b[..n]); n };
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for In {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.shown == 0 {
            self.k += 1;
            if self.errs[self.k % self.errs.len()] {
                return Err(io::Error::new(io::ErrorKind::Other, "input"));
            }
            self.shown = self.sizes[self.k % self.sizes.len()].min(self.data.len() - self.at);
        }
        Ok(&self.data[self.at..self.at + self.shown])
    }
    fn consume(&mut self, n: usize) {
        assert!(n <= self.shown, "consumed more than was shown");
        self.at += n;
        self.shown -= n;
    }
}
/// a mirror that takes `cap` bytes in pieces and then fails (or never does)
struct Out {
    got: Vec<u8>,
    cap: usize,
    piece: usize,
    flushes: usize,
    kind: io::ErrorKind,
    noflush: bool,
}
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        let n = b.len().min(self.piece).min(self.cap - self.got.len());
        if n == 0 {
            return Err(io::Error::new(self.kind, "mirror"));
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        if self.noflush || self.got.len() >= self.cap { return Err(io::Error::new(self.kind, "mirror")); }
        Ok(())
    }
}
fn main() {
    let mut cx = Ctx::new();
    cx.rule = "random input chunking with errors x random schedules of read/fill_buf/partial consume/read_line/read_until/read_exact x mirrors that fail after k bytes: what the reader sees equals the bare input, the mirror equals what was consumed".into();
    let mut n = 0;
    while cx.more(n, 20000, 1000000) {
        n += 1;
        let seed = cx.rng.next();
        one(&mut cx, seed);
    }
    cx.finish()
}
fn one(cx: &mut Ctx, seed: u64) {
    let mut r = Rng(seed);
    let len = *r.pick(&[0, 1, 5, 60, 300]);
    let data: Vec<u8> = (0..len).map(|_| *r.pick(&[b'a', b'\n', b'\r', 0, 0xff, b'{'])).collect();
    let sizes: Vec<usize> = (0..5).map(|_| r.range(1, 30)).collect();
    let errs: Vec<bool> = if r.chance(1, 2) { vec![false] } else { (0..7).map(|i| i != 0 && r.chance(1, 3)).collect() };
    let cap = if r.chance(1, 2) { usize::MAX } else { r.below(len + 2) };
    let piece = r.range(1, 9);
    let kind = *r.pick(&[io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::WriteZero, io::ErrorKind::WouldBlock, io::ErrorKind::UnexpectedEof, io::ErrorKind::PermissionDenied]);
    let mk = || In { data: data.clone(), at: 0, shown: 0, sizes: sizes.clone(), errs: errs.clone(), k: 0 };
    let mut plain = mk();
    let mut m = MirrorWriter(mk(), Out { got: vec![], cap, piece, flushes: 0, kind, noflush: r.chance(1, 8) }, std::sync::Once::new());
    let mut trace = format!("data={data:?} sizes={sizes:?} errs={errs:?} mirror-fails-after={cap} piece={piece} ops:");
    let mut avail = 0usize;
    for _ in 0..r.range(1, 25) {
        let op = r.below(13);
        trace.push_str(&format!(" {op}"));
        cx.case(&trace);
        let t = trace.clone();
        let (a, b): (String, String) = match op {
            0 | 1 => {
                let k = *r.pick(&[0, 1, 3, 17, 100]);
                trace.push_str(&format!("(read {k})"));
                let (mut x, mut y) = (vec![9u8; k], vec![9u8; k]);
                let a = plain.read(&mut x).map_err(|e| e.kind());
                let Some(b) = cx.guard("read", &t, || m.read(&mut y).map_err(|e| e.kind())) else { return };
                let n = a.unwrap_or(0).min(k);
                (format!("{a:?} {:?}", &x[..n]), format!("{b:?} {:?}", &y[..n]))
            }
            2 => {
                let a = plain.fill_buf().map(|b| b.to_vec()).map_err(|e| e.kind());
                let Some(b) = cx.guard("fill_buf", &t, || m.fill_buf().map(|b| b.to_vec()).map_err(|e| e.kind())) else { return };
                (format!("{a:?}"), format!("{b:?}"))
            }
            3 => {
                let k = r.range(0, plain.shown);
                let k = if r.chance(1, 3) { plain.shown } else { k };
                trace.push_str(&format!("(consume {k})"));
                plain.consume(k);
                let t = trace.clone();
                if cx.guard("consume", &t, || m.consume(k)).is_none() { return };
                (String::new(), String::new())
            }
            4 => {
                let (mut x, mut y) = (vec![], vec![]);
                let a = plain.read_until(b'\n', &mut x).map_err(|e| e.kind());
                let Some(b) = cx.guard("read_until", &t, || m.read_until(b'\n', &mut y).map_err(|e| e.kind())) else { return };
                (format!("{a:?} {x:?}"), format!("{b:?} {y:?}"))
            }
            5 => {
                let k = r.below(20);
                let (mut x, mut y) = (vec![0; k], vec![0; k]);
                let a = plain.read_exact(&mut x).map_err(|e| e.kind());
                let Some(b) = cx.guard("read_exact", &t, || m.read_exact(&mut y).map_err(|e| e.kind())) else { return };
                (format!("{a:?} {x:?}"), format!("{b:?} {y:?}"))
            }
            // the other ways to read that the traits provide
            6 => {
                let (mut x, mut y) = (b"kept".to_vec(), b"kept".to_vec());
                let a = plain.read_to_end(&mut x).map_err(|e| e.kind());
                let Some(b) = cx.guard("read_to_end", &t, || m.read_to_end(&mut y).map_err(|e| e.kind())) else { return };
                (format!("{a:?} {x:?}"), format!("{b:?} {y:?}"))
            }
            7 => {
                let (mut x, mut y) = ("kept".to_owned(), "kept".to_owned());
                let a = plain.read_line(&mut x).map_err(|e| e.kind());
                let Some(b) = cx.guard("read_line", &t, || m.read_line(&mut y).map_err(|e| e.kind())) else { return };
                (format!("{a:?} {x:?}"), format!("{b:?} {y:?}"))
            }
            8 => {
                let (mut x, mut y) = ("kept".to_owned(), "kept".to_owned());
                let a = plain.read_to_string(&mut x).map_err(|e| e.kind());
                let Some(b) = cx.guard("read_to_string", &t, || m.read_to_string(&mut y).map_err(|e| e.kind())) else { return };
                (format!("{a:?} {x:?}"), format!("{b:?} {y:?}"))
            }
            9 => {
                let (mut x, mut y) = ([[0u8; 7]; 3], [[0u8; 7]; 3]);
                let a = { let mut v: Vec<io::IoSliceMut> = x.iter_mut().map(|s| io::IoSliceMut::new(s)).collect(); plain.read_vectored(&mut v).map_err(|e| e.kind()) };
                let Some(b) = cx.guard("read_vectored", &t, || { let mut v: Vec<io::IoSliceMut> = y.iter_mut().map(|s| io::IoSliceMut::new(s)).collect(); m.read_vectored(&mut v).map_err(|e| e.kind()) }) else { return };
                (format!("{a:?} {x:?}"), format!("{b:?} {y:?}"))
            }
            10 => {
                let k = r.below(9);
                let a: Vec<_> = (&mut plain).bytes().take(k).map(|b| b.map_err(|e| e.kind())).collect();
                let Some(b) = cx.guard("bytes", &t, || (&mut m).bytes().take(k).map(|b| b.map_err(|e| e.kind())).collect::<Vec<_>>()) else { return };
                (format!("{a:?}"), format!("{b:?}"))
            }
            11 => {
                let k = r.below(3);
                let f = |e: io::Error| e.kind();
                let a: Vec<_> = (&mut plain).split(b'{').take(k).map(|b| b.map_err(f)).collect();
                let Some(b) = cx.guard("split", &t, || (&mut m).split(b'{').take(k).map(|b| b.map_err(f)).collect::<Vec<_>>()) else { return };
                (format!("{a:?}"), format!("{b:?}"))
            }
            _ => {
                let k = r.below(40) as u64;
                let (mut x, mut y) = (vec![], vec![]);
                let a = (&mut plain).take(k).read_to_end(&mut x).map_err(|e| e.kind());
                let Some(b) = cx.guard("read_to_end", &t, || (&mut m).take(k).read_to_end(&mut y).map_err(|e| e.kind())) else { return };
                (format!("{a:?} {x:?}"), format!("{b:?} {y:?}"))
            }
        };
        if a != b {
            cx.fail("the mirrored input differs from the input", &trace, &a, &b);
            return;
        }
        let want = &data[..plain.at];
        let good = if m.1.got.len() < cap { m.1.got == want } else { want.starts_with(&m.1.got) };
        if !good {
            cx.fail("the mirror differs from what was consumed", &trace, &format!("{want:?}"), &format!("{:?}", m.1.got));
            return;
        }
        if m.0.at != plain.at {
            cx.fail("the mirrored reader consumed a different amount", &trace, &plain.at.to_string(), &m.0.at.to_string());
            return;
        }
    }
    cx.eval(&trace);
}

//! C17: the lazily computed query cell.
use crate::vx::{Ctx, Rng};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Barrier;
use tinymist_std::QueryRef;

type Cell = QueryRef<u64, String, u64>;

/// what one cell is meant to hold
struct Model {
    ctx: Option<u64>,
    val: Option<Result<u64, String>>,
    at: Option<usize>,
    runs: u64,
}
fn outcome(r: &mut Rng) -> Result<u64, String> {
    if r.chance(1, 3) { Err(format!("e{}", r.below(1000))) } else { Ok(r.next() % 1000) }
}

pub fn run(cx: &mut Ctx) {
    cx.rule = "random histories of creation, computing reads and peeks on one cell against a model; in between, cells read by racing threads".into();
    let mut n = 0;
    while cx.more(n, 30000, 1500000) {
        n += 1;
        let mut r = Rng(cx.rng.next());
        if n % 100 == 0 {
            race(cx, &mut r);
            if n % 500 == 0 {
                peek_inside(cx, &mut r);
            }
            continue;
        }
        history(cx, &mut r);
    }
}

fn history(cx: &mut Ctx, r: &mut Rng) {
    let mut log = vec![];
    let mut m = Model { ctx: None, val: None, at: None, runs: 0 };
    let unit = r.chance(1, 4);
    let cell: Cell = if unit || r.chance(2, 3) {
        let c = r.next() % 1000;
        m.ctx = Some(c);
        log.push(format!("with_context({c})"));
        QueryRef::with_context(c)
    } else {
        let v = r.next() % 1000;
        m.val = Some(Ok(v));
        log.push(format!("with_value({v})"));
        QueryRef::with_value(v)
    };
    // the same history on a cell without a context
    let plain: Option<QueryRef<u64, String>> = unit.then(|| {
        log[0] = "default()".into();
        QueryRef::default()
    });
    let runs = AtomicU64::new(0);
    for _ in 0..r.range(1, 8) {
        let op = r.below(4);
        let out = outcome(r);
        log.push(match op {
            0 => "peek".into(),
            1 => "fmt".into(),
            2 => format!("compute(|| {out:?})"),
            _ => format!("compute_with_context(|c| {out:?})"),
        });
        let show = log.join("; ");
        cx.case(&show);
        if op >= 2 && m.val.is_none() {
            m.val = Some(out.clone());
            m.runs += 1;
        }
        let ctx_ok = AtomicU64::new(1);
        let got: Option<Result<(u64, usize), String>> = match cx.guard("query cell", &show, || match op {
            0 => match &plain {
                Some(p) => p.get_uninitialized(),
                None => cell.get_uninitialized(),
            }
            .map(|x| x.as_ref().map(|v| (*v, v as *const u64 as usize)).map_err(|e| e.clone())),
            1 => {
                let _ = match &plain {
                    Some(p) => format!("{p:?}"),
                    None => format!("{cell:?}"),
                };
                None
            }
            2 => {
                let f = || {
                    runs.fetch_add(1, Ordering::SeqCst);
                    out.clone()
                };
                Some(match &plain {
                    Some(p) => p.compute(f),
                    None => cell.compute(f),
                }
                .map(|v| (*v, v as *const u64 as usize)))
            }
            _ => {
                let k = || {
                    runs.fetch_add(1, Ordering::SeqCst);
                    out.clone()
                };
                Some(match &plain {
                    Some(p) => p.compute_with_context(|()| k()),
                    None => cell.compute_with_context(|c| {
                        if Some(c) != m.ctx {
                            ctx_ok.store(0, Ordering::SeqCst);
                        }
                        k()
                    }),
                }
                .map(|v| (*v, v as *const u64 as usize)))
            }
        }) {
            Some(x) => x,
            None => return,
        };
        if ctx_ok.load(Ordering::SeqCst) == 0 {
            cx.fail("the computation gets the context of its cell", &show, &format!("{:?}", m.ctx), "another context");
            return;
        }
        if runs.load(Ordering::SeqCst) != m.runs {
            cx.fail("computations run", &show, &m.runs.to_string(), &runs.load(Ordering::SeqCst).to_string());
            return;
        }
        if op == 1 {
            continue;
        }
        let plainly = got.as_ref().map(|x| x.as_ref().map(|v| v.0).map_err(|e| e.clone()));
        if plainly != m.val {
            cx.fail("what a reader sees", &show, &format!("{:?}", m.val), &format!("{plainly:?}"));
            return;
        }
        if let Some(Ok((_, at))) = got {
            if m.at.is_some_and(|a| a != at) {
                cx.fail("readers share one value", &show, "the same reference", "another reference");
                return;
            }
            m.at = Some(at);
        }
    }
    cx.eval(&log.join("; "));
}

fn race(cx: &mut Ctx, r: &mut Rng) {
    let k = r.range(2, 6);
    let ready = r.chance(1, 4);
    let outs: Vec<Result<u64, String>> = (0..k).map(|_| outcome(r)).collect();
    let peek: Vec<bool> = (0..k).map(|_| r.chance(1, 4)).collect();
    let show = format!("{k} threads on one cell created {}; computations {outs:?}; peeking only {peek:?}", if ready { "with_value(7)" } else { "with_context(3)" });
    cx.case(&show);
    let cell: Cell = if ready { QueryRef::with_value(7) } else { QueryRef::with_context(3) };
    let runs = AtomicUsize::new(0);
    let bar = Barrier::new(k);
    let got: Vec<std::thread::Result<Option<Result<u64, String>>>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..k)
            .map(|i| {
                let (cell, runs, bar, out, peek) = (&cell, &runs, &bar, outs[i].clone(), peek[i]);
                s.spawn(move || {
                    bar.wait();
                    if peek {
                        return cell.get_uninitialized().cloned();
                    }
                    Some(
                        cell.compute_with_context(|_| {
                            runs.fetch_add(1, Ordering::SeqCst);
                            std::thread::yield_now();
                            out
                        })
                        .copied(),
                    )
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    let want = if ready || peek.iter().all(|p| *p) { 0 } else { 1 };
    let ran = runs.load(Ordering::SeqCst);
    if ran != want {
        cx.fail("computations run", &show, &want.to_string(), &ran.to_string());
        return;
    }
    let last = cell.get_uninitialized().cloned();
    for (i, g) in got.iter().enumerate() {
        let Ok(g) = g else {
            cx.fail("reading does not panic", &show, "a result", "panicked");
            return;
        };
        if (!peek[i] || g.is_some()) && *g != last || g.as_ref().is_some_and(|g| !ready && !outs.contains(g)) {
            cx.fail("what a reader sees", &show, &format!("{last:?}"), &format!("{g:?}"));
            return;
        }
    }
    cx.eval(&show);
}

/// A peek while the computation is under way sees nothing and comes back at
/// once, whether the computation itself or another thread makes it.
fn peek_inside(cx: &mut Ctx, r: &mut Rng) {
    let out = outcome(r);
    let own = r.chance(1, 2);
    let show = format!("peek {} while with_context(3) computes {out:?}", if own { "from the computation" } else { "from another thread" });
    cx.case(&show);
    let cell: std::sync::Arc<Cell> = std::sync::Arc::new(QueryRef::with_context(3));
    let (tx, rx) = std::sync::mpsc::channel();
    let (go, ready) = std::sync::mpsc::channel::<()>();
    let (c, o) = (cell.clone(), out.clone());
    let worker = std::thread::spawn(move || {
        let _ = c.compute_with_context(|_| {
            if own {
                let _ = tx.send(c.get_uninitialized().cloned());
            } else {
                let c = c.clone();
                std::thread::spawn(move || {
                    let _ = tx.send(c.get_uninitialized().cloned());
                });
                // the computation goes on until the peek is back, or given up
                let _ = ready.recv();
            }
            o
        });
    });
    let seen = rx.recv_timeout(std::time::Duration::from_secs(20));
    let _ = go.send(());
    match seen {
        Ok(None) => {
            if worker.join().is_err() || cell.get_uninitialized() != Some(&out) {
                cx.fail("what a reader sees", &show, &format!("{out:?}"), &format!("{:?}", cell.get_uninitialized()));
                return;
            }
            cx.eval(&show)
        }
        Ok(got) => cx.fail("what a peek during the computation sees", &show, "None", &format!("{got:?}")),
        Err(_) => cx.fail("a peek never blocks", &show, "an answer", "no answer in 20 s"),
    }
}

//! C07: a mirrored session over real stdin, in a child process.
use crate::vx::{Ctx, Rng};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use sync_ls::{transport::*, LspMessage};

/// the child: receive everything, then send it back
pub fn child(mirror: &str, replay: &str) -> ! {
    let r = with_stdio_transport::<LspMessage>(MirrorArgs { mirror: mirror.into(), replay: replay.into() }, |conn| {
        for m in conn.receiver.lsp.iter() {
            let _ = conn.sender.lsp.send(m);
        }
        Ok(())
    });
    std::process::exit(if r.is_ok() { 0 } else { 3 })
}

fn session(mirror: &str, replay: &str, chunks: &[Vec<u8>]) -> Option<Vec<u8>> {
    let mut c = Command::new(std::env::current_exe().ok()?)
        .args(["mirror-child", mirror, replay])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let mut i = c.stdin.take()?;
    let chunks = chunks.to_vec();
    let w = std::thread::spawn(move || {
        for c in chunks {
            if i.write_all(&c).and_then(|_| i.flush()).is_err() {
                break;
            }
            std::thread::yield_now();
        }
    });
    let mut o = vec![];
    c.stdout.take()?.read_to_end(&mut o).ok()?;
    let _ = w.join();
    c.wait().ok()?;
    Some(o)
}
fn frame(body: &str) -> Vec<u8> {
    format!("Content-Length: {}\r\n\r\n{}", body.len(), body).into_bytes()
}

pub fn run(cx: &mut Ctx) {
    cx.rule = "random sessions over a pipe in random chunks, with and without a mirror, with a full mirror device, and replayed from the mirror: same messages, mirror = consumed bytes".into();
    let mut n = 0;
    while cx.more(n, 150, 3000) {
        n += 1;
        let seed = cx.rng.next();
        one(cx, seed);
    }
}
fn one(cx: &mut Ctx, seed: u64) {
    let mut r = Rng(seed);
    let mut s = vec![];
    let mut exit = None;
    let mut bad = false;
    for k in 0..r.range(0, 6) {
        match r.below(12) {
            0 if exit.is_none() => {
                s.extend(frame(r#"{"jsonrpc":"2.0","method":"exit"}"#));
                exit = Some(s.len());
            }
            1 => {
                s.extend(b"Content-Length: 3\r\n\r\n{}x");
                bad = true;
            }
            2 => s.extend(frame(&format!(r#"{{"jsonrpc":"2.0","id":{k},"method":"big","params":["{}"]}}"#, "é".repeat(r.range(1, 9000))))),
            _ => s.extend(frame(&format!(r#"{{"jsonrpc":"2.0","id":{k},"method":"m{}","params":{{"a":"ü"}}}}"#, r.below(99)))),
        }
        if bad || exit.is_some() && r.chance(1, 2) {
            break;
        }
    }
    if !bad && r.chance(1, 6) {
        let cut = r.below(s.len() + 1);
        s.truncate(cut);
        exit = exit.filter(|e| *e <= cut);
    }
    let mut chunks = vec![];
    let mut at = 0;
    while at < s.len() {
        let n = if r.chance(1, 4) { 1 } else { r.range(1, 4000) }.min(s.len() - at);
        chunks.push(s[at..at + n].to_vec());
        at += n;
    }
    let file = cx.dir.join("mirror.log");
    let file = file.to_string_lossy().to_string();
    let _ = std::fs::remove_file(&file);
    let show = format!("stdin={:?} in {} chunks", String::from_utf8_lossy(&s).chars().take(1500).collect::<String>(), chunks.len());
    cx.case(&show);
    let (Some(plain), Some(mirrored)) = (session("", "", &chunks), session(&file, "", &chunks)) else { return };
    let show_o = |o: &[u8]| String::from_utf8_lossy(o).chars().take(1500).collect::<String>();
    if plain != mirrored {
        cx.fail("the mirrored session differs from the session", &show, &show_o(&plain), &show_o(&mirrored));
        return;
    }
    let got = std::fs::read(&file).unwrap_or_default();
    if !bad {
        let want = &s[..exit.unwrap_or(s.len())];
        if got != want {
            cx.fail("the mirror differs from the consumed input", &show, &show_o(want), &show_o(&got));
            return;
        }
    } else if !s.starts_with(&got) {
        cx.fail("the mirror is not the start of the input", &show, &show_o(&s), &show_o(&got));
        return;
    }
    match session("", &file, &[]) {
        Some(o) if o != plain => cx.fail("the replayed mirror gives another session", &show, &show_o(&plain), &show_o(&o)),
        _ => {}
    }
    if std::path::Path::new("/dev/full").exists() && r.chance(1, 3) {
        match session("/dev/full", "", &chunks) {
            Some(o) if o != plain => cx.fail("a failing mirror changes the session", &show, &show_o(&plain), &show_o(&o)),
            _ => {}
        }
    }
    cx.done();
    cx.eval(&show);
}

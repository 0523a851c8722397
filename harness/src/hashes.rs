//! C08, C09: fingerprints and the sharded map against independent references.
use crate::vx::{Ctx, Rng};
use std::collections::HashMap;
use std::num::NonZeroU32;
use tinymist_std::adt::FingerprintMap;
use tinymist_std::hash::Fingerprint;

const ALPHA: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn b64(b: &[u8]) -> String {
    let mut o = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..c.len() + 1 {
            o.push(ALPHA[(v >> (18 - 6 * k)) as usize & 63] as char);
        }
    }
    o
}
/// the one text of a fingerprint
fn text_of(lo: u64, hi: u64) -> String {
    let h = hi.to_le_bytes();
    let n = (0..8).rev().find(|i| h[*i] != 0).map(|i| i + 1).unwrap_or(0);
    b64(&lo.to_le_bytes()) + &b64(&h[..n])
}
fn half(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => r.below(3) as u64,
        1 => r.next() & (0xff << (8 * r.below(8))),
        2 => r.next() >> (8 * r.below(8)),
        3 => r.next() << (8 * r.below(8)),
        4 => u64::MAX - r.below(2) as u64,
        _ => r.next(),
    }
}
fn prefix(r: &mut Rng) -> &'static str {
    *r.pick(&["", "g", "fg"])
}

pub fn codecs(cx: &mut Ctx) {
    cx.rule = "random 128-bit fingerprints (sparse bytes, extremes) through both codecs against a reference base64; random and mutated texts must decode exactly when they are an encoding".into();
    let mut n = 0;
    while cx.more(n, 60000, 3000000) {
        n += 1;
        let mut r = Rng(cx.rng.next());
        let (lo, hi) = (half(&mut r), half(&mut r));
        let show = format!("lo={lo:#x} hi={hi:#x}");
        cx.case(&show);
        let fg = Fingerprint::from_pair(lo, hi);
        let num = (hi as u128) << 64 | lo as u128;
        if fg.to_u128() != num || Fingerprint::from_u128(num) != fg || fg.lower32() != lo as u32 {
            cx.fail("integer codec", &show, &format!("{num:#x}"), &format!("{:#x} / {:?}", fg.to_u128(), Fingerprint::from_u128(num)));
            return;
        }
        let want = text_of(lo, hi);
        let p = prefix(&mut r);
        let Some(t) = cx.guard("as_svg_id", &show, || fg.as_svg_id(p)) else { return };
        if t != format!("{p}{want}") {
            cx.fail("textual id", &show, &format!("{p}{want}"), &t);
            return;
        }
        // the id must decode back
        let Some(d) = cx.guard("try_from_str", &want, || Fingerprint::try_from_str(&want)) else { return };
        match d {
            Ok(d) if d == fg => {}
            d => {
                cx.fail("decoding a textual id", &want, &show, &format!("{:?}", d.map(|d| d.to_u128()).map_err(|_| "error")));
                return;
            }
        }
        if n % 16 == 0 {
            let j = serde_json::to_string(&fg).unwrap_or_default();
            let back: Result<Fingerprint, _> = serde_json::from_str(&j);
            if j != format!("\"{want}\"") || back.as_ref().ok() != Some(&fg) {
                cx.fail("serde", &show, &want, &format!("{j} {:?}", back.map(|b| b.to_u128())));
                return;
            }
            comemo_evict(n);
        }
        // a text that may or may not be an encoding
        let mut s: Vec<char> = want.chars().collect();
        match r.below(6) {
            0 => s.truncate(r.below(s.len() + 1)),
            1 => {
                let i = r.below(s.len());
                s[i] = *r.pick(&['A', '/', '=', 'é', ' ', '\u{0}', 'B', 'w']);
            }
            2 => s.push(*r.pick(&['A', 'Q', '=', '\n', '/'])),
            3 => s.insert(r.below(s.len() + 1), *r.pick(&['A', 'é', '-'])),
            4 => s = (0..r.below(26)).map(|_| *r.pick(&['A', 'Q', 'B', '/', 'g'])).collect(),
            _ => s.extend("AA".chars()),
        }
        let s: String = s.into_iter().collect();
        cx.case(&s);
        let Some(d) = cx.guard("decoding a text", &s, || Fingerprint::try_from_str(&s)) else { return };
        if let Ok(d) = d {
            let v = d.to_u128();
            let canon = text_of(v as u64, (v >> 64) as u64);
            if canon != s {
                cx.fail("a text that encodes nothing was decoded", &s, "an error", &canon);
                return;
            }
        } else if reference(&s).is_some() {
            cx.fail("an encoding was rejected", &s, &format!("{:x?}", reference(&s)), "an error");
            return;
        }
        cx.eval(&format!("{show} {s:?}"));
    }
}
fn comemo_evict(_n: u64) {}
/// the fingerprint whose text this is
fn reference(s: &str) -> Option<(u64, u64)> {
    let val = |t: &[u8]| -> Option<Vec<u8>> {
        let d: Option<Vec<u32>> = t.iter().map(|c| ALPHA.iter().position(|a| a == c).map(|x| x as u32)).collect();
        let d = d?;
        let mut o = vec![];
        for c in d.chunks(4) {
            if c.len() == 1 {
                return None;
            }
            let v = c.iter().enumerate().fold(0, |a, (i, x)| a | x << (18 - 6 * i));
            o.extend([(v >> 16) as u8, (v >> 8) as u8, v as u8][..c.len() - 1].iter());
        }
        Some(o)
    };
    let b = s.as_bytes();
    if b.len() < 11 {
        return None;
    }
    let (lo, mut hi) = (val(&b[..11])?, val(&b[11..])?);
    if hi.len() > 8 {
        return None;
    }
    hi.resize(8, 0);
    let (lo, hi) = (u64::from_le_bytes(lo.try_into().ok()?), u64::from_le_bytes(hi.try_into().ok()?));
    (text_of(lo, hi) == s).then_some((lo, hi))
}

pub fn map(cx: &mut Ctx) {
    cx.rule = "every shard request near powers of two and random ones; random insertions through shard() and as_mut_slice(), lookups and drain against a plain map".into();
    let mut n = 0;
    while cx.more(n, 3000, 100000) {
        n += 1;
        let mut r = Rng(cx.rng.next());
        let k = r.below(32) as u32;
        let req = match r.below(4) {
            0 => 1u32 << k,
            1 => (1u32 << k).wrapping_sub(1),
            2 => (1u32 << k).saturating_add(1),
            _ => r.next() as u32 >> r.below(32),
        };
        let Some(nz) = NonZeroU32::new(req) else { continue };
        let show = format!("shards={req}");
        cx.case(&show);
        let Some(mut m) = cx.guard("creating a map", &show, || FingerprintMap::<u32>::new(nz)) else { return };
        if r.chance(1, 20) {
            let Some(d) = cx.guard("the default map", &show, FingerprintMap::<u32>::default) else { return };
            m = d;
        }
        let shards = m.as_mut_slice().len();
        if !shards.is_power_of_two() || shards > 512 {
            cx.fail("shard count", &show, "a power of two up to 512", &shards.to_string());
            return;
        }
        let mut want: HashMap<u128, u32> = HashMap::new();
        let mut trace = show.clone();
        let mut fgs = vec![];
        for _ in 0..r.below(30) {
            let f = Fingerprint::from_pair(half(&mut r), half(&mut r));
            fgs.push(f);
            // and one that differs in one bit
            if r.chance(1, 3) {
                fgs.push(Fingerprint::from_u128(f.to_u128() ^ 1 << r.below(128)));
            }
        }
        for (i, f) in fgs.iter().enumerate() {
            trace.push_str(&format!(" {:x}", f.to_u128()));
            if r.chance(1, 4) {
                continue;
            }
            let t = trace.clone();
            let Some(_) = cx.guard("storing", &t, || m.shard(*f).write().insert(*f, i as u32)) else { return };
            want.insert(f.to_u128(), i as u32);
        }
        for f in &fgs {
            let got = m.shard(*f).read().get(f).copied();
            let has = m.contains_key(f);
            let w = want.get(&f.to_u128()).copied();
            if got != w || has != w.is_some() {
                cx.fail("lookup", &trace, &format!("{:x}: {w:?}", f.to_u128()), &format!("{got:?} contains_key={has}"));
                return;
            }
            // through the slice: the same single shard
            let n = m.as_mut_slice().iter().filter(|s| s.read().contains_key(f)).count();
            if n != w.is_some() as usize {
                cx.fail("shards holding a fingerprint", &trace, &(w.is_some() as usize).to_string(), &n.to_string());
                return;
            }
        }
        // somebody else is at the shard: a lookup waits and sees what was stored
        if n % 50 == 0 {
            for f in fgs.iter().take(3) {
                let ready = std::sync::Barrier::new(2);
                let wait = r.chance(1, 2);
                let (has, got) = std::thread::scope(|s| {
                    s.spawn(|| {
                        let mut g = m.shard(*f).write();
                        g.insert(*f, 7);
                        ready.wait();
                        if wait {
                            std::thread::sleep(std::time::Duration::from_millis(2));
                        }
                        drop(g);
                    });
                    ready.wait();
                    (m.contains_key(f), m.shard(*f).read().get(f).copied())
                });
                want.insert(f.to_u128(), 7);
                if !has || got != Some(7) {
                    cx.fail("lookup while the shard is in use", &format!("{trace}: {:x} stored by a thread still holding the shard", f.to_u128()), "Some(7) contains_key=true", &format!("{got:?} contains_key={has}"));
                    return;
                }
            }
        }
        let mut all: Vec<(u128, u32)> = m.into_items().map(|(f, v)| (f.to_u128(), v)).collect();
        let mut w: Vec<(u128, u32)> = want.into_iter().collect();
        all.sort();
        w.sort();
        if all != w {
            cx.fail("drained items", &trace, &format!("{w:x?}"), &format!("{all:x?}"));
            return;
        }
        cx.eval(&trace);
    }
}

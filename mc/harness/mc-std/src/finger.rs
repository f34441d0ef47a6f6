//! H01 and H03 (sequential part): fingerprints as text, and the sharded map.

use std::collections::BTreeMap;
use std::num::NonZeroU32;

use mccore::explore::{Chooser, Fail};
use mccore::report::Ctx;
use mccore::rt::quietly;
use tinymist_std::adt::fmap::FingerprintMap;
use tinymist_std::hash::Fingerprint;

fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    quietly(f).map_err(|m| Fail::new(format!("{what} panics"), format!("{what} panics: {m}")))
}

/// 64-bit numbers whose bytes are all of `digits`.
fn number(mut i: u64, digits: &[u8]) -> u64 {
    let mut b = [0; 8];
    for x in &mut b {
        *x = digits[(i % digits.len() as u64) as usize];
        i /= digits.len() as u64;
    }
    u64::from_le_bytes(b)
}

fn same(f: Fingerprint, u: u128) -> bool {
    f.to_u128() == u
}

fn round(lo: u64, hi: u64) -> Result<String, Fail> {
    let u = ((hi as u128) << 64) | lo as u128;
    let f = Fingerprint::from_pair(lo, hi);
    if !same(f, u) || Fingerprint::from_u128(u) != f || f.lower32() != lo as u32 {
        return Err(Fail::new("the number of a fingerprint changes", format!("{lo:#x}, {hi:#x}")));
    }
    let t = guard("as_svg_id", || f.as_svg_id(""))?;
    let back = guard("try_from_str", || Fingerprint::try_from_str(&t))?
        .map_err(|e| Fail::new("the text of a fingerprint is refused", format!("{u:#x}: {t:?}: {e}")))?;
    if !same(back, u) {
        return Err(Fail::new("the text names another fingerprint", format!("{u:#x}: {t:?}: {:#x}", back.to_u128())));
    }
    if guard("as_svg_id", || f.as_svg_id("p-"))? != format!("p-{t}") {
        return Err(Fail::new("a prefix changes the text", format!("{u:#x}")));
    }
    let j = guard("serialize", || serde_json::to_string(&f))?.map_err(|e| e.to_string())?;
    let v = guard("serialize", || serde_json::to_value(f))?.map_err(|e| e.to_string())?;
    let b1 = guard("deserialize", || serde_json::from_str::<Fingerprint>(&j))?
        .map_err(|e| Fail::new("a serialized fingerprint is refused", format!("{j}: {e}")))?;
    let b2 = guard("deserialize", || serde_json::from_value::<Fingerprint>(v))?
        .map_err(|e| Fail::new("a serialized fingerprint is refused", format!("{j}: {e}")))?;
    if !same(b1, u) || !same(b2, u) {
        return Err(Fail::new("serialization changes a fingerprint", format!("{u:#x}: {j}")));
    }
    Ok(t)
}

const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

/// Strict base64 without padding.
fn decode(s: &[u8]) -> Option<Vec<u8>> {
    let mut bits = 0u128;
    for c in s {
        bits = bits << 6 | B64.iter().position(|b| b == c)? as u128;
    }
    let n = s.len() * 6;
    let pad = n % 8;
    if pad >= 6 || bits & ((1 << pad) - 1) != 0 {
        return None;
    }
    bits >>= pad;
    let k = n / 8;
    Some((0..k).map(|i| (bits >> (8 * (k - 1 - i))) as u8).collect())
}

/// What a text may stand for; `None` if it cannot be a fingerprint.
fn reference(s: &str) -> Option<u128> {
    let b = s.as_bytes();
    if b.len() < 11 || b.len() > 22 {
        return None;
    }
    let (lo, hi) = (decode(&b[..11])?, decode(&b[11..])?);
    if hi.len() > 8 {
        return None;
    }
    let num = |v: &[u8]| v.iter().rev().fold(0u128, |a, b| a << 8 | *b as u128);
    Some(num(&hi) << 64 | num(&lo))
}

fn parse(s: &str) -> Result<bool, Fail> {
    let want = reference(s);
    let got = guard("try_from_str", || Fingerprint::try_from_str(s))?;
    let j = serde_json::to_string(s).unwrap();
    let de = guard("deserialize", || serde_json::from_str::<Fingerprint>(&j))?;
    for (how, got) in [("try_from_str", got.ok()), ("deserialize", de.ok())] {
        match (want, got) {
            (None, Some(g)) => {
                return Err(Fail::new(
                    format!("{how} accepts what is no fingerprint"),
                    format!("{how}({s:?}) = {:#x}", g.to_u128()),
                ))
            }
            (Some(w), Some(g)) if !same(g, w) => {
                return Err(Fail::new(
                    format!("{how} yields another fingerprint"),
                    format!("{how}({s:?}) = {:#x}, not {w:#x}", g.to_u128()),
                ))
            }
            _ => {}
        }
    }
    Ok(want.is_some())
}

pub fn text(ctx: &mut Ctx) {
    let digits: &[u8] = ctx.by(&[0, 1, 0xff], &[0, 1, 0x80, 0xff]);
    let n = (digits.len() as u64).pow(8);
    let edge: Vec<u64> = {
        let mut v = vec![0, 1, 0xff, 0x100, 0xffff_ffff, 0x1_0000_0000, u64::MAX, 1 << 63, (1 << 56) - 1, 1 << 56];
        v.extend((0..8).map(|i| 0x3e_u64 << (8 * i)));
        v
    };
    let e = edge.len() as u64;
    ctx.inputs(
        "text round trip",
        &format!("fingerprints one half of which has its 8 bytes all of {digits:?} and the other is one of {e} edge values, as text and through serialization"),
        n * e * 2,
        |i, o| {
            let (a, b) = (number(i / 2 / e, digits), edge[(i / 2 % e) as usize]);
            let (lo, hi) = if i % 2 == 0 { (a, b) } else { (b, a) };
            let t = round(lo, hi)?;
            o.sample(|| format!("{lo:#x}, {hi:#x}: {t}"));
            o.outcome(&t);
            if i % 65536 == 0 {
                comemo::evict(1);
            }
            Ok(())
        },
    );

    let sym = ["A", "/", "9", "=", "-", "ü", " ", "\u{0}", "😀", "z"];
    let depth = ctx.by(5u32, 6);
    let n: u64 = (0..=depth).map(|d| (sym.len() as u64).pow(d)).sum();
    ctx.inputs(
        "short texts",
        &format!("every text of at most {depth} symbols of {sym:?}, alone and after 8, 9, 10, 11 and 17 good ones"),
        n * 6,
        |i, o| {
            let mut k = i / 6;
            let mut d = 0;
            while k >= 10u64.pow(d) {
                k -= 10u64.pow(d);
                d += 1;
            }
            let mut s = "AAECAwQFBgcICQoLDA"[..[0, 8, 9, 10, 11, 17][(i % 6) as usize]].to_string();
            for _ in 0..d {
                s.push_str(sym[(k % 10) as usize]);
                k /= 10;
            }
            o.sample(|| s.clone());
            let good = parse(&s)?;
            o.outcome((good, s.len()));
            Ok(())
        },
    );

    // Every edit of good texts.
    let good: Vec<String> = {
        let mut v = vec![];
        for lo in [0u64, 1, u64::MAX, 0x0123_4567_89ab_cdef] {
            for bytes in 0..=8u32 {
                let hi = if bytes == 0 { 0 } else { u64::MAX >> (64 - 8 * bytes) };
                v.push(Fingerprint::from_pair(lo, hi).as_svg_id(""));
            }
        }
        v
    };
    let subst: Vec<String> = (0..=255u8)
        .map(|b| (b as char).to_string())
        .chain(["€", "😀", ""].map(String::from))
        .collect();
    let per = 24 * 2 * subst.len() as u64;
    ctx.inputs(
        "edited texts",
        "36 good texts with any one character replaced, deleted or inserted, and every prefix and doubling of them",
        good.len() as u64 * per,
        |i, o| {
            let s = &good[(i / per) as usize];
            let k = i % per;
            let at = (k / 2 / subst.len() as u64) as usize;
            let new = &subst[(k / 2) as usize % subst.len()];
            if at > s.len() {
                return Ok(());
            }
            let t = if k % 2 == 0 {
                format!("{}{new}{}", &s[..at], s.get(at + 1..).unwrap_or(""))
            } else {
                format!("{}{new}{}", &s[..at], &s[at..])
            };
            o.sample(|| t.clone());
            let r = parse(&t)?;
            parse(&t[..t.char_indices().nth(at).map_or(t.len(), |c| c.0)])?;
            parse(&format!("{t}{t}"))?;
            o.outcome((r, &t));
            Ok(())
        },
    );
}

/// The sharded map against a sorted one.
pub fn map(ctx: &mut Ctx) {
    let mut counts: Vec<u32> = (1..=10).collect();
    counts.extend([16, 17, 63, 64, 65, 255, 256, 257, 511, 512, 513, 1000, 1 << 20, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, u32::MAX]);
    let keys: Vec<(u64, u64)> = vec![
        (0, 0),
        (1, 0),
        (0, 1),
        (0x200, 7),
        (0x1ff, 7),
        (0xffff_ffff_0000_0000, 0),
        (0x1_0000_0001, 0),
        (u64::MAX, u64::MAX),
    ];
    let depth = ctx.by(3, 4);
    let nk = keys.len();
    ctx.explore(
        "histories of the sharded map",
        "histories",
        &format!("every history of {depth} insertions, replacements, removals and whole-map updates over {nk} fingerprints, for each of {} shard counts", counts.len() + 1),
        0,
        |ch: &mut Chooser| {
            let c = ch.choose("shards", counts.len() + 1);
            let mut m: FingerprintMap<u32> = guard("FingerprintMap::new", || {
                counts.get(c).map_or_else(FingerprintMap::default, |&n| FingerprintMap::new(NonZeroU32::new(n).unwrap()))
            })
            .map_err(|f| Fail::new(format!("{} for {:?} shards", f.sig, counts.get(c)), f.msg))?;
            ch.note(|| format!("{:?} shards", counts.get(c)));
            let fg = |k: usize| Fingerprint::from_pair(keys[k].0, keys[k].1);
            let mut want: BTreeMap<u128, u32> = BTreeMap::new();
            for step in 0..depth {
                let op = ch.choose("operation", nk + 3);
                let val = step as u32 + 10;
                if op < nk {
                    // Inserts or replaces.
                    let k = fg(op);
                    let old = guard("insert", || m.shard(k).write().insert(k, val))?;
                    let w = want.insert(k.to_u128(), val);
                    ch.note(|| format!("insert {k:?} = {val}: {old:?}"));
                    if old != w {
                        return Err(Fail::new("an insertion meets another item", format!("{old:?}, not {w:?}")));
                    }
                } else if op < nk + 2 {
                    let k = fg(op - nk);
                    let old = guard("remove", || m.shard(k).write().remove(&k))?;
                    let w = want.remove(&k.to_u128());
                    ch.note(|| format!("remove {k:?}: {old:?}"));
                    if old != w {
                        return Err(Fail::new("a removal meets another item", format!("{old:?}, not {w:?}")));
                    }
                } else {
                    guard("as_mut_slice", || {
                        for s in m.as_mut_slice() {
                            for v in s.get_mut().values_mut() {
                                *v += 100;
                            }
                        }
                    })?;
                    want.values_mut().for_each(|v| *v += 100);
                    ch.note(|| "add 100 to every item".into());
                }
                for k in 0..nk {
                    let k = fg(k);
                    let w = want.get(&k.to_u128()).copied();
                    let has = guard("contains_key", || m.contains_key(&k))?;
                    let got = guard("get", || m.shard(k).read().get(&k).copied())?;
                    if has != w.is_some() || got != w {
                        return Err(Fail::new("a lookup shows another item", format!("{k:?}: {has}, {got:?}, not {w:?}")));
                    }
                }
            }
            ch.observe((c, &want));
            let mut items: Vec<(u128, u32)> = guard("into_items", || m.into_items().map(|(k, v)| (k.to_u128(), v)).collect())?;
            items.sort();
            let want: Vec<_> = want.into_iter().collect();
            if items != want {
                return Err(Fail::new("iteration shows other items", format!("{items:x?}, not {want:x?}")));
            }
            Ok(())
        },
    );
}

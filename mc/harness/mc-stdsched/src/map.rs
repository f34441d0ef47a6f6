//! H03: concurrent use of the sharded map.

use std::collections::BTreeMap;
use std::num::NonZeroU32;
use std::sync::Arc;

use mccore::explore::{Chooser, Fail};
use mccore::report::Ctx;
use mccore::rt::{self, End};
use plain::adt::fmap::FingerprintMap;
use plain::hash::Fingerprint;

#[derive(Clone, Copy, Debug)]
enum Op {
    /// Inserts unless there is something, and tells whether it did.
    Claim(usize, u32),
    Has(usize),
    Add(usize),
}

fn fg(k: usize) -> Fingerprint {
    // Two of one shard, two of another, whatever the number of shards.
    let (lo, hi) = [(0, 0), (0, 1), (1, 0), (1, 1)][k];
    Fingerprint::from_pair(lo, hi)
}

pub fn map(ctx: &mut Ctx) {
    use Op::*;
    let programs: Vec<Vec<Vec<Op>>> = vec![
        vec![vec![Claim(0, 1)], vec![Claim(0, 2)]],
        vec![vec![Claim(0, 1), Claim(1, 1)], vec![Claim(1, 2), Claim(0, 2)]],
        vec![vec![Claim(0, 1), Claim(2, 1)], vec![Claim(1, 2), Claim(3, 2)]],
        vec![vec![Claim(0, 1), Has(1)], vec![Claim(1, 2), Has(0)]],
        vec![vec![Claim(0, 1), Add(0)], vec![Claim(0, 2), Add(0)]],
        vec![vec![Claim(0, 1), Has(0)], vec![Has(0), Has(0)], vec![Claim(1, 2), Has(1)]],
        vec![vec![Claim(0, 1), Add(0)], vec![Claim(1, 2), Add(1)], vec![Claim(2, 3), Add(0)]],
        vec![vec![Claim(0, 1)], vec![Claim(0, 2)], vec![Claim(0, 3)]],
    ];
    let bound = ctx.by(4, 8);
    let programs = &programs;
    ctx.explore(
        "threads on the sharded map",
        "schedules",
        &format!("{} programs of two or three threads that insert into, look into and update shards of one map of 1, 2, 3 or 8 shards, under every schedule with at most {bound} preemptions", programs.len()),
        bound,
        move |ch: &mut Chooser| {
            let prog = programs[ch.choose("program", programs.len())].clone();
            let shards = *ch.pick("shards", &[1, 2, 3, 8]);
            let p2 = prog.clone();
            let res = rt::run(ch, rt::Opts::default(), move || {
                let m: Arc<FingerprintMap<u32>> = Arc::new(FingerprintMap::new(NonZeroU32::new(shards).unwrap()));
                let hs: Vec<_> = p2
                    .into_iter()
                    .enumerate()
                    .map(|(n, ops)| {
                        let m = m.clone();
                        rt::spawn(["t0", "t1", "t2"][n], move || {
                            ops.into_iter()
                                .map(|op| match op {
                                    Claim(k, v) => {
                                        let k = fg(k);
                                        let mut s = m.shard(k).write();
                                        let new = !s.contains_key(&k);
                                        s.entry(k).or_insert(v);
                                        new
                                    }
                                    Has(k) => m.contains_key(&fg(k)),
                                    Add(k) => {
                                        let k = fg(k);
                                        m.shard(k).write().get_mut(&k).map(|v| *v += 100).is_some()
                                    }
                                })
                                .collect::<Vec<bool>>()
                        })
                    })
                    .collect();
                let mut got = vec![];
                for h in hs {
                    got.push(h.join().map_err(|_| "a thread panicked".to_string())?);
                }
                let has: Vec<bool> = (0..4).map(|k| m.contains_key(&fg(k))).collect();
                let m = Arc::try_unwrap(m).map_err(|_| "the map is still shared".to_string())?;
                let mut items: Vec<(u128, u32)> = m.into_items().map(|(k, v)| (k.to_u128(), v)).collect();
                items.sort();
                Ok::<_, String>((got, has, items))
            });
            let bad = |sig: &str, m: String| Err(Fail::new(sig, format!("{prog:?}, {shards} shards: {m}")));
            match res.end {
                End::Done { .. } => {}
                e => return bad("does not end well", format!("{e:?} {:?}", res.panics)),
            }
            let (got, has, items) = match res.value.unwrap() {
                Ok(v) => v,
                Err(e) => return bad(&e.clone(), format!("{e} {:?}", res.panics)),
            };
            ch.observe((&got, &items));
            // Exactly one claim of every key wins, and its value stays.
            let mut want: BTreeMap<u128, u32> = BTreeMap::new();
            let mut adds: BTreeMap<u128, u32> = BTreeMap::new();
            for (ops, rs) in prog.iter().zip(&got) {
                let mut own = vec![];
                for (op, r) in ops.iter().zip(rs) {
                    match *op {
                        Claim(k, v) => {
                            own.push(k);
                            if *r && want.insert(fg(k).to_u128(), v).is_some() {
                                return bad("two insertions of one key succeed", format!("{got:?}"));
                            }
                        }
                        Has(k) if own.contains(&k) && !r => return bad("an own insertion is not seen", format!("{got:?}")),
                        Has(_) => {}
                        Add(k) => {
                            if own.contains(&k) && !r {
                                return bad("an own insertion is not seen", format!("{got:?}"));
                            }
                            *adds.entry(fg(k).to_u128()).or_default() += if *r { 100 } else { 0 };
                        }
                    }
                }
            }
            for (k, a) in adds {
                if let Some(v) = want.get_mut(&k) {
                    *v += a;
                }
            }
            let claimed: Vec<bool> = (0..4).map(|k| prog.iter().flatten().any(|o| matches!(o, Claim(x, _) if *x == k))).collect();
            if has != claimed {
                return bad("an insertion is lost", format!("{has:?}, not {claimed:?}"));
            }
            let want: Vec<_> = want.into_iter().collect();
            if items != want {
                return bad("the map holds other items", format!("{items:x?}, not {want:x?}"));
            }
            Ok(())
        },
    );
}

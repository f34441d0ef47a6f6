//! Q01: one computation per query, one result for everybody.

use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

use mccore::explore::{Chooser, Fail};
use mccore::report::Ctx;
use mccore::rt::{self, End};
use plain::QueryRef;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    /// Asks for the result.
    Compute,
    /// Asks with the context.
    WithContext,
    /// Looks without waiting.
    Peek,
    /// Formats the query.
    Debug,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
    Value,
    Context,
}

type Q = QueryRef<(u32, u32), String, u32>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Seen {
    Got(Result<(u32, u32), String>),
    Peeked(Option<Result<(u32, u32), String>>),
    Shown,
}

fn program(ch: &mut Chooser, programs: &[Vec<Vec<Op>>]) -> Result<(), Fail> {
    let prog = programs[ch.choose("program", programs.len())].clone();
    let kind = *ch.pick("made from", &[Kind::Context, Kind::Value]);
    let fails = kind == Kind::Context && ch.choose("fails", 2) == 1;
    let long = ch.choose("yields inside", 3);
    let runs = Arc::new(AtomicUsize::new(0));
    let (p2, r2) = (prog.clone(), runs.clone());
    let res = rt::run(ch, rt::Opts::default(), move || {
        let q: Arc<Q> = Arc::new(match kind {
            Kind::Value => QueryRef::with_value((7, 7)),
            Kind::Context => QueryRef::with_context(42),
        });
        let hs: Vec<_> = p2
            .into_iter()
            .enumerate()
            .map(|(n, ops)| {
                let (q, runs) = (q.clone(), r2.clone());
                rt::spawn(["t0", "t1", "t2", "t3"][n], move || {
                    let me = n as u32 + 1;
                    ops.into_iter()
                        .enumerate()
                        .map(|(k, op)| {
                            // Every attempt would yield another value.
                            let body = |ctx: u32| {
                                runs.fetch_add(1, SeqCst);
                                for _ in 0..long {
                                    rt::point("computing");
                                }
                                if fails {
                                    Err(format!("{ctx} {me} {k}"))
                                } else {
                                    Ok((ctx, me * 10 + k as u32))
                                }
                            };
                            let s = match op {
                                Op::Compute => Seen::Got(q.compute(|| body(42)).map(|r| *r)),
                                Op::WithContext => Seen::Got(q.compute_with_context(body).map(|r| *r)),
                                Op::Peek => Seen::Peeked(q.get_uninitialized().cloned()),
                                Op::Debug => {
                                    let _ = format!("{q:?}");
                                    Seen::Shown
                                }
                            };
                            rt::note(|| format!("t{n} {op:?}: {s:?}"));
                            s
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        let mut got = vec![];
        for h in hs {
            got.push(h.join().map_err(|_| "a thread panicked".to_string())?);
        }
        let last = q.get_uninitialized().cloned();
        Ok::<_, String>((got, last))
    });
    let bad = |sig: &str, m: String| Err(Fail::new(sig, format!("{prog:?} {kind:?} {fails}: {m}")));
    match res.end {
        End::Done { .. } => {}
        e => return bad("does not end well", format!("{e:?} {:?}", res.panics)),
    }
    let (got, last) = match res.value.unwrap() {
        Ok(v) => v,
        Err(e) => return bad(&e.clone(), format!("{e} {:?}", res.panics)),
    };
    ch.observe((&got, &last));
    let runs = runs.load(SeqCst);
    let asked = prog.iter().flatten().any(|o| matches!(o, Op::Compute | Op::WithContext));
    let want = usize::from(asked && kind == Kind::Context);
    if runs != want {
        return bad("the computation does not run once", format!("{runs} times"));
    }
    if last.is_some() != (asked || kind == Kind::Value) {
        return bad("the result is lost", format!("{last:?}"));
    }
    if kind == Kind::Value && last != Some(Ok((7, 7))) {
        return bad("another value", format!("{last:?}"));
    }
    if let Some(Ok((c, _))) = &last {
        if kind == Kind::Context && *c != 42 {
            return bad("another context", format!("{last:?}"));
        }
    }
    for t in &got {
        let mut known = kind == Kind::Value;
        for s in t {
            match s {
                Seen::Got(r) => {
                    known = true;
                    if Some(r) != last.as_ref() {
                        return bad("threads see different results", format!("{r:?} and {last:?}"));
                    }
                }
                Seen::Peeked(None) if known => return bad("a result that was there is gone", format!("{got:?}")),
                Seen::Peeked(None) => {}
                Seen::Peeked(Some(r)) => {
                    known = true;
                    if Some(r) != last.as_ref() {
                        return bad("a look shows another result", format!("{r:?} and {last:?}"));
                    }
                }
                Seen::Shown => {}
            }
        }
    }
    Ok(())
}

pub fn query(ctx: &mut Ctx) {
    use Op::*;
    let mut programs: Vec<Vec<Vec<Op>>> = vec![];
    let ops = [Compute, WithContext, Peek, Debug];
    // Every pair of threads with one or two operations each.
    let mut one: Vec<Vec<Op>> = ops.iter().map(|o| vec![*o]).collect();
    for a in ops {
        for b in [Compute, Peek] {
            one.push(vec![a, b]);
        }
    }
    for a in &one {
        for b in &one {
            programs.push(vec![a.clone(), b.clone()]);
        }
    }
    let two = programs.len();
    for a in [Compute, WithContext] {
        for b in ops {
            for c in [vec![Compute], vec![Peek], vec![Peek, WithContext], vec![Peek, Peek]] {
                programs.push(vec![vec![a], vec![b], c]);
            }
        }
    }
    programs.push(vec![vec![Compute]; 4]);
    let bound = ctx.by(3, 5);
    let programs = &programs;
    ctx.explore(
        "threads on one query",
        "schedules",
        &format!("{two} programs of two threads and {} of three or four that ask for, look at and format one query made from a context or a value, whose computation succeeds or fails and yields up to twice, under every schedule with at most {bound} preemptions", programs.len() - two),
        bound,
        move |ch| program(ch, programs),
    );

    ctx.explore(
        "a look never waits",
        "schedules",
        "a computation that waits until another thread has looked at the query",
        bound,
        move |ch: &mut Chooser| {
            let looks = ch.choose("looks", 3) + 1;
            let res = rt::run(ch, rt::Opts::default(), move || {
                let q: Arc<Q> = Arc::new(QueryRef::with_context(1));
                let looked = Arc::new(AtomicUsize::new(0));
                let (q2, l2) = (q.clone(), looked.clone());
                let started = Arc::new(AtomicUsize::new(0));
                let s2 = started.clone();
                let h = rt::spawn("computing", move || {
                    q2.compute(|| {
                        s2.store(1, SeqCst);
                        let l = l2.clone();
                        rt::block("waits for the look", move || l.load(SeqCst) == looks);
                        Ok((1, 1))
                    })
                    .is_ok()
                });
                rt::block("started", move || started.load(SeqCst) == 1);
                let mut early = vec![];
                for _ in 0..looks {
                    early.push(q.get_uninitialized().cloned());
                    looked.fetch_add(1, SeqCst);
                }
                (early, h.join().unwrap_or(false), q.get_uninitialized().cloned())
            });
            match (res.end, res.value) {
                (End::Done { .. }, Some((early, true, Some(Ok((1, 1)))))) if early[..].iter().all(Option::is_none) => Ok(()),
                (End::Done { .. }, v) => Err(Fail::new("a look shows a half-made result", format!("{v:?}"))),
                (e, _) => Err(Fail::new("a look waits for the computation", format!("{e:?}"))),
            }
        },
    );

    ctx.explore("default queries", "histories", "every history of up to three operations on a query without context", 0, |ch: &mut Chooser| {
        let q: QueryRef<u32, String> = Default::default();
        let mut first: Option<Result<u32, String>> = None;
        for k in 0..3u32 {
            match ch.choose("operation", 4) {
                0 => {
                    let r = rt::quietly(|| q.compute(|| Ok(k)).copied())?;
                    let w = first.get_or_insert(Ok(k)).clone();
                    if r != w {
                        return Err(Fail::new("another result", format!("{r:?}, not {w:?}")));
                    }
                }
                1 => {
                    let r = rt::quietly(|| q.compute_with_context(|()| Err(k.to_string())).copied())?;
                    let w = first.get_or_insert(Err(k.to_string())).clone();
                    if r != w {
                        return Err(Fail::new("another result", format!("{r:?}, not {w:?}")));
                    }
                }
                2 => {
                    let r = q.get_uninitialized().cloned();
                    if r != first {
                        return Err(Fail::new("another look", format!("{r:?}, not {first:?}")));
                    }
                }
                _ => {
                    let t = rt::quietly(|| format!("{q:?}"))?;
                    if let Some(Ok(v)) = &first {
                        if !t.contains(&format!("Ok({v})")) {
                            return Err(Fail::new("the shown query lacks its result", t));
                        }
                    }
                }
            }
            ch.observe((k, &first));
        }
        Ok(())
    });
}

//! H02: fingerprints of one builder identify its items.

use std::any::TypeId;
use std::collections::HashMap;
use std::hash::Hash;
use std::sync::{Arc, OnceLock};

use mccore::explore::{Chooser, Fail};
use mccore::report::Ctx;
use mccore::rt::{self, End};

/// Items of several types, some of which hash the same data.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Item {
    U32(u32),
    I32(i32),
    Str(&'static str),
    String(&'static str),
    Pair(&'static str, &'static str),
    Bytes(&'static [u8]),
    U64(u64),
}

/// How an item is asked for: checked or not.
type Ask = (Item, bool);

/// A builder of either variant.
trait Builder: Default + Send + Sync + 'static {
    const NAME: &'static str;
    fn ask(&self, a: Ask) -> u128;
    /// The cheap hash of what a checked request hashes.
    fn fast(i: u64) -> u32;
}

macro_rules! builder {
    ($t:ident, $m:ident, $name:literal) => {
        #[derive(Default)]
        struct $t($m::hash::FingerprintBuilder);
        impl Builder for $t {
            const NAME: &'static str = $name;
            fn ask(&self, (i, checked): Ask) -> u128 {
                fn go<T: Hash + 'static>(b: &$m::hash::FingerprintBuilder, t: T, checked: bool) -> u128 {
                    if checked { b.resolve(&t) } else { b.resolve_unchecked(&t) }.to_u128()
                }
                let b = &self.0;
                match i {
                    Item::U32(x) => go(b, x, checked),
                    Item::I32(x) => go(b, x, checked),
                    Item::Str(x) => go(b, x, checked),
                    Item::String(x) => go(b, x.to_string(), checked),
                    Item::Pair(x, y) => go(b, (x, y), checked),
                    Item::Bytes(x) => go(b, x.to_vec(), checked),
                    Item::U64(x) => go(b, x, checked),
                }
            }
            fn fast(i: u64) -> u32 {
                let mut h = $m::hash::FingerprintSipHasher::default();
                TypeId::of::<u64>().hash(&mut h);
                i.hash(&mut h);
                h.fast_hash().0
            }
        }
    };
}
builder!(Plain, plain, "the default builder");
builder!(Bi, bi, "the builder with cheap hashes");

/// Two pairs of numbers, each with one cheap hash, and a fifth number.
fn colliding<B: Builder>() -> Vec<u64> {
    let mut seen: HashMap<u32, u64> = HashMap::new();
    let mut out = vec![];
    for i in 0..2_000_000u64 {
        // Both halves vary: one alone would never collide.
        let i = i.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        if let Some(j) = seen.insert(B::fast(i), i) {
            out.extend([j, i]);
            if out.len() == 4 {
                break;
            }
        }
    }
    out.extend([1, 2, 3, 4, 5]);
    out.truncate(5);
    // The second pair last.
    out.swap(2, 4);
    out
}

/// Equal items asked for the same way have equal fingerprints, different ones
/// different fingerprints. Unchecked requests ignore the type.
fn judge(seen: &[(Ask, u128)]) -> Result<(), Fail> {
    for (n, (a, fa)) in seen.iter().enumerate() {
        for (b, fb) in &seen[..n] {
            if a == b && fa != fb {
                return Err(Fail::new("one item has two fingerprints", format!("{a:?}: {fa:#x} and {fb:#x}")));
            }
            let types = std::mem::discriminant(&a.0) != std::mem::discriminant(&b.0);
            let differ = a.0 != b.0 && (a.1 && b.1 || !types);
            if differ && fa == fb {
                return Err(Fail::new("two items have one fingerprint", format!("{a:?} and {b:?}: {fa:#x}")));
            }
        }
    }
    Ok(())
}

fn schedules<B: Builder>(ctx: &mut Ctx, hard: &'static [u64]) {
    let h = |k: usize| Item::U64(hard[k]);
    let c = |i| (i, true);
    let u = |i| (i, false);
    // Who asks for what.
    let cases: Vec<Vec<Vec<Ask>>> = vec![
        vec![vec![c(h(0))], vec![c(h(0))]],
        vec![vec![c(h(0))], vec![c(h(1))]],
        vec![vec![c(h(0)), c(h(1))], vec![c(h(1)), c(h(0))]],
        vec![vec![c(h(0)), c(h(0))], vec![c(h(1)), c(h(0))]],
        vec![vec![c(h(0))], vec![c(h(1))], vec![c(h(2))]],
        vec![vec![c(h(0))], vec![c(h(0))], vec![c(h(1))]],
        vec![vec![c(h(0)), c(h(3))], vec![c(h(1)), c(h(4))]],
        vec![vec![c(h(0)), c(h(1))], vec![c(h(2)), c(h(0))]],
        vec![vec![u(h(0))], vec![u(h(1))]],
        vec![vec![u(h(0)), u(h(1))], vec![u(h(1)), u(h(0))]],
        vec![vec![u(h(0)), c(h(1))], vec![c(h(0)), u(h(1))]],
        vec![vec![c(Item::U32(7)), c(Item::I32(7))], vec![c(Item::I32(7)), c(Item::U32(7))]],
        vec![vec![c(Item::Str("ab")), c(Item::String("ab"))], vec![c(Item::String("ab")), c(Item::Str("ab"))]],
        vec![vec![c(Item::Pair("a", "bc"))], vec![c(Item::Pair("ab", "c"))], vec![c(Item::Str("abc"))]],
        vec![vec![c(h(0)), c(h(1)), c(h(2))], vec![c(h(2)), c(h(1)), c(h(0))]],
    ];
    let bound = ctx.by(5, 8);
    let cases = &cases;
    ctx.explore(
        &format!("threads of {}", B::NAME),
        "schedules",
        &format!("{} programs of two or three threads that ask one builder for up to three items each, colliding and equal ones among them, under every schedule with at most {bound} preemptions; afterwards every item is asked for again", cases.len()),
        bound,
        move |ch: &mut Chooser| {
            let case = cases[ch.choose("program", cases.len())].clone();
            let shown = format!("{case:?}");
            let res = rt::run(ch, rt::Opts::default(), move || {
                let b = Arc::new(B::default());
                let hs: Vec<_> = case
                    .iter()
                    .cloned()
                    .enumerate()
                    .map(|(n, asks)| {
                        let b = b.clone();
                        rt::spawn(["t0", "t1", "t2"][n], move || {
                            asks.into_iter()
                                .map(|a| {
                                    let f = b.ask(a);
                                    rt::note(|| format!("{a:?} -> {f:#x}"));
                                    (a, f)
                                })
                                .collect::<Vec<_>>()
                        })
                    })
                    .collect();
                let mut seen = vec![];
                for h in hs {
                    seen.extend(h.join().map_err(|_| "a thread panicked".to_string())?);
                }
                // What was asked for once keeps its fingerprint.
                for asks in &case {
                    for a in asks {
                        seen.push((*a, b.ask(*a)));
                    }
                }
                Ok::<_, String>(seen)
            });
            match res.end {
                End::Done { .. } => {}
                e => return Err(Fail::new("does not end well", format!("{shown}: {e:?} {:?}", res.panics))),
            }
            let seen = res.value.unwrap().map_err(|e| Fail::new(e.clone(), format!("{shown}: {e} {:?}", res.panics)))?;
            // The numbers change from build to build: only which are the same counts.
            let mut nums = vec![];
            for (_, f) in &seen {
                let k = nums.iter().position(|x| x == f).unwrap_or_else(|| {
                    nums.push(*f);
                    nums.len() - 1
                });
                ch.observe((k, *f >> 64 == 0));
            }
            judge(&seen)
        },
    );
}

fn histories<B: Builder>(ctx: &mut Ctx, hard: &'static [u64]) {
    let mut items: Vec<Item> = hard.iter().map(|&i| Item::U64(i)).collect();
    items.extend([
        Item::U32(1),
        Item::I32(1),
        Item::Str("a"),
        Item::String("a"),
        Item::Pair("a", "bc"),
        Item::Pair("ab", "c"),
        Item::Bytes(b""),
        Item::Bytes(&[0]),
        Item::U64(u64::MAX),
    ]);
    let depth = ctx.by(4, 5);
    let items = &items;
    ctx.explore(
        &format!("histories of {}", B::NAME),
        "histories",
        &format!("every history of {depth} requests for {} items of seven types, {} of which collide in the cheap hash; checked, and the first three unchecked too", items.len(), hard.len()),
        0,
        move |ch: &mut Chooser| {
            let b = B::default();
            let mut seen = vec![];
            for _ in 0..depth {
                let k = ch.choose("item", items.len() + 3);
                let a = if k < items.len() { (items[k], true) } else { (items[k - items.len()], false) };
                let f = rt::quietly(|| b.ask(a)).map_err(|m| Fail::new("a request panics", format!("{a:?} after {seen:?}: {m}")))?;
                ch.note(|| format!("{a:?} -> {f:#x}"));
                seen.push((a, f));
                ch.observe(a);
            }
            judge(&seen)
        },
    );
}

/// Small items of many shapes, each with how it differs from the others of
/// its type.
fn shapes() -> Vec<Shape> {
    let n: [u8; 4] = [0, 1, 5, 255];
    let texts = ["", "a", "ab", "b", "\0", "a\0", "\u{ff}", "\0a"];
    let mut out = vec![];
    for a in n {
        out.push(Shape::Opt(None));
        out.push(Shape::Opt(Some(None)));
        out.push(Shape::Opt(Some(Some(a))));
        for b in n {
            out.push(Shape::Pair(a, b));
            out.push(Shape::Wide(a as u64, b as u16));
            out.push(Shape::Lists(vec![], vec![a, b]));
            out.push(Shape::Lists(vec![a], vec![b]));
            out.push(Shape::Lists(vec![a, b], vec![]));
            for c in n {
                out.push(Shape::Triple(a, b, c));
                out.push(Shape::Lists(vec![a, b], vec![c]));
                out.push(Shape::Lists(vec![a], vec![b, c]));
                out.push(Shape::Lists(vec![a, b, c], vec![]));
                for d in n {
                    out.push(Shape::Bytes([a, b, c, d]));
                }
            }
        }
    }
    for a in texts {
        out.push(Shape::Text(a.into()));
        for b in texts {
            out.push(Shape::Texts(vec![a.into(), b.into()]));
            out.push(Shape::TextPair(a.into(), b.into()));
        }
        out.push(Shape::Texts(vec![a.into()]));
    }
    out.push(Shape::Texts(vec![]));
    out.push(Shape::Unit);
    out.sort();
    out.dedup();
    out
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Shape {
    Opt(Option<Option<u8>>),
    Pair(u8, u8),
    Wide(u64, u16),
    Triple(u8, u8, u8),
    Lists(Vec<u8>, Vec<u8>),
    Bytes([u8; 4]),
    Text(String),
    Texts(Vec<String>),
    TextPair(String, String),
    Unit,
}

/// Many items in one builder: none shares a fingerprint with another one.
fn many<B: Shaped>(ctx: &mut Ctx) {
    let all = shapes();
    let all = &all;
    let n = ctx.by(1u64 << 19, 1 << 21);
    ctx.explore(
        &format!("many items of {}", B::NAME),
        "inputs",
        &format!("{} small items of ten types and the numbers below {n}, checked and not, forwards and backwards, each twice", all.len()),
        0,
        |ch: &mut Chooser| {
            let b = B::default();
            let checked = ch.choose("checked", 2) == 0;
            let back = ch.choose("backwards", 2) == 1;
            let numbers = ch.choose("numbers", 2) == 1;
            let total = if numbers { n as usize } else { all.len() };
            let mut seen: HashMap<(u8, u128), usize> = HashMap::new();
            let mut first = vec![0; total];
            for round in 0..2 {
                for k in 0..total {
                    let i = if back { total - 1 - k } else { k };
                    let show = || if numbers { format!("number {i}") } else { format!("{:?}", all[i]) };
                    let (ty, f) = rt::quietly(|| if numbers { (0, b.number(i as u64, checked)) } else { b.shape(&all[i], checked) })
                        .map_err(|m| Fail::new("a request panics", format!("{}: {m}", show())))?;
                    if round == 1 {
                        if f != first[i] {
                            return Err(Fail::new("one item has two fingerprints", format!("{}: {:#x} and {f:#x}", show(), first[i])));
                        }
                        continue;
                    }
                    first[i] = f;
                    // Unchecked requests ignore the type.
                    if let Some(j) = seen.insert((if checked { 0 } else { ty }, f), i) {
                        let other = if numbers { format!("number {j}") } else { format!("{:?}", all[j]) };
                        return Err(Fail::new("two items have one fingerprint", format!("{} and {other}: {f:#x}", show())));
                    }
                }
            }
            ch.observe((checked, back, numbers));
            Ok(())
        },
    );
}

trait Shaped: Builder {
    fn number(&self, i: u64, checked: bool) -> u128;
    /// The number of the type, and the fingerprint.
    fn shape(&self, s: &Shape, checked: bool) -> (u8, u128);
}
macro_rules! shaped {
    ($t:ident, $m:ident) => {
        impl Shaped for $t {
            fn number(&self, i: u64, checked: bool) -> u128 {
                self.ask((Item::U64(i), checked))
            }
            fn shape(&self, s: &Shape, checked: bool) -> (u8, u128) {
                fn go<T: Hash + 'static>(b: &$m::hash::FingerprintBuilder, t: T, checked: bool) -> u128 {
                    if checked { b.resolve(&t) } else { b.resolve_unchecked(&t) }.to_u128()
                }
                let (b, c) = (&self.0, checked);
                match s.clone() {
                    Shape::Opt(x) => (0, go(b, x, c)),
                    Shape::Pair(x, y) => (1, go(b, (x, y), c)),
                    Shape::Wide(x, y) => (2, go(b, (x, y), c)),
                    Shape::Triple(x, y, z) => (3, go(b, (x, y, z), c)),
                    Shape::Lists(x, y) => (4, go(b, (x, y), c)),
                    Shape::Bytes(x) => (5, go(b, x, c)),
                    Shape::Text(x) => (6, go(b, x, c)),
                    Shape::Texts(x) => (7, go(b, x, c)),
                    Shape::TextPair(x, y) => (8, go(b, (x, y), c)),
                    Shape::Unit => (9, go(b, (), c)),
                }
            }
        }
    };
}
shaped!(Plain, plain);
shaped!(Bi, bi);

fn leaked<B: Builder>(cell: &'static OnceLock<Vec<u64>>) -> &'static [u64] {
    cell.get_or_init(colliding::<B>)
}

pub fn identify(ctx: &mut Ctx) {
    static P: OnceLock<Vec<u64>> = OnceLock::new();
    static B: OnceLock<Vec<u64>> = OnceLock::new();
    let (p, b) = (leaked::<Plain>(&P), leaked::<Bi>(&B));
    schedules::<Bi>(ctx, b);
    schedules::<Plain>(ctx, p);
    histories::<Bi>(ctx, b);
    histories::<Plain>(ctx, p);
    many::<Bi>(ctx);
    many::<Plain>(ctx);
}

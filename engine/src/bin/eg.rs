//! Stand-in for the range module: every pair of ranges over a small domain, through the public
//! interface, against the set of points each one denotes. Same command line as the other binaries.
use serde::{Deserialize, Serialize};
use sherman::range::{EndBound, RangeBounds, StartBound};

#[derive(Copy, Clone, Serialize, Deserialize, Debug, PartialEq)]
struct R { lo: Option<u8>, hi: Option<(u8, bool)> }
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case { a: R, b: R, form: u8 }

const D: u8 = 5;
fn inside(r: R, v: i16) -> bool {
    r.lo.map_or(true, |x| x as i16 <= v) && r.hi.map_or(true, |(y, inc)| if inc { v <= y as i16 } else { v < y as i16 })
}
fn pts() -> impl Iterator<Item = i16> { -1..=(D as i16) }

fn check<Q: RangeBounds<u8>>(q: &Q, r: R, b: R) -> Result<(), String> {
    match (q.start_bound(), r.lo) {
        (StartBound::Included(x), Some(y)) if *x == y => (),
        (StartBound::Unbounded, None) => (),
        (s, _) => return Err(format!("start bound of {r:?} reported as {s:?}")),
    }
    match (q.end_bound(), r.hi) {
        (EndBound::Included(x), Some((y, true))) if *x == y => (),
        (EndBound::Excluded(x), Some((y, false))) if *x == y => (),
        (EndBound::Unbounded, None) => (),
        (s, _) => return Err(format!("end bound of {r:?} reported as {s:?}")),
    }
    for v in 0..D {
        if q.contains(&v) != inside(r, v as i16) { return Err(format!("{r:?} contains {v}: {}", q.contains(&v))); }
    }
    let any = pts().any(|v| inside(r, v));
    if q.is_empty_naive() == any { return Err(format!("{r:?} empty: {}", q.is_empty_naive())); }
    if q.starts_after_end() == (any || r.lo.is_none() || r.hi.is_none()) { return Err(format!("{r:?} reversed: {}", q.starts_after_end())); }
    let both = pts().any(|v| inside(r, v) && inside(b, v));
    if q.overlaps_naive(bounds(b)) != both { return Err(format!("{r:?} overlaps {b:?}: {}", q.overlaps_naive(bounds(b)))); }
    if q.overlaps_naive(&bounds(b)) != both { return Err(format!("{r:?} overlaps &{b:?}: {}", !both)); }
    Ok(())
}
fn bounds(r: R) -> (StartBound<u8>, EndBound<u8>) {
    (r.lo.map_or(StartBound::Unbounded, StartBound::Included), r.hi.map_or(EndBound::Unbounded, |(y, i)| if i { EndBound::Included(y) } else { EndBound::Excluded(y) }))
}
/// The forms a range can be written in.
fn run(c: &Case) -> Result<bool, String> {
    let (r, b) = (c.a, c.b);
    Ok(match c.form {
        0 => { check(&bounds(r), r, b)?; true }
        1 => { check(&&bounds(r), r, b)?; true }
        2 => {
            let (x, y) = (r.lo, r.hi);
            match (&x, &y) {
                (Some(x), Some((y, false))) => { check(&(*x..*y), r, b)?; check(&(x..y), r, b)? }
                (Some(x), Some((y, true))) => { check(&(*x..=*y), r, b)?; check(&(x..=y), r, b)? }
                (Some(x), None) => { check(&(*x..), r, b)?; check(&(x..), r, b)? }
                (None, Some((y, false))) => { check(&(..*y), r, b)?; check(&(..y), r, b)? }
                (None, Some((y, true))) => { check(&(..=*y), r, b)?; check(&(..=y), r, b)? }
                (None, None) => check(&(..), r, b)?,
            }
            true
        }
        _ => {
            let p = bounds(r);
            let s: StartBound<&u8> = match &p.0 { StartBound::Included(x) => StartBound::Included(x), StartBound::Unbounded => StartBound::Unbounded };
            let e: EndBound<&u8> = match &p.1 { EndBound::Included(x) => EndBound::Included(x), EndBound::Excluded(x) => EndBound::Excluded(x), EndBound::Unbounded => EndBound::Unbounded };
            check(&(s, e), r, b)?;
            check(&(s.cloned(), e.cloned()), r, b)?;
            true
        }
    })
}
fn all() -> Vec<R> {
    let mut v = vec![];
    for lo in std::iter::once(None).chain((0..D).map(Some)) {
        for hi in std::iter::once(None).chain((0..D).flat_map(|y| [Some((y, false)), Some((y, true))])) {
            v.push(R { lo, hi });
        }
    }
    v
}
fn guarded(c: &Case) -> Result<bool, String> {
    std::panic::catch_unwind(|| run(c)).unwrap_or_else(|_| Err(format!("panic on {c:?}")))
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    std::panic::set_hook(Box::new(|_| ()));
    match a[1].as_str() {
        "search" => {
            let shard: usize = get("--shard").unwrap().parse().unwrap();
            let shards: usize = get("--shards").unwrap().parse().unwrap();
            let (mut n, mut i) = (0u64, 0usize);
            let mut samples = vec![];
            for &x in &all() { for &y in &all() { for form in 0..4 {
                i += 1;
                if i % shards != shard { continue; }
                let c = Case { a: x, b: y, form };
                if n % 997 == 5 && samples.len() < 3 { samples.push(serde_json::to_string(&c).unwrap()); }
                n += 1;
                if let Err(what) = guarded(&c) {
                    let v = serde_json::json!({"property": "C16", "what": what, "case": c});
                    std::fs::write(get("--out").unwrap(), serde_json::to_string_pretty(&v).unwrap()).unwrap();
                    println!("FAIL {what}");
                    std::process::exit(1);
                }
            } } }
            println!("{}", serde_json::json!({"cases": n, "nontrivial": n, "samples": samples}));
        }
        "replay" => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            match guarded(&serde_json::from_value(v["case"].clone()).unwrap()) {
                Ok(_) => println!("REPLAY holds"),
                Err(w) => { println!("REPLAY fails: {w}"); std::process::exit(1) }
            }
        }
        _ => (),
    }
}

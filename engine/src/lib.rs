//! engine search --prop C01 --shard i --shards n --seconds s --seed k --journal f --out f
//! engine replay FILE
//! Labelled-bounded stand-in and replay tool: see DESIGN.md.
pub mod run;
pub mod sl;
use run::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use std::time::{Duration, Instant};

struct Counting;
static BYTES: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BYTES.fetch_add(l.size() as i64, Relaxed);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BYTES.fetch_sub(l.size() as i64, Relaxed);
        // freed memory is scribbled over, so that a stale read cannot look right
        unsafe {
            std::ptr::write_bytes(p, 0xd5, l.size());
            System.dealloc(p, l)
        }
    }
}
#[global_allocator]
static A: Counting = Counting;

pub type Out = Result<Stats, Fail>;

/// The configurations one binary is compiled for.
#[macro_export]
macro_rules! table {
    ($( $k:literal $m:literal $ix:literal $j:literal => $P:ty, $I:ty; )*) => {
        fn main() {
            fn go(c: &engine::run::Case, mask: u32) -> engine::Out {
                match (c.p, c.m, c.ix, c.j) {
                    $( ($k, $m, $ix, $j) => engine::run::run_case::<$I, $P, $m, $j>(c, mask), )*
                    _ => Err(engine::run::Fail { at: 0, what: "engine: no such configuration".into() }),
                }
            }
            engine::main_with(go, &[$( ($k, $m, $ix, $j), )*]);
        }
    };
}
pub type Go = fn(&Case, u32) -> Out;
pub type Cfg = (char, usize, char, bool);
static GO: std::sync::OnceLock<(Go, &'static [Cfg])> = std::sync::OnceLock::new();
fn dispatch(c: &Case, mask: u32) -> Out {
    (GO.get().unwrap().0)(c, mask)
}

/// One case: run, and where asked compare allocator balance.
fn run_one(c: &Case, mask: u32) -> Out {
    let go = |c: &Case| {
        let r = dispatch(c, mask);
        sl::reset(rule_of(&c.rule));
        PANIC_MSG.with(|m| *m.borrow_mut() = String::new());
        r
    };
    if mask & ALLOC == 0 {
        return go(c);
    }
    let leaked = |c: &Case| -> Result<(i64, Stats), Fail> {
        sl::reset(rule_of(&c.rule));
        let before = BYTES.load(Relaxed);
        let mut s = go(c)?;
        s.digest = Vec::new();
        Ok((BYTES.load(Relaxed) - before, s))
    };
    let (n, s) = leaked(c)?;
    if n > 0 && s.leaky == 0 {
        let (n2, _) = leaked(c)?; // first-use allocations do not repeat
        if n2 > 0 {
            return Err(Fail { at: c.ops.len(), what: format!("{n2} bytes still allocated after everything was dropped") });
        }
    }
    Ok(s)
}

struct Plan {
    mask: u32,
    cfgs: Vec<Cfg>,
    rules: &'static [&'static str],
    /// relative weights: ins, dup, drop, mk, rclone, rdrop, bor, bclone, bmap, bdrop, bad, fuse
    w: [usize; 12],
    curs: &'static [u8],
    keep: usize,
    exhaustive: bool,
}

const ALLU: &[(char, usize, char, bool)] = &[
    ('N', 1, 'u', true), ('N', 2, 'u', true), ('N', 3, 'u', true), ('N', 5, 'u', true), ('N', 1, 'u', false), ('N', 2, 'u', false), ('N', 3, 'u', false), ('N', 5, 'u', false),
    ('C', 1, 'u', true), ('C', 2, 'u', true), ('C', 3, 'u', true), ('C', 1, 'u', false),
    ('R', 1, 'u', true), ('R', 2, 'u', true), ('R', 3, 'u', true), ('R', 1, 'u', false), ('R', 5, 'u', false), ('N', 3, 'b', true),
];
const NS: &[(char, usize, char, bool)] = &[('N', 1, 'u', true), ('N', 2, 'u', true), ('N', 3, 'u', true), ('N', 1, 'u', false), ('N', 2, 'u', false), ('N', 5, 'u', true)];
const CS: &[(char, usize, char, bool)] = &[('C', 1, 'u', true), ('C', 2, 'u', true), ('C', 3, 'u', true), ('C', 1, 'u', false), ('C', 5, 'u', false)];
const RS_: &[(char, usize, char, bool)] = &[('R', 1, 'u', true), ('R', 2, 'u', true), ('R', 3, 'u', true), ('R', 1, 'u', false), ('R', 5, 'u', false)];
const NCS: &[(char, usize, char, bool)] = &[('N', 1, 'n', true), ('N', 2, 'n', true), ('N', 3, 'n', true), ('R', 1, 'n', true), ('R', 2, 'n', true), ('C', 1, 'n', true)];
const ALLR: &[&str] = &["colour", "piece", "domino", "cap", "colour", "piece"];
const STABLE: &[&str] = &["colour", "piece", "domino"];

fn plan(p: &str) -> Option<Plan> {
    let b = Plan { mask: 0, cfgs: ALLU.to_vec(), rules: ALLR, w: [1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], curs: &[0], keep: 4, exhaustive: true };
    Some(match p {
        "C01" => Plan { mask: CONTENT, w: [30, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0], ..b },
        "C02" => Plan { mask: SIZE | OTHERS, w: [30, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], ..b },
        "C03" => Plan { mask: GET, w: [30, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], ..b },
        "C04" => Plan { mask: ITER, w: [30, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0], ..b },
        "C05" => Plan { mask: VALID, w: [30, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], ..b },
        "C06" => Plan { mask: HINT | GET | ITER | CONTENT, w: [30, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], curs: &[1, 2, 2, 3], ..b },
        "C07" => Plan { mask: PATH | REFS, w: [30, 1, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0], curs: &[0, 1], rules: STABLE, ..b },
        "C08" => Plan { mask: REFS, cfgs: RS_.to_vec(), w: [30, 0, 0, 6, 3, 3, 0, 0, 0, 0, 0, 0], keep: 2, ..b },
        "C09" => Plan { mask: BORROW | REFS | CONTENT, cfgs: RS_.to_vec(), w: [20, 1, 0, 4, 1, 1, 6, 3, 2, 8, 0, 0], keep: 2, ..b },
        "C10" => Plan { mask: CONTENT | SIZE | GET | OTHERS, cfgs: CS.to_vec(), w: [24, 4, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0], ..b },
        "C11" => Plan { mask: CONTENT | SIZE | CLONEEQ | OTHERS, cfgs: NS.to_vec(), w: [24, 4, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0], ..b },
        "C12" => Plan { mask: LIVE | ALLOC, w: [30, 3, 2, 3, 1, 1, 2, 1, 1, 3, 0, 2], ..b },
        "C13" => Plan { mask: FAULTREAD | OTHERS, w: [14, 2, 1, 2, 1, 1, 0, 0, 0, 0, 0, 4], ..b },
        "C14" => Plan { mask: BADCALLS | CONTENT | SIZE, w: [16, 1, 0, 0, 0, 0, 0, 0, 0, 0, 14, 0], exhaustive: false, ..b },
        "C15" => Plan { mask: CONTENT | SIZE | GET | ITER | REFS, cfgs: NCS.to_vec(), rules: STABLE, w: [30, 1, 0, 3, 0, 0, 0, 0, 0, 0, 0, 0], curs: &[0, 1, 2], ..b },
        "C17" => Plan { mask: SERDE, rules: STABLE, cfgs: vec![('N', 1, 'u', true), ('N', 2, 'u', true), ('C', 1, 'u', true), ('R', 1, 'u', true), ('R', 1, 'u', false), ('N', 2, 'n', true), ('N', 1, 'n', true)], w: [30, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], ..b },
        "C18" => Plan { mask: REFS, cfgs: RS_.to_vec(), rules: &["colour", "piece"], w: [12, 1, 1, 10, 8, 9, 1, 0, 0, 2, 0, 0], keep: 1, ..b },
        "C22" => Plan { mask: CONTENT | SIZE, rules: STABLE, w: [1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], ..b },
        "C23" => Plan { mask: REFS | BORROW | LIVE | ALLOC, cfgs: RS_.to_vec(), w: [12, 2, 3, 5, 4, 4, 5, 3, 2, 5, 0, 0], keep: 2, ..b },
        "C24" => Plan { mask: CANON, rules: STABLE, cfgs: vec![('N', 1, 'u', true), ('N', 2, 'u', true), ('N', 3, 'u', true), ('N', 5, 'u', true), ('C', 1, 'u', true), ('C', 2, 'u', true), ('R', 1, 'u', true), ('R', 2, 'u', true)], ..b },
        _ => return None,
    })
}

fn gen(p: &Plan, r: &mut Rng) -> Case {
    let &(k, m, ix, j) = &p.cfgs[r.below(p.cfgs.len())];
    let rule = p.rules[r.below(p.rules.len())];
    let colours = [2usize, 3, 8, 200][r.below(4)];
    let len = match r.below(10) { 0..=3 => 2 + r.below(12), 4..=7 => 10 + r.below(40), 8 => 40 + r.below(100), _ => if m >= 3 { 100 + r.below(250) } else { 60 + r.below(120) } };
    let style = r.below(7);
    let maxn = [1, 2, 3, 6, 12][r.below(5)];
    let tot: usize = p.w.iter().sum();
    let mut ops = Vec::with_capacity(len);
    let mut hot = r.next() as u32;
    let t8 = |r: &mut Rng| if r.chance(1, 2) { 0u8 } else { r.below(6) as u8 };
    for i in 0..len {
        let mut x = r.below(tot);
        let mut kind = 0;
        while x >= p.w[kind] { x -= p.w[kind]; kind += 1; }
        // something to work on first
        if i < 3 && r.chance(2, 3) { kind = 0; }
        let big = r.next() as u32;
        let idx = |r: &mut Rng| if r.chance(1, 2) { r.below(4) as u16 } else { r.next() as u16 };
        ops.push(match kind {
            0 => {
                // position modulo (size + 1): u32::MAX-ish values would be arbitrary, so use
                // the style to choose, with `total` unknown here: 0 = front; hot spot; random
                let pos = match style {
                    0 => 0,
                    1 => u32::MAX, // replaced below by "the end"
                    2 => { hot = hot.wrapping_add(r.below(3) as u32); hot % 97 }
                    3 => big % 5,
                    _ => big,
                };
                let pos = if pos == u32::MAX { END } else { pos };
                let mode = if rule == "piece" { r.below(3) as u8 } else if r.chance(1, 6) { r.below(3) as u8 } else { 0 };
                Op::Ins { t: t8(r), pos, n: 1 + r.below(maxn) as u16, c: r.below(colours) as u8, mode, cur: p.curs[r.below(p.curs.len())], keep: r.chance(1, p.keep.max(1)) }
            }
            1 => Op::Dup { t: t8(r) },
            2 => Op::Drop { t: t8(r) },
            3 => Op::Mk { t: t8(r), pos: big },
            4 => Op::RClone { r: idx(r) },
            5 => Op::RDrop { r: idx(r) },
            6 => Op::Bor { r: idx(r) },
            7 => Op::BClone { b: idx(r) },
            8 => Op::BMap { b: idx(r) },
            9 => Op::BDrop { b: idx(r) },
            10 => Op::Bad { t: t8(r), which: big as u8 },
            _ => Op::Fuse { n: r.below(4) as u16, clone: p.mask & LIVE != 0 && k == 'C' },
        });
    }
    Case { p: k, m, ix, j, rule: rule.into(), seed: r.next(), ops }
}

/// All insertion orders of `n` single-unit slices.
fn exhaustive(n: usize, code: u64, cfg: (char, usize, char, bool), rule: &str, keep: bool, cur: u8) -> Case {
    let mut c = code;
    let mut ops = Vec::new();
    for i in 0..n {
        let pos = (c % (i as u64 + 1)) as u32;
        c /= i as u64 + 1;
        ops.push(Op::Ins { t: 0, pos, n: 1, c: (i * 3) as u8, mode: 0, cur, keep });
    }
    Case { p: cfg.0, m: cfg.1, ix: cfg.2, j: cfg.3, rule: rule.into(), seed: code, ops }
}

fn shrink(c: &Case, mask: u32, multi: bool, deadline: Instant) -> (Case, Fail) {
    let test = |c: &Case| if multi { run_multi(c, mask) } else { run_one(c, mask) };
    let mut best = c.clone();
    let mut fail = match test(c) { Err(f) => f, Ok(_) => Fail { at: 0, what: "not reproducible".into() } };
    best.ops.truncate(fail.at + 1);
    let mut chunk = best.ops.len() / 2;
    while chunk >= 1 && Instant::now() < deadline {
        let mut i = 0;
        let mut any = false;
        while i < best.ops.len() && Instant::now() < deadline {
            let mut t = best.clone();
            t.ops.drain(i..(i + chunk).min(t.ops.len()));
            if let Err(f) = test(&t) { best = t; fail = f; any = true; } else { i += chunk; }
        }
        if !any { chunk /= 2; }
    }
    (best, fail)
}

/// C22: the same history in several configurations.
fn run_multi(c: &Case, mask: u32) -> Out {
    let mut first: Option<(Vec<u64>, String)> = None;
    let mut out = Stats::default();
    let cfgs: &[(char, usize, bool)] = if c.j {
        &[('N', 1, true), ('N', 2, true), ('N', 5, true), ('C', 1, true), ('C', 3, true), ('R', 1, true), ('R', 2, true)]
    } else {
        &[('N', 1, false), ('N', 2, false), ('N', 127, false), ('C', 5, false), ('R', 1, false), ('R', 5, false)]
    };
    for &(p, m, j) in cfgs {
        let d = Case { p, m, j, ix: 'u', ..c.clone() };
        let s = run_one(&d, mask).map_err(|f| Fail { at: f.at, what: format!("in configuration {p} {m}: {}", f.what) })?;
        let tag = format!("{p} {m}");
        match &first {
            None => first = Some((s.digest.clone(), tag)),
            Some((g, t0)) => if *g != s.digest {
                return Err(Fail { at: c.ops.len().saturating_sub(1), what: format!("configurations {t0} and {tag} differ") });
            }
        }
        add(&mut out, &s);
    }
    Ok(out)
}

fn add(a: &mut Stats, s: &Stats) {
    a.ops += s.ops;
    a.inserts += s.inserts;
    a.splits += s.splits;
    a.joins += s.joins;
    a.max_slices = a.max_slices.max(s.max_slices);
    a.max_height = a.max_height.max(s.max_height);
    a.skipped_double_join += s.skipped_double_join;
    a.panics_injected += s.panics_injected;
    a.observations += s.observations;
}

/// The known finding about draining and three-way joins, and the range and cursor unit checks that
/// need no history.
fn probe() {
    use sherman::{Constant, RleTree};
    let quiet = |f: &mut dyn FnMut()| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    // a slice that joins both of its neighbours
    #[derive(Clone, Debug)]
    struct P(u32, u32);
    impl sherman::Slice<usize> for P {
        const MAY_JOIN: bool = true;
        fn split_at(&mut self, i: usize) -> P { let r = P(self.0 + i as u32, self.1); self.1 = self.0 + i as u32; r }
        fn try_join(self, o: P) -> Result<P, (P, P)> { if self.1 == o.0 { Ok(P(self.0, o.1)) } else { Err((self, o)) } }
    }
    let ok = quiet(&mut || {
        let mut t: RleTree<usize, P> = RleTree::new(P(0, 2), 2);
        t.insert(2, P(4, 6), 2);
        t.insert(2, P(2, 4), 2);
        assert_eq!(t.number_of_slices(), 1);
    });
    println!("probe three-way-join {}", if ok.is_ok() { "holds" } else { "fails" });
    let ok = quiet(&mut || {
        let mut t: RleTree<usize, Constant<char>> = RleTree::new(Constant('a'), 5);
        let v: Vec<_> = t.drain(1..3).map(|x| x.0).collect();
        assert_eq!(v, vec![1..3]);
        assert_eq!(t.size(), 3);
    });
    println!("probe drain {}", if ok.is_ok() { "holds" } else { "fails" });
}

pub fn main_with(go: Go, have: &'static [Cfg]) {
    let _ = GO.set((go, have));
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let l = i.location().map(|l| format!(" at {}:{}", l.file().rsplit("/src/").next().unwrap_or(""), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{m}{l}"));
    }));
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    match a.get(1).map(|s| s.as_str()) {
        Some("probe") => probe(),
        Some("replay") => {
            let text = std::fs::read_to_string(&a[2]).unwrap();
            let v: serde_json::Value = serde_json::from_str(&text).unwrap();
            let prop = v["property"].as_str().unwrap().to_string();
            let case: Case = serde_json::from_value(v["case"].clone()).unwrap();
            let p = plan(&prop).unwrap();
            let r = if prop == "C22" { run_multi(&case, p.mask) } else { run_one(&case, p.mask) };
            match r {
                Ok(_) => println!("REPLAY holds"),
                Err(f) => { println!("REPLAY fails after operation {}: {}", f.at, f.what); std::process::exit(1) }
            }
        }
        Some("search") => search(&get),
        _ => { eprintln!("usage"); std::process::exit(3) }
    }
}

fn search(get: &dyn Fn(&str) -> Option<String>) {
    let prop = get("--prop").unwrap();
    let mut p = plan(&prop).unwrap();
    if prop != "C22" {
        p.cfgs.retain(|c| GO.get().unwrap().1.contains(c));
    }
    let shard: u64 = get("--shard").unwrap().parse().unwrap();
    let shards: u64 = get("--shards").unwrap().parse().unwrap();
    let secs: f64 = get("--seconds").unwrap().parse().unwrap();
    let seed: u64 = get("--seed").unwrap().parse().unwrap();
    let exn: usize = get("--exhaustive").map(|s| s.parse().unwrap()).unwrap_or(0);
    let mut journal = std::fs::File::create(get("--journal").unwrap()).unwrap();
    let out = get("--out").unwrap();
    let multi = prop == "C22";
    let start = Instant::now();
    let end = start + Duration::from_secs_f64(secs);
    let mut total = Stats::default();
    let (mut cases, mut nontrivial, mut exh) = (0u64, 0u64, 0u64);
    let mut seen = std::collections::HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut rng = Rng(seed.wrapping_mul(0x1000003).wrapping_add(shard * 7777 + 13));
    let mut one = |c: &Case, total: &mut Stats, journal: &mut std::fs::File| -> bool {
        let text = serde_json::to_string(c).unwrap();
        journal.seek(SeekFrom::Start(0)).unwrap();
        journal.write_all(text.as_bytes()).unwrap();
        journal.write_all(b"\n").unwrap();
        let r = if multi { run_multi(c, p.mask) } else { run_one(c, p.mask) };
        match r {
            Ok(s) => {
                cases += 1;
                if s.max_slices >= 3 || s.inserts >= 3 {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    std::hash::Hash::hash(&text, &mut h);
                    if seen.insert(std::hash::Hasher::finish(&h)) { nontrivial += 1; }
                    if samples.len() < 2 && s.inserts >= 3 && text.len() < 1500 { samples.push(text); }
                }
                add(total, &s);
                false
            }
            Err(_) => {
                let (c, f) = shrink(c, p.mask, multi, Instant::now() + Duration::from_secs(20));
                let v = serde_json::json!({"property": prop, "what": f.what, "after_operation": f.at, "case": c});
                std::fs::write(&out, serde_json::to_string_pretty(&v).unwrap()).unwrap();
                println!("FAIL {}", f.what);
                true
            }
        }
    };
    // every insertion order of up to `exn` single-unit slices
    let mut exh_done = true;
    if p.exhaustive && exn > 0 {
        let cfgs: Vec<_> = p.cfgs.iter().filter(|c| c.1 <= 2).cloned().collect();
        let mut code_total = 1u64;
        'ex: for n in 1..=exn {
            code_total *= n as u64;
            for (ci, cfg) in cfgs.iter().enumerate() {
                // one configuration goes to full depth, the others one less
                if n == exn && ci > 0 { continue; }
                for code in 0..code_total {
                    if (code + ci as u64) % shards != shard { continue; }
                    if Instant::now() > start + Duration::from_secs_f64(secs * 0.5) { exh_done = false; break 'ex; }
                    let c = exhaustive(n, code, *cfg, "colour", cfg.0 == 'R', if p.curs.contains(&2) { 2 } else { 0 });
                    exh += 1;
                    if one(&c, &mut total, &mut journal) { std::process::exit(1) }
                }
            }
        }
    }
    while Instant::now() < end {
        let c = gen(&p, &mut rng);
        if one(&c, &mut total, &mut journal) { std::process::exit(1) }
    }
    drop(one);
    println!("{}", serde_json::json!({"cases": cases, "nontrivial": nontrivial, "exhaustive_cases": exh, "exhaustive_complete": exh_done, "exhaustive_n": exn, "ops": total.ops, "inserts": total.inserts, "splits": total.splits, "joins": total.joins, "max_slices": total.max_slices, "max_height": total.max_height, "skipped_three_way_joins": total.skipped_double_join, "panics_injected": total.panics_injected, "observations": total.observations, "samples": samples}));
}

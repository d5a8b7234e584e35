//! Runs one case (a history of operations) against the real tree and an independent run-list model.
use crate::sl::*;
use serde::{Deserialize, Serialize};
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures, RleTreeConfig, SupportsInsert};
use sherman::range::{EndBound, StartBound};
use sherman::{BoundedCursor, Borrow, Cursor, PathComponent, RleTree, SliceEntry, SliceRef};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::ops::Range;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

pub const CONTENT: u32 = 1;
pub const SIZE: u32 = 2;
pub const GET: u32 = 4;
pub const ITER: u32 = 8;
pub const VALID: u32 = 16;
pub const PATH: u32 = 32;
pub const REFS: u32 = 64;
pub const BORROW: u32 = 128;
pub const LIVE: u32 = 256;
pub const CANON: u32 = 512;
pub const SERDE: u32 = 1024;
pub const CLONEEQ: u32 = 2048;
pub const HINT: u32 = 4096;
pub const FAULTREAD: u32 = 8192;
pub const OTHERS: u32 = 16384;
pub const BADCALLS: u32 = 1 << 15;
pub const ALLOC: u32 = 1 << 16;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// tree, position (taken modulo size+1), number of units, colour, uid mode, cursor mode, keep a reference
    Ins { t: u8, pos: u32, n: u16, c: u8, mode: u8, cur: u8, keep: bool },
    Dup { t: u8 },
    Drop { t: u8 },
    Mk { t: u8, pos: u32 },
    RClone { r: u16 },
    RDrop { r: u16 },
    Bor { r: u16 },
    BClone { b: u16 },
    BMap { b: u16 },
    BDrop { b: u16 },
    Bad { t: u8, which: u8 },
    /// the next insertion or clone panics in the n-th user callback (or the n-th clone)
    Fuse { n: u16, #[serde(default)] clone: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub p: char,
    pub m: usize,
    pub ix: char,
    pub j: bool,
    pub rule: String,
    pub seed: u64,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub ops: u64,
    pub inserts: u64,
    pub splits: u64,
    pub joins: u64,
    pub max_slices: usize,
    pub max_height: usize,
    pub skipped_double_join: u64,
    pub panics_injected: u64,
    pub leaky: u64,
    pub observations: u64,
    pub digest: Vec<u64>,
}

/// "at the end", as a position
pub const END: u32 = u32::MAX;

pub fn rule_of(s: &str) -> Rule {
    match s {
        "colour" => Rule::Colour,
        "piece" => Rule::Piece,
        "domino" => Rule::Domino,
        _ => Rule::Cap,
    }
}

pub type T<I, P, const M: usize, const J: bool> = RleTree<I, Sl<J>, P, M>;

thread_local! {
    pub static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
    pub static CYCLE: RefCell<bool> = RefCell::new(false);
}

/// Runs a closure that may panic; `Err` carries the message (or marks an injected panic).
fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            if e.is::<FuseBlown>() {
                Err("<injected>".into())
            } else {
                Err(PANIC_MSG.with(|m| m.borrow().clone()))
            }
        }
    }
}

/// A cursor that records the path it is given, or replays an arbitrary one.
#[derive(Clone, Debug, PartialEq)]
pub struct Adv {
    pub path: Vec<PathComponent>,
    pub cycle: bool,
}
impl Cursor for Adv {
    fn new_empty() -> Self {
        Adv { path: Vec::new(), cycle: false }
    }
    fn prepend_to_path(&mut self, c: PathComponent) {
        self.path.insert(0, c)
    }
    type PathIter = Box<dyn Iterator<Item = PathComponent>>;
    fn into_path(self) -> Self::PathIter {
        if self.cycle && !self.path.is_empty() {
            Box::new(self.path.into_iter().cycle())
        } else {
            Box::new(self.path.into_iter())
        }
    }
}

pub fn num(c: &PathComponent) -> usize {
    // the component's number, from its debug form
    let s = format!("{c:?}");
    s.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(9999)
}

/// Path components with as many different values as public calls produce.
pub fn pool() -> &'static Vec<PathComponent> {
    static P: OnceLock<Vec<PathComponent>> = OnceLock::new();
    P.get_or_init(|| {
        struct N;
        impl sherman::Slice<usize> for N {
            const MAY_JOIN: bool = false;
            fn split_at(&mut self, _: usize) -> Self {
                N
            }
        }
        let mut out: HashMap<usize, PathComponent> = HashMap::new();
        let r = guard(|| {
            let mut t: RleTree<usize, N, NoFeatures, 127> = RleTree::new_empty();
            for i in 0..36_000 {
                t.insert(i, N, 1);
            }
            let mut got = Vec::new();
            let mut i = 0;
            while i < 36_000 {
                got.extend(t.cursor_to::<Adv>(i).path);
                i += 60;
            }
            got
        });
        for c in r.unwrap_or_default() {
            out.insert(num(&c), c);
        }
        let mut v: Vec<_> = out.into_iter().collect();
        v.sort_by_key(|x| x.0);
        v.into_iter().map(|x| x.1).collect()
    })
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
}

fn adversarial(mode: u8, rng: &mut Rng, last: &Option<Adv>) -> Adv {
    let none = Adv { path: vec![], cycle: false };
    match mode {
        0 => none,
        1 => last.clone().unwrap_or(none),
        _ => {
            let p = pool();
            if p.is_empty() {
                return none;
            }
            let small = rng.chance(3, 4);
            let len = if rng.chance(1, 5) { 20 } else { 1 + rng.below(5) };
            let path = (0..len)
                .map(|_| p[rng.below(if small { p.len().min(5) } else { p.len() })])
                .collect();
            Adv { path, cycle: mode == 3 }
        }
    }
}

pub enum Void {}

pub trait Feat<I: Ix, const M: usize, const J: bool>:
    RleTreeConfig<I, Sl<J>, M> + SupportsInsert<I, Sl<J>, M> + Sized + 'static
{
    const KIND: char;
    type Ref: 'static;
    type Bor: 'static;
    fn dup(t: &T<I, Self, M, J>) -> Option<T<I, Self, M, J>>;
    fn ins_ref(t: &mut T<I, Self, M, J>, c: Adv, i: I, s: Sl<J>, z: I) -> (Adv, Option<Self::Ref>);
    fn entry_ref(e: &SliceEntry<'_, I, Sl<J>, Self, M>) -> Option<Self::Ref>;
    fn entry_path(e: &SliceEntry<'_, I, Sl<J>, Self, M>) -> Option<Adv>;
    fn r_valid(r: &Self::Ref) -> bool;
    fn r_can(r: &Self::Ref) -> bool;
    fn r_range(r: &Self::Ref) -> Option<Range<I>>;
    fn r_path(r: &Self::Ref) -> Option<Adv>;
    fn r_clone(r: &Self::Ref) -> Self::Ref;
    fn r_borrow(r: &'static Self::Ref) -> Option<Self::Bor>;
    fn b_get(b: &Self::Bor) -> (u64, Option<Vec<U>>);
    fn b_clone(b: &Self::Bor) -> Self::Bor;
    fn b_map(b: Self::Bor) -> Self::Bor;
}

macro_rules! noref {
    () => {
        type Ref = Void;
        type Bor = Void;
        fn ins_ref(t: &mut T<I, Self, M, J>, c: Adv, i: I, s: Sl<J>, z: I) -> (Adv, Option<Void>) {
            (t.insert_with_cursor(c, i, s, z), None)
        }
        fn entry_ref(_: &SliceEntry<'_, I, Sl<J>, Self, M>) -> Option<Void> {
            None
        }
        fn r_valid(r: &Void) -> bool {
            match *r {}
        }
        fn r_can(r: &Void) -> bool {
            match *r {}
        }
        fn r_range(r: &Void) -> Option<Range<I>> {
            match *r {}
        }
        fn r_path(r: &Void) -> Option<Adv> {
            match *r {}
        }
        fn r_clone(r: &Void) -> Void {
            match *r {}
        }
        fn r_borrow(r: &'static Void) -> Option<Void> {
            match *r {}
        }
        fn b_get(b: &Void) -> (u64, Option<Vec<U>>) {
            match *b {}
        }
        fn b_clone(b: &Void) -> Void {
            match *b {}
        }
        fn b_map(b: Void) -> Void {
            match b {}
        }
    };
}

impl<I: Ix, const M: usize, const J: bool> Feat<I, M, J> for NoFeatures {
    const KIND: char = 'N';
    fn dup(t: &T<I, Self, M, J>) -> Option<T<I, Self, M, J>> {
        Some(t.clone())
    }
    fn entry_path(e: &SliceEntry<'_, I, Sl<J>, Self, M>) -> Option<Adv> {
        Some(e.cursor())
    }
    noref!();
}
impl<I: Ix, const M: usize, const J: bool> Feat<I, M, J> for AllowCow {
    const KIND: char = 'C';
    fn dup(t: &T<I, Self, M, J>) -> Option<T<I, Self, M, J>> {
        Some(t.clone())
    }
    fn entry_path(_: &SliceEntry<'_, I, Sl<J>, Self, M>) -> Option<Adv> {
        None
    }
    noref!();
}
impl<I: Ix, const M: usize, const J: bool> Feat<I, M, J> for AllowSliceRefs {
    const KIND: char = 'R';
    type Ref = SliceRef<I, Sl<J>, M>;
    type Bor = Borrow<'static, Sl<J>>;
    fn dup(_: &T<I, Self, M, J>) -> Option<T<I, Self, M, J>> {
        None
    }
    fn ins_ref(t: &mut T<I, Self, M, J>, c: Adv, i: I, s: Sl<J>, z: I) -> (Adv, Option<Self::Ref>) {
        let (c, r) = t.insert_ref_with_cursor(c, i, s, z);
        (c, Some(r))
    }
    fn entry_ref(e: &SliceEntry<'_, I, Sl<J>, Self, M>) -> Option<Self::Ref> {
        Some(e.make_ref())
    }
    fn entry_path(e: &SliceEntry<'_, I, Sl<J>, Self, M>) -> Option<Adv> {
        Some(e.cursor())
    }
    fn r_valid(r: &Self::Ref) -> bool {
        r.is_valid()
    }
    fn r_can(r: &Self::Ref) -> bool {
        r.can_borrow()
    }
    fn r_range(r: &Self::Ref) -> Option<Range<I>> {
        r.try_range()
    }
    fn r_path(r: &Self::Ref) -> Option<Adv> {
        r.try_cursor()
    }
    fn r_clone(r: &Self::Ref) -> Self::Ref {
        r.clone()
    }
    fn r_borrow(r: &'static Self::Ref) -> Option<Self::Bor> {
        r.try_borrow_slice()
    }
    fn b_get(b: &Self::Bor) -> (u64, Option<Vec<U>>) {
        (b.id, b.units())
    }
    fn b_clone(b: &Self::Bor) -> Self::Bor {
        b.clone()
    }
    fn b_map(b: Self::Bor) -> Self::Bor {
        Borrow::map(b, |s| s)
    }
}

struct TS<I: Ix, P: Feat<I, M, J>, const M: usize, const J: bool> {
    tree: Option<T<I, P, M, J>>,
    runs: Vec<Vec<U>>,
    /// state unknown after an injected panic
    poisoned: bool,
    borrows: usize,
    /// dropped while borrowed: tokens still owed
    pending: bool,
    last: Option<Adv>,
}

struct RS<R> {
    ptr: *mut R,
    t: usize,
    tags: HashSet<u32>,
    token: Option<u64>,
    valid: bool,
    borrows: usize,
    alive: bool,
}
struct BS<B> {
    b: Option<B>,
    r: usize,
    units: Vec<U>,
    token: u64,
}

struct Inserted {
    /// tags of all runs that took part in a join
    joined: HashSet<u32>,
    run: usize,
}

fn model_insert(runs: &mut Vec<Vec<U>>, pos: usize, u: Vec<U>, rule: Rule, j: bool) -> Option<Inserted> {
    let mut at = 0;
    let mut i = 0;
    while i < runs.len() && at + runs[i].len() <= pos {
        at += runs[i].len();
        i += 1;
    }
    let off = pos - at;
    let mut joined = HashSet::new();
    let mut add = |a: &Vec<U>| joined.extend(a.iter().map(|x| x.tag));
    if off > 0 {
        // strictly inside run i
        let whole = runs.remove(i);
        let (l, r) = (whole[..off].to_vec(), whole[off..].to_vec());
        let jl = j && joins(rule, &l, &u);
        let mid = if jl { add(&l); add(&u); [l.clone(), u.clone()].concat() } else { u };
        let jr = j && joins(rule, &mid, &r);
        let mid = if jr { add(&mid); add(&r); [mid, r.clone()].concat() } else { mid };
        let mut v = Vec::new();
        if !jl { v.push(l) }
        let run = i + v.len();
        v.push(mid);
        if !jr { v.push(r) }
        runs.splice(i..i, v);
        return Some(Inserted { joined, run });
    }
    let jl = j && i > 0 && joins(rule, &runs[i - 1], &u);
    let jr = j && i < runs.len() && joins(rule, &u, &runs[i]);
    if jl && jr {
        return None; // would merge three: see known findings
    }
    if jl {
        add(&runs[i - 1]);
        add(&u);
        runs[i - 1].extend(u);
        return Some(Inserted { joined, run: i - 1 });
    }
    if jr {
        add(&runs[i]);
        add(&u);
        let mut m = u;
        m.extend(runs[i].iter().cloned());
        runs[i] = m;
        return Some(Inserted { joined, run: i });
    }
    runs.insert(i, u);
    Some(Inserted { joined, run: i })
}

fn bounds<I: Ix>(runs: &[Vec<U>]) -> Vec<I> {
    let mut v = vec![I::ZERO];
    for r in runs {
        let l = *v.last().unwrap();
        v.push(I::plus(l, I::sum(r)));
    }
    v
}

pub struct Env {
    pub mask: u32,
    pub rng: Rng,
    pub stats: Stats,
    pub rule: Rule,
    pub cap: bool,
}

type Res = Result<(), String>;
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }

fn read_runs<I: Ix, P: Feat<I, M, J>, const M: usize, const J: bool>(
    t: &T<I, P, M, J>,
) -> Result<Vec<(Range<I>, I, Vec<U>, u64)>, String> {
    let mut v = Vec::new();
    let limit = 4 * t.number_of_slices() + 64;
    for e in t.iter(..) {
        ensure!(v.len() <= limit, "full iteration does not end");
        v.push((e.range(), e.size(), e.slice().units().ok_or("iteration yields a dead slice")?, e.slice().id));
    }
    Ok(v)
}

fn check_content<I: Ix, P: Feat<I, M, J>, const M: usize, const J: bool>(env: &mut Env, s: &mut TS<I, P, M, J>) -> Res {
    let t = match &s.tree { Some(t) => t, None => return Ok(()) };
    let real = read_runs(t)?;
    env.stats.observations += 1;
    if env.cap {
        let a: Vec<U> = real.iter().flat_map(|r| r.2.clone()).collect();
        let b: Vec<U> = s.runs.iter().flatten().cloned().collect();
        ensure!(a == b, "content differs: tree {:?}, expected {:?}", show(&[a]), show(&[b]));
        s.runs = real.iter().map(|r| r.2.clone()).collect();
    }
    let b = bounds::<I>(&s.runs);
    let rr: Vec<Vec<U>> = real.iter().map(|r| r.2.clone()).collect();
    ensure!(rr == s.runs, "slices differ: tree {:?}, expected {:?}", show(&rr), show(&s.runs));
    for (i, r) in real.iter().enumerate() {
        ensure!(r.0 == (b[i]..b[i + 1]), "slice {i} of {:?} has range {:?}, expected {:?}", show(&rr), r.0, b[i]..b[i + 1]);
        let z = I::sum(&s.runs[i]);
        ensure!(r.1 == z, "slice {i} has size {:?}, expected {:?}", r.1, z);
    }
    Ok(())
}

pub fn show(r: &[Vec<U>]) -> String {
    r.iter()
        .map(|v| {
            let c: String = v.iter().map(|u| ((b'a' + u.c % 26) as char).to_string()).collect();
            format!("{}{}", c, v.first().map(|u| format!("#{}", u.tag)).unwrap_or_default())
        })
        .collect::<Vec<_>>()
        .join("|")
}

fn check_size<I: Ix, P: Feat<I, M, J>, const M: usize, const J: bool>(env: &mut Env, s: &TS<I, P, M, J>) -> Res {
    let t = match &s.tree { Some(t) => t, None => return Ok(()) };
    env.stats.observations += 1;
    let z = *bounds::<I>(&s.runs).last().unwrap();
    ensure!(t.size() == z, "size() is {:?}, the slices add up to {:?}", t.size(), z);
    ensure!(t.number_of_slices() == s.runs.len(), "number_of_slices() is {}, a traversal has {}", t.number_of_slices(), s.runs.len());
    let n = t.iter(..).take(s.runs.len() + 2).count();
    ensure!(n == s.runs.len(), "a traversal yields {} slices, number_of_slices() should be {}", n, s.runs.len());
    Ok(())
}

fn check_get<I: Ix, P: Feat<I, M, J>, const M: usize, const J: bool>(env: &mut Env, s: &TS<I, P, M, J>) -> Res {
    let t = match &s.tree { Some(t) => t, None => return Ok(()) };
    let b = bounds::<I>(&s.runs);
    let total: usize = s.runs.iter().map(|r| r.len()).sum();
    let all = total <= 80;
    for (i, r) in s.runs.iter().enumerate() {
        if !all && !env.rng.chance(30, s.runs.len()) { continue; }
        let mut at = b[i];
        for (k, u) in r.iter().enumerate() {
            if k == 0 || k + 1 == r.len() || env.rng.chance(1, 3) {
                let mut hints = vec![Adv { path: vec![], cycle: false }];
                if env.mask & HINT != 0 {
                    for m in 2..4 { hints.push(adversarial(m, &mut env.rng, &None)); }
                    hints.push(adversarial(1, &mut env.rng, &s.last));
                    if k == 0 { hints.push(t.cursor_to(at)); }
                }
                for h in hints {
                    env.stats.observations += 1;
                    let e = if h.path.is_empty() { t.get(at) } else { t.get_with_cursor(h.clone(), at) };
                    let (rg, z) = (e.range(), e.size());
                    let us = e.slice().units().ok_or("lookup returns a dead slice")?;
                    ensure!(rg == (b[i]..b[i + 1]) && us == *r, "get({:?}) with hint {:?} returns {} at {:?}; expected {} at {:?}", at, h.path.iter().map(num).collect::<Vec<_>>(), show(&[us]), rg, show(&[r.clone()]), b[i]..b[i + 1]);
                    ensure!(z == I::sum(r), "get({:?}).size() is {:?}, expected {:?}", at, z, I::sum(r));
                }
            }
            at = I::plus(at, I::w(u));
        }
    }
    Ok(())
}

fn check_iter<I: Ix, P: Feat<I, M, J>, const M: usize, const J: bool>(env: &mut Env, s: &TS<I, P, M, J>) -> Res {
    let t = match &s.tree { Some(t) => t, None => return Ok(()) };
    let flat: Vec<U> = s.runs.iter().flatten().cloned().collect();
    let mut pos = vec![I::ZERO];
    for u in &flat { let l = *pos.last().unwrap(); pos.push(I::plus(l, I::w(u))); }
    let total = flat.len();
    if total == 0 {
        ensure!(t.iter(..).next().is_none() && t.iter(..).next_back().is_none(), "iteration over the empty tree yields something");
        return Ok(());
    }
    let b = bounds::<I>(&s.runs);
    let mut starts = vec![0usize];
    for r in &s.runs { let l = *starts.last().unwrap(); starts.push(l + r.len()); }
    let rounds = if total < 6 { 12 } else { 6 };
    for _ in 0..rounds {
        // prefer bounds at run boundaries
        let pick = |rng: &mut Rng| if rng.chance(1, 2) { starts[rng.below(starts.len())] } else { rng.below(total + 1) };
        let (mut lo, mut hi) = (pick(&mut env.rng), pick(&mut env.rng));
        if lo > hi { std::mem::swap(&mut lo, &mut hi); }
        let lo_unb = env.rng.chance(1, 4);
        let kind = env.rng.below(3);
        if lo_unb { lo = 0; }
        // kind 0: ..hi, 1: ..=hi, 2: unbounded; skip the illegal ones
        let (sb, eb, lo_u, hi_u);
        match kind {
            0 => {
                if !lo_unb && (lo >= hi || lo >= total) { continue; }
                eb = EndBound::Excluded(pos[hi]); hi_u = hi;
            }
            1 => {
                if hi >= total || (!lo_unb && lo > hi) { continue; }
                eb = EndBound::Included(pos[hi]); hi_u = hi + 1;
            }
            _ => {
                if !lo_unb && lo >= total { continue; }
                eb = EndBound::Unbounded; hi_u = total;
            }
        }
        sb = if lo_unb { StartBound::Unbounded } else { StartBound::Included(pos[lo]) };
        lo_u = lo;
        let expect: Vec<usize> = (0..s.runs.len()).filter(|&i| starts[i] < hi_u && lo_u < starts[i + 1]).collect();
        let cur = if env.mask & HINT != 0 { let m = env.rng.below(4) as u8; adversarial(m, &mut env.rng, &s.last) } else { Adv { path: vec![], cycle: false } };
        let hint: Vec<usize> = cur.path.iter().map(num).collect();
        let mut it = t.iter_with_cursor(cur, (sb, eb));
        let (mut f, mut k) = (0usize, expect.len());
        let style = env.rng.below(4);
        let mut steps = String::new();
        for _ in 0..expect.len() + 3 {
            let front = match style { 0 => true, 1 => false, _ => env.rng.chance(1, 2) };
            steps.push(if front { 'f' } else { 'b' });
            let got = if front { it.next() } else { it.next_back() };
            let want = if f < k { if front { f += 1; Some(expect[f - 1]) } else { k -= 1; Some(expect[k]) } } else { None };
            env.stats.observations += 1;
            match (got, want) {
                (None, None) => {}
                (Some(e), Some(w)) => {
                    let us = e.slice().units().ok_or("iteration yields a dead slice")?;
                    ensure!(us == s.runs[w] && e.range() == (b[w]..b[w + 1]) && e.size() == I::sum(&s.runs[w]),
                        "iter({sb:?}, {eb:?}) hint {hint:?} after {steps}: yields {} at {:?} size {:?}; expected {} at {:?}", show(&[us]), e.range(), e.size(), show(&s.runs[w..w + 1]), b[w]..b[w + 1]);
                }
                (g, w) => return Err(format!("iter({sb:?}, {eb:?}) hint {hint:?} after {steps}: yields {:?}, expected slice {:?} of {}", g.map(|e| e.range()), w, show(&s.runs))),
            }
        }
    }
    Ok(())
}

#[derive(Default)]
struct NodeShape { keys: Vec<usize>, kids: HashMap<usize, NodeShape>, seq: Vec<(bool, usize)> }

/// The path reported for every slice must describe one ordered tree; returns its height.
fn check_shape(paths: &[Vec<usize>], m: usize, balanced: bool) -> Result<usize, String> {
    let mut root = NodeShape::default();
    for (i, p) in paths.iter().enumerate() {
        let mut n = &mut root;
        for &c in p {
            if n.seq.last() != Some(&(false, c)) { n.seq.push((false, c)); }
            n = n.kids.entry(c).or_default();
        }
        n.keys.push(i);
        n.seq.push((true, i));
    }
    fn walk(n: &NodeShape, depth: usize, root: bool, m: usize, leaf: &mut Option<usize>, balanced: bool) -> Res {
        if n.kids.is_empty() {
            if let Some(d) = *leaf { ensure!(!balanced || d == depth, "leaves at different depths {d} and {depth}"); }
            *leaf = Some(depth);
        } else {
            // child 0, key, child 1, key, ...
            for (k, (is_key, v)) in n.seq.iter().enumerate() {
                ensure!(*is_key == (k % 2 == 1), "node with children: slices and children do not alternate");
                ensure!(*is_key || *v == k / 2, "child slot {} reported as {v}", k / 2);
            }
            ensure!(n.seq.len() == 2 * n.keys.len() + 1, "node has {} slices and {} parts", n.keys.len(), n.seq.len());
            for k in n.kids.values() { walk(k, depth + 1, false, m, leaf, balanced)?; }
        }
        if balanced {
            ensure!(n.keys.len() <= 2 * m, "node with {} slices, limit {}", n.keys.len(), 2 * m);
            ensure!(n.keys.len() >= if root { 1 } else { m }, "node with {} slices, minimum {}", n.keys.len(), m);
        }
        Ok(())
    }
    if paths.is_empty() { return Ok(0); }
    let mut leaf = None;
    walk(&root, 0, true, m, &mut leaf, balanced)?;
    Ok(leaf.unwrap_or(0))
}

fn bounded_prefix<I: Ix, P: Feat<I, M, J>, const M: usize, const J: bool, const L: usize>(t: &T<I, P, M, J>, at: I, full: &[usize]) -> Res {
    let c = t.cursor_to::<BoundedCursor<L>>(at);
    let v: Vec<usize> = c.into_path().take(2 * L + 40).map(|c| num(&c)).collect();
    let want = &full[..full.len().min(L)];
    ensure!(v == want, "cursor of capacity {L} to {at:?} yields {v:?}; the path is {full:?}");
    Ok(())
}

fn check_path<I: Ix, P: Feat<I, M, J>, const M: usize, const J: bool>(env: &mut Env, s: &TS<I, P, M, J>) -> Res {
    let t = match &s.tree { Some(t) => t, None => return Ok(()) };
    let b = bounds::<I>(&s.runs);
    let mut paths = Vec::new();
    for (i, r) in s.runs.iter().enumerate() {
        let at = if r.len() > 1 && env.rng.chance(1, 2) { I::plus(b[i], I::w(&r[0])) } else { b[i] };
        paths.push(t.cursor_to::<Adv>(at).path.iter().map(num).collect::<Vec<_>>());
    }
    env.stats.observations += 1;
    let h = check_shape(&paths, M, env.mask & VALID != 0).map_err(|e| format!("{e}; paths {paths:?}"))?;
    env.stats.max_height = env.stats.max_height.max(h);
    if env.mask & PATH == 0 { return Ok(()); }
    for (i, e) in t.iter(..).enumerate() {
        if let Some(c) = P::entry_path(&e) {
            let v: Vec<usize> = c.path.iter().map(num).collect();
            ensure!(i < paths.len() && v == paths[i], "entry cursor of slice {i} is {v:?}, path is {:?}", paths.get(i));
        }
    }
    for _ in 0..4.min(paths.len()) {
        let i = env.rng.below(paths.len());
        bounded_prefix::<I, P, M, J, 0>(t, b[i], &paths[i])?;
        bounded_prefix::<I, P, M, J, 1>(t, b[i], &paths[i])?;
        bounded_prefix::<I, P, M, J, 2>(t, b[i], &paths[i])?;
        bounded_prefix::<I, P, M, J, 3>(t, b[i], &paths[i])?;
        bounded_prefix::<I, P, M, J, 8>(t, b[i], &paths[i])?;
    }
    Ok(())
}

fn check_canon<I: Ix, P: Feat<I, M, J>, const M: usize, const J: bool>(env: &mut Env, s: &TS<I, P, M, J>) -> Res {
    let t = match &s.tree { Some(t) => t, None => return Ok(()) };
    if !J || env.cap { return Ok(()); }
    let v = read_runs(t)?;
    env.stats.observations += 1;
    for w in v.windows(2) {
        ensure!(!joins(env.rule, &w[0].2, &w[1].2), "neighbours {} and {} would join but are separate", show(&[w[0].2.clone()]), show(&[w[1].2.clone()]));
    }
    Ok(())
}

fn check_serde<I: Ix, P: Feat<I, M, J>, const M: usize, const J: bool>(env: &mut Env, s: &TS<I, P, M, J>) -> Res {
    let t = match &s.tree { Some(t) => t, None => return Ok(()) };
    env.stats.observations += 1;
    let text = serde_json::to_string(t).map_err(|e| format!("serialising fails: {e}"))?;
    fn back<I: Ix, Q: Feat<I, K, J>, const K: usize, const J: bool>(text: &str, runs: &[Vec<U>]) -> Res {
        let t: T<I, Q, K, J> = serde_json::from_str(text).map_err(|e| format!("deserialising fails: {e} on {text}"))?;
        let v = read_runs(&t)?;
        let b = bounds::<I>(runs);
        ensure!(v.iter().map(|x| &x.2).eq(runs.iter()), "round trip changes the slices: {} into {}", show(runs), show(&v.iter().map(|x| x.2.clone()).collect::<Vec<_>>()));
        for (i, x) in v.iter().enumerate() { ensure!(x.0 == (b[i]..b[i + 1]), "round trip moves slice {i} to {:?}", x.0); }
        ensure!(t.size() == *b.last().unwrap(), "round trip changes the size");
        Ok(())
    }
    back::<I, P, M, J>(&text, &s.runs)?;
    back::<I, NoFeatures, 3, J>(&text, &s.runs)?;
    // the encoding itself: the list of (size, slice)
    let val: serde_json::Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    let want = serde_json::to_value(s.runs.iter().map(|r| (I::sum(r), r.iter().map(|u| (u.c, u.uid, u.tag)).collect::<Vec<_>>())).collect::<Vec<_>>()).unwrap();
    ensure!(val == want, "serialised form is {val}, expected {want}");
    // malformed inputs are errors
    let k = env.rng.below(8);
    let z = serde_json::to_string(&I::ZERO).unwrap();
    let bad = match k { 0 => "null".into(), 1 => "{}".into(), 2 => "[[1]]".into(), 3 => "[7]".into(), 4 => "[[\"x\",[]]]".into(), 5 => format!("[[{z},[[0,0,0]]]]"),
        6 => { let mut q = text.clone(); q.pop(); q }, _ => { let mut q = text.clone(); q.pop(); if q.len() > 1 { q.push(',') }; q + &format!("[{z},[[0,0,0]]]]") } };
    match guard(|| serde_json::from_str::<T<I, P, M, J>>(&bad).is_err()) {
        Ok(true) => {}
        Ok(false) => return Err(format!("malformed input accepted: {bad}")),
        Err(m) => return Err(format!("malformed input panics: {bad}: {m}")),
    }
    Ok(())
}

struct World<I: Ix, P: Feat<I, M, J>, const M: usize, const J: bool> {
    trees: Vec<TS<I, P, M, J>>,
    refs: Vec<RS<P::Ref>>,
    bors: Vec<BS<P::Bor>>,
    tag: u32,
    uid: u32,
    fuse: Option<(u16, bool)>,
    /// a panic left slices behind
    leaky: bool,
}

fn check_live<I: Ix, P: Feat<I, M, J>, const M: usize, const J: bool>(env: &mut Env, w: &World<I, P, M, J>) -> Res {
    if w.leaky || w.trees.iter().any(|t| (t.poisoned && t.tree.is_some()) || t.pending) { return Ok(()); }
    let mut seen = HashSet::new();
    for s in &w.trees {
        if let Some(t) = &s.tree {
            let mut here = HashSet::new();
            for r in read_runs(t)? {
                ensure!(here.insert(r.3), "the same slice value appears twice in one tree");
                seen.insert(r.3);
            }
        }
    }
    env.stats.observations += 1;
    let live = tab(|t| t.live.keys().cloned().collect::<HashSet<_>>());
    let lost: Vec<_> = live.difference(&seen).collect();
    ensure!(lost.is_empty(), "{} slice value(s) neither in a tree nor dropped", lost.len());
    Ok(())
}

fn check_refs<I: Ix, P: Feat<I, M, J>, const M: usize, const J: bool>(env: &mut Env, w: &mut World<I, P, M, J>, joined: Option<(usize, &HashSet<u32>)>) -> Res {
    for (ri, r) in w.refs.iter_mut().enumerate() {
        if !r.alive { continue; }
        let rf = unsafe { &*r.ptr };
        let s = &w.trees[r.t];
        if s.poisoned { continue; }
        env.stats.observations += 1;
        if s.tree.is_none() {
            ensure!(!P::r_valid(rf), "reference {ri} reports valid although its tree is gone");
            ensure!(!P::r_can(rf) || s.pending, "reference {ri} reports borrowable although its tree is gone");
            ensure!(P::r_range(rf).is_none() && P::r_path(rf).is_none(), "reference {ri} reports a range although its tree is gone");
            ensure!(P::r_borrow(unsafe { &*r.ptr }).is_none(), "reference {ri} grants a borrow although its tree is gone");
            r.valid = false;
            continue;
        }
        ensure!(P::r_can(rf), "reference {ri} cannot borrow although nothing is changing the tree");
        let v = P::r_valid(rf);
        if !r.valid {
            ensure!(!v, "reference {ri} became valid again");
            ensure!(P::r_range(rf).is_none() && P::r_borrow(unsafe { &*r.ptr }).is_none(), "invalid reference {ri} answers queries");
            continue;
        }
        let may_end = matches!(joined, Some((t, j)) if t == r.t && r.tags.iter().any(|x| j.contains(x)));
        if !v {
            ensure!(may_end, "reference {ri} to {:?} became invalid although its slice was not merged", r.tags);
            r.valid = false;
            continue;
        }
        let b = bounds::<I>(&s.runs);
        let rg = P::r_range(rf).ok_or("valid reference reports no range")?;
        let bor = P::r_borrow(unsafe { &*r.ptr }).ok_or("valid reference grants no borrow")?;
        let (tok, us) = P::b_get(&bor);
        let us = us.ok_or("reference denotes a dead slice")?;
        let path = P::r_path(rf).ok_or("valid reference reports no cursor")?;
        drop(bor);
        let i = s.runs.iter().position(|x| *x == us);
        let i = match i { Some(i) => i, None => return Err(format!("reference {ri} denotes {}, which is no slice of {}", show(&[us]), show(&s.runs))) };
        ensure!(us.iter().any(|u| r.tags.contains(&u.tag)), "reference {ri} denotes the unrelated slice {}", show(&[us]));
        ensure!(may_end || r.token.is_none() || r.token == Some(tok), "reference {ri} moved to another slice value");
        ensure!(rg == (b[i]..b[i + 1]), "reference {ri} reports range {rg:?}, the slice is at {:?}", b[i]..b[i + 1]);
        if env.mask & PATH != 0 {
            let p: Vec<usize> = path.path.iter().map(num).collect();
            let q: Vec<usize> = s.tree.as_ref().unwrap().cursor_to::<Adv>(b[i]).path.iter().map(num).collect();
            ensure!(p == q, "reference cursor is {p:?}, path is {q:?}");
        }
        // the tree's own entry agrees that this is the slice
        r.tags = us.iter().map(|u| u.tag).collect();
        r.token = Some(tok);
    }
    for (bi, x) in w.bors.iter().enumerate() {
        if let Some(b) = &x.b {
            let (tok, us) = P::b_get(b);
            let us = us.ok_or_else(|| format!("borrow {bi} reads a dead slice"))?;
            ensure!(us == x.units && tok == x.token, "borrow {bi} reads {}, taken on {}", show(&[us]), show(&[x.units.clone()]));
        }
    }
    Ok(())
}

fn faults() -> Res {
    let f = tab(|t| t.faults.clone());
    if let Some(x) = f.first() { Err(x.clone()) } else { Ok(()) }
}

fn observe<I: Ix, P: Feat<I, M, J>, const M: usize, const J: bool>(env: &mut Env, w: &mut World<I, P, M, J>, t: Option<usize>, joined: Option<(usize, &HashSet<u32>)>) -> Res {
    let m = env.mask;
    for i in 0..w.trees.len() {
        if w.trees[i].poisoned || w.trees[i].tree.is_none() { continue; }
        let mine = Some(i) == t;
        if !mine && m & OTHERS == 0 { continue; }
        let s = &mut w.trees[i];
        let n = s.runs.len();
        env.stats.max_slices = env.stats.max_slices.max(n);
        let rare = n > 48 && !env.rng.chance(1, 8);
        let run = |env: &mut Env, s: &mut TS<I, P, M, J>| -> Res {
            if m & SIZE != 0 { check_size(env, s)?; }
            if m & CONTENT != 0 || env.cap { check_content(env, s)?; }
            if m & CANON != 0 { check_canon(env, s)?; }
            if !rare {
                if m & GET != 0 { check_get(env, s)?; }
                if m & ITER != 0 { check_iter(env, s)?; }
                if m & VALID != 0 { s.tree.as_ref().unwrap().validate(); }
                if m & (VALID | PATH) != 0 { check_path(env, s)?; }
                if m & SERDE != 0 { check_serde(env, s)?; }
            }
            Ok(())
        };
        guard(|| run(env, s)).map_err(|p| format!("panic while reading tree {i}: {p}"))?.map_err(|e| format!("tree {i}: {e}"))?;
    }
    if m & REFS != 0 {
        guard(|| check_refs(env, w, joined)).map_err(|p| format!("panic while using references: {p}"))??;
    }
    if m & LIVE != 0 {
        guard(|| check_live(env, w)).map_err(|p| format!("panic while reading: {p}"))??;
    }
    faults()
}

pub struct Fail { pub at: usize, pub what: String }

pub fn run_case<I: Ix, P: Feat<I, M, J>, const M: usize, const J: bool>(case: &Case, mask: u32) -> Result<Stats, Fail> {
    let rule = rule_of(&case.rule);
    reset(rule);
    if mask & HINT != 0 { pool(); }
    let mut env = Env { mask, rng: Rng(case.seed), stats: Stats::default(), rule, cap: J && rule == Rule::Cap };
    let mut w: World<I, P, M, J> = World { trees: vec![TS { tree: Some(RleTree::new_empty()), runs: vec![], poisoned: false, borrows: 0, pending: false, last: None }], refs: vec![], bors: vec![], tag: 0, uid: 0, fuse: None, leaky: false };
    for (k, op) in case.ops.iter().enumerate() {
        if let Err(e) = step(&mut env, &mut w, op) {
            // what is left may be corrupt: keep our hands off it
            std::mem::forget(w);
            return Err(Fail { at: k, what: e });
        }
        env.stats.ops += 1;
    }
    let end = case.ops.len();
    let leaky = w.leaky;
    if let Err(e) = guard(|| finish(&mut env, &mut w)).unwrap_or_else(|p| Err(format!("panic while dropping: {p}"))) {
        std::mem::forget(w);
        return Err(Fail { at: end, what: e });
    }
    drop(w);
    let left = tab(|t| t.live.len());
    let f = (|| -> Res {
        faults()?;
        if mask & LIVE != 0 && !leaky { ensure!(left == 0, "{left} slice value(s) never dropped"); }
        Ok(())
    })();
    env.stats.splits = tab(|t| t.splits_done);
    env.stats.joins = tab(|t| t.joins_done);
    f.map_err(|what| Fail { at: end, what })?;
    Ok(env.stats)
}

fn finish<I: Ix, P: Feat<I, M, J>, const M: usize, const J: bool>(env: &mut Env, w: &mut World<I, P, M, J>) -> Res {
    // drop everything, in an order chosen by the seed
    let order = env.rng.below(4);
    let drop_trees = |env: &mut Env, w: &mut World<I, P, M, J>| -> Res {
        for i in 0..w.trees.len() { step(env, w, &Op::Drop { t: i as u8 })?; }
        Ok(())
    };
    tab(|t| t.probes.clear());
    if order & 1 == 0 { drop_trees(env, w)?; }
    for i in 0..w.bors.len() { drop_bor(w, i); }
    faults()?;
    if order & 2 == 0 { drop_trees(env, w)?; }
    for i in 0..w.refs.len() { drop_ref(w, i); }
    drop_trees(env, w)?;
    faults()
}

fn drop_bor<I: Ix, P: Feat<I, M, J>, const M: usize, const J: bool>(w: &mut World<I, P, M, J>, i: usize) {
    if let Some(b) = w.bors[i].b.take() {
        drop(b);
        let r = w.bors[i].r;
        w.refs[r].borrows -= 1;
        let t = w.refs[r].t;
        w.trees[t].borrows -= 1;
        if w.trees[t].borrows == 0 { w.trees[t].pending = false; }
    }
}
fn drop_ref<I: Ix, P: Feat<I, M, J>, const M: usize, const J: bool>(w: &mut World<I, P, M, J>, i: usize) {
    if w.refs[i].alive && w.refs[i].borrows == 0 {
        w.refs[i].alive = false;
        drop(unsafe { Box::from_raw(w.refs[i].ptr) });
    }
}

fn step<I: Ix, P: Feat<I, M, J>, const M: usize, const J: bool>(env: &mut Env, w: &mut World<I, P, M, J>, op: &Op) -> Res {
    match *op {
        // panics that are allowed to leave slices behind are no business of the leak checks
        Op::Fuse { n, clone } => { if clone || env.mask & LIVE == 0 { w.fuse = Some((n, clone)); } Ok(()) }
        Op::Ins { t, pos, n, c, mode, cur, keep } => {
            let ti = t as usize % w.trees.len();
            if w.trees[ti].tree.is_none() || w.trees[ti].poisoned { return Ok(()); }
            let total: usize = w.trees[ti].runs.iter().map(|r| r.len()).sum();
            let k = if pos == END { total } else { pos as usize % (total + 1) };
            let n = (n as usize).max(1);
            let flat: Vec<U> = w.trees[ti].runs.iter().flatten().cloned().collect();
            if std::mem::size_of::<I>() == 1 && total + n > 250 { return Ok(()); }
            let (mut uid, mut col) = (w.uid + 7, c);
            match mode {
                1 if k > 0 => { uid = flat[k - 1].uid + 1; col = flat[k - 1].c }
                2 if k < total && flat[k].uid as usize > n => { uid = flat[k].uid - n as u32; col = flat[k].c }
                _ => {}
            }
            w.uid = w.uid.max(uid + n as u32);
            let units: Vec<U> = (0..n).map(|i| { w.tag += 1; U { c: col, uid: uid + i as u32, tag: w.tag } }).collect();
            if env.cap {
                // which neighbour is tried first is not specified: avoid the three-way case
                let mut at = 0;
                for i in 0..w.trees[ti].runs.len() {
                    let l = w.trees[ti].runs[i].len();
                    at += l;
                    if at == k && i + 1 < w.trees[ti].runs.len() && l + n <= 3 && w.trees[ti].runs[i + 1].len() + n <= 3 {
                        env.stats.skipped_double_join += 1;
                        return Ok(());
                    }
                }
            }
            let mut next = w.trees[ti].runs.clone();
            let before_runs = w.trees[ti].runs.clone();
            let info = match model_insert(&mut next, k, units.clone(), env.rule, J) {
                Some(i) => i,
                None => { env.stats.skipped_double_join += 1; return Ok(()); }
            };
            let idx = I::sum(&flat[..k]);
            let size = I::sum(&units);
            let hint = adversarial(cur, &mut env.rng, &w.trees[ti].last);
            let hint_s: Vec<usize> = hint.path.iter().map(num).collect();
            env.stats.inserts += 1;
            let sl = Sl::<J>::make(units.clone());
            let blocked = w.trees[ti].borrows > 0;
            let fuse = w.fuse.take();
            // ask for borrows from within user code while the tree is changing
            if env.mask & BORROW != 0 && P::KIND == 'R' {
                let mut probes: Vec<Box<dyn Fn() -> bool>> = Vec::new();
                for r in w.refs.iter().filter(|r| r.alive && r.t == ti).take(3) {
                    let p = r.ptr;
                    probes.push(Box::new(move || {
                        let rf: &'static P::Ref = unsafe { &*p };
                        P::r_can(rf) || P::r_borrow(rf).is_some() || P::r_range(rf).is_some()
                    }));
                }
                if !blocked { tab(|t| t.probes = probes); }
            }
            tab(|t| { t.fuse = fuse.map(|f| f.0 as u64); t.fuse_clone = fuse.map_or(false, |f| f.1) });
            let tree = w.trees[ti].tree.as_mut().unwrap();
            let use_ref = keep && P::KIND == 'R';
            let res = guard(|| {
                if use_ref { P::ins_ref(tree, hint.clone(), idx, sl, size) }
                else if cur == 0 && !keep && env.mask & PATH == 0 { tree.insert(idx, sl, size); (Adv::new_empty(), None) }
                else { (tree.insert_with_cursor(hint.clone(), idx, sl, size), None) }
            });
            tab(|t| { t.fuse = None; t.probes.clear() });
            match res {
                Err(p) if p == "<injected>" => {
                    env.stats.panics_injected += 1;
                    if fuse != Some((fuse.unwrap().0, true)) { w.leaky = true; env.stats.leaky += 1; }
                    w.trees[ti].poisoned = true;
                    if env.mask & FAULTREAD != 0 { poke(env, w, ti)?; }
                    // the other trees must not have noticed
                    observe(env, w, None, None)
                }
                Err(p) => {
                    if blocked {
                        // refused because of the live borrow: nothing may have changed
                        ensure!(p.contains("borrow"), "insertion refused during a borrow, but with: {p}");
                        return observe(env, w, Some(ti), None);
                    }
                    Err(format!("insert at unit {k} of {} with hint {hint_s:?} panics: {p}", show(&before_runs)))
                }
                Ok((cursor, r)) => {
                    ensure!(!blocked || env.mask & BORROW == 0 || before_runs.is_empty(), "insertion succeeded although a borrow is alive");
                    w.trees[ti].runs = next;
                    faults()?;
                    if env.mask & PATH != 0 {
                        let s = &w.trees[ti];
                        let at = bounds::<I>(&s.runs)[info.run];
                        if !env.cap {
                            let want = guard(|| s.tree.as_ref().unwrap().cursor_to::<Adv>(at)).map_err(|p| format!("cursor_to panics: {p}"))?;
                            let (a, b): (Vec<usize>, Vec<usize>) = (cursor.path.iter().map(num).collect(), want.path.iter().map(num).collect());
                            if use_ref || cur != 0 || keep || env.mask & PATH != 0 {
                                ensure!(a == b, "insertion at unit {k} of {} returns cursor {a:?}; the path to the inserted slice is {b:?}", show(&before_runs));
                            }
                        }
                    }
                    if !cursor.path.is_empty() { w.trees[ti].last = Some(cursor); }
                    let joined = info.joined.clone();
                    if let Some(r) = r {
                        w.refs.push(RS { ptr: Box::into_raw(Box::new(r)), t: ti, tags: units.iter().map(|u| u.tag).collect(), token: None, valid: true, borrows: 0, alive: true });
                        // a fresh reference is never invalid
                        let last = w.refs.last().unwrap();
                        let ok = guard(|| P::r_valid(unsafe { &*last.ptr })).map_err(|p| format!("is_valid panics: {p}"))?;
                        ensure!(ok || env.mask & REFS == 0, "the reference returned by insertion is invalid");
                    }
                    observe(env, w, Some(ti), Some((ti, &joined)))?;
                    let mut h = 0xcbf29ce484222325u64;
                    for r in &w.trees[ti].runs { for u in r { h = (h ^ u.tag as u64).wrapping_mul(0x100000001b3); } h = h.wrapping_mul(31).wrapping_add(7); }
                    env.stats.digest.push(h);
                    Ok(())
                }
            }
        }
        Op::Dup { t } => {
            let ti = t as usize % w.trees.len();
            if w.trees[ti].tree.is_none() || w.trees[ti].poisoned || w.trees.len() >= 6 { return Ok(()); }
            let fuse = w.fuse.take();
            let before = if P::KIND == 'N' { guard(|| read_runs(w.trees[ti].tree.as_ref().unwrap())).unwrap_or(Ok(vec![]))? } else { vec![] };
            tab(|t| { t.fuse = fuse.map(|f| f.0 as u64); t.fuse_clone = fuse.map_or(false, |f| f.1); t.clones.clear() });
            let r = guard(|| P::dup(w.trees[ti].tree.as_ref().unwrap()));
            tab(|t| t.fuse = None);
            match r {
                Err(p) if p == "<injected>" => {
                    env.stats.panics_injected += 1;
                    if fuse != Some((fuse.unwrap().0, true)) { w.leaky = true; env.stats.leaky += 1; }
                    observe(env, w, Some(ti), None)
                }
                Err(p) => Err(format!("clone panics: {p}")),
                Ok(None) => Ok(()),
                Ok(Some(n)) => {
                    if env.mask & CLONEEQ != 0 && P::KIND == 'N' {
                        let c = tab(|t| t.clones.clone());
                        for b in &before { ensure!(c.get(&b.3) == Some(&1), "clone of the tree cloned a slice {:?} times", c.get(&b.3)); }
                        ensure!(c.len() == before.len(), "clone of the tree cloned {} slices of {}", c.len(), before.len());
                        let s = &w.trees[ti];
                        let paths = |t: &T<I, P, M, J>| -> Vec<Adv> { bounds::<I>(&s.runs)[..s.runs.len()].iter().map(|b| t.cursor_to::<Adv>(*b)).collect() };
                        let same = guard(|| paths(&n) == paths(s.tree.as_ref().unwrap())).map_err(|p| format!("panic in the clone: {p}"))?;
                        ensure!(same, "the clone has a different structure");
                    }
                    let runs = w.trees[ti].runs.clone();
                    w.trees.push(TS { tree: Some(n), runs, poisoned: false, borrows: 0, pending: false, last: None });
                    let k = w.trees.len() - 1;
                    observe(env, w, Some(k), None)?;
                    observe(env, w, Some(ti), None)
                }
            }
        }
        Op::Drop { t } => {
            let ti = t as usize % w.trees.len();
            if let Some(tree) = w.trees[ti].tree.take() {
                w.trees[ti].pending = w.trees[ti].borrows > 0;
                guard(|| drop(tree)).map_err(|p| format!("dropping a tree panics: {p}"))?;
                faults()?;
                observe(env, w, None, None)?;
            }
            Ok(())
        }
        Op::Mk { t, pos } => {
            let ti = t as usize % w.trees.len();
            let s = &w.trees[ti];
            if P::KIND != 'R' || s.tree.is_none() || s.poisoned || s.runs.is_empty() { return Ok(()); }
            let i = pos as usize % s.runs.len();
            let at = bounds::<I>(&s.runs)[i];
            let r = guard(|| P::entry_ref(&s.tree.as_ref().unwrap().get(at))).map_err(|p| format!("making a reference panics: {p}"))?;
            if let Some(r) = r {
                let tags = s.runs[i].iter().map(|u| u.tag).collect();
                w.refs.push(RS { ptr: Box::into_raw(Box::new(r)), t: ti, tags, token: None, valid: true, borrows: 0, alive: true });
            }
            observe(env, w, Some(ti), None)
        }
        Op::RClone { r } => {
            if w.refs.is_empty() || w.refs.len() > 400 { return Ok(()); }
            let i = r as usize % w.refs.len();
            if !w.refs[i].alive { return Ok(()); }
            let n = guard(|| P::r_clone(unsafe { &*w.refs[i].ptr })).map_err(|p| format!("cloning a reference panics: {p}"))?;
            let x = &w.refs[i];
            let rs = RS { ptr: Box::into_raw(Box::new(n)), t: x.t, tags: x.tags.clone(), token: x.token, valid: x.valid, borrows: 0, alive: true };
            w.refs.push(rs);
            observe(env, w, None, None)
        }
        Op::RDrop { r } => {
            if w.refs.is_empty() { return Ok(()); }
            let i = r as usize % w.refs.len();
            guard(|| drop_ref(w, i)).map_err(|p| format!("dropping a reference panics: {p}"))?;
            observe(env, w, None, None)
        }
        Op::Bor { r } => {
            if w.refs.is_empty() { return Ok(()); }
            let i = r as usize % w.refs.len();
            if !w.refs[i].alive { return Ok(()); }
            let ti = w.refs[i].t;
            if w.trees[ti].poisoned { return Ok(()); }
            let b = guard(|| P::r_borrow(unsafe { &*w.refs[i].ptr })).map_err(|p| format!("borrowing panics: {p}"))?;
            if w.trees[ti].tree.is_none() {
                ensure!(b.is_none(), "borrow granted although the tree is gone");
                return Ok(());
            }
            ensure!(b.is_some() || !w.refs[i].valid, "borrow refused although the tree is free");
            if let Some(b) = b {
                let (token, us) = P::b_get(&b);
                let units = us.ok_or("borrow of a dead slice")?;
                w.refs[i].borrows += 1;
                w.trees[ti].borrows += 1;
                w.bors.push(BS { b: Some(b), r: i, units, token });
            }
            observe(env, w, Some(ti), None)
        }
        Op::BClone { b } => {
            if w.bors.is_empty() || w.bors.len() > 200 { return Ok(()); }
            let i = b as usize % w.bors.len();
            if w.bors[i].b.is_none() { return Ok(()); }
            let n = guard(|| P::b_clone(w.bors[i].b.as_ref().unwrap())).map_err(|p| format!("cloning a borrow panics: {p}"))?;
            let r = w.bors[i].r;
            let (units, token) = (w.bors[i].units.clone(), w.bors[i].token);
            w.bors.push(BS { b: Some(n), r, units, token });
            w.refs[r].borrows += 1;
            let t = w.refs[r].t;
            w.trees[t].borrows += 1;
            observe(env, w, None, None)
        }
        Op::BMap { b } => {
            if w.bors.is_empty() { return Ok(()); }
            let i = b as usize % w.bors.len();
            if let Some(x) = w.bors[i].b.take() { w.bors[i].b = Some(P::b_map(x)); }
            observe(env, w, None, None)
        }
        Op::BDrop { b } => {
            if w.bors.is_empty() { return Ok(()); }
            let i = b as usize % w.bors.len();
            guard(|| drop_bor(w, i)).map_err(|p| format!("ending a borrow panics: {p}"))?;
            observe(env, w, None, None)
        }
        Op::Bad { t, which } => {
            let ti = t as usize % w.trees.len();
            if w.trees[ti].tree.is_none() || w.trees[ti].poisoned { return Ok(()); }
            bad_call(env, w, ti, which)?;
            observe(env, w, Some(ti), None)
        }
    }
}

/// after an injected panic: every read gives a live slice or panics
fn poke<I: Ix, P: Feat<I, M, J>, const M: usize, const J: bool>(env: &mut Env, w: &mut World<I, P, M, J>, ti: usize) -> Res {
    let s = &w.trees[ti];
    let t = s.tree.as_ref().unwrap();
    let flat: Vec<U> = s.runs.iter().flatten().cloned().collect();
    let mut at = I::ZERO;
    for u in flat.iter().take(100) {
        let _ = guard(|| { let e = t.get(at); let _ = e.range(); e.slice().units() });
        at = I::plus(at, I::w(u));
    }
    for back in [false, true] {
        let _ = guard(|| {
            let mut it = t.iter(..);
            for _ in 0..flat.len() * 2 + 8 {
                match if back { it.next_back() } else { it.next() } { Some(e) => { let _ = guard(|| e.slice().units()); } None => break }
            }
        });
    }
    let _ = guard(|| (t.size(), t.number_of_slices()));
    for r in w.refs.iter().filter(|r| r.alive && r.t == ti) {
        let _ = guard(|| (P::r_valid(unsafe { &*r.ptr }), P::r_range(unsafe { &*r.ptr })));
        let _ = guard(|| P::r_borrow(unsafe { &*r.ptr }).map(|b| P::b_get(&b)));
    }
    let t = w.trees[ti].tree.as_mut().unwrap();
    // a second change may be refused, but must not be unsound
    let k = env.rng.below(flat.len() + 1);
    let u = U { c: 3, uid: 900_000, tag: 900_000 };
    let i = I::sum(&flat[..k]);
    let _ = guard(|| t.insert(i, Sl::make(vec![u]), I::w(&u)));
    let _ = guard(|| { for e in t.iter(..).take(flat.len() * 2 + 16) { let _ = guard(|| e.slice().units()); } });
    faults()
}

fn bad_call<I: Ix, P: Feat<I, M, J>, const M: usize, const J: bool>(env: &mut Env, w: &mut World<I, P, M, J>, ti: usize, which: u8) -> Res {
    let flat: Vec<U> = w.trees[ti].runs.iter().flatten().cloned().collect();
    let total = flat.len();
    let size = I::sum(&flat);
    let at = |k: usize| I::sum(&flat[..k]);
    let mut rng = Rng(env.rng.next());
    let u = U { c: 1, uid: 800_000, tag: 800_000 };
    let one = I::w(&u);
    let over = (0..1 + rng.below(3)).fold(size, |a, _| a.bump());
    let t = w.trees[ti].tree.as_mut().unwrap();
    env.stats.observations += 1;
    let must = |r: Result<(), String>, what: String| -> Res { match r { Err(p) if p != "<injected>" => Ok(()), _ => Err(format!("{what} is accepted")) } };
    let may = |r: Result<(), String>, what: String| -> Res { r.map_err(|p| format!("{what} is refused: {p}")) };
    let cur = adversarial(if rng.chance(1, 2) { 2 } else { 0 }, &mut rng, &None);
    let k = rng.below(total + 1);
    let k2 = rng.below(total + 1);


    match which % 16 {
        0 => must(guard(|| t.insert(over, Sl::make(vec![u]), one)), format!("insertion at {over:?} into a tree of size {size:?}"))?,
        1 => must(guard(|| { let _ = t.insert_with_cursor(cur, at(k), Sl::make(vec![u]), I::ZERO); }), "insertion of size zero".into())?,
        2 => must(guard(|| { let _ = t.get(size); }), format!("get({size:?}) on a tree of that size"))?,
        3 => must(guard(|| { let _ = t.get_with_cursor(cur, over); }), format!("get({over:?}) on a tree of size {size:?}"))?,
        4 => must(guard(|| { let _ = t.cursor_to::<Adv>(size); }), "cursor_to(size)".into())?,
        5 => must(guard(|| { let _ = t.iter(size..); }), format!("iter({size:?}..) on a tree of that size"))?,
        6 => must(guard(|| { let _ = t.iter(..=size); }), format!("iter(..={size:?}) on a tree of that size"))?,
        7 => must(guard(|| { let _ = t.iter(..over); }), format!("iter(..{over:?}) on a tree of size {size:?}"))?,
        8 => must(guard(|| { let _ = t.iter_with_cursor(cur, at(k)..at(k)); }), format!("iter({0:?}..{0:?})", at(k)))?,
        9 if k != k2 => { let (a, b) = (at(k.max(k2)), at(k.min(k2))); must(guard(|| { let _ = t.iter(a..b); }), format!("iter({a:?}..{b:?})"))?; must(guard(|| { let _ = t.iter(a..=b); }), format!("iter({a:?}..={b:?})"))? }
        10 => { may(guard(|| { assert!(t.iter(..I::ZERO).next().is_none()) }), "iter(..0)".into())?; may(guard(|| { let _ = t.iter(..); }), "iter(..)".into())?; may(guard(|| { let _ = t.iter(..size); }), "iter(..size)".into())? }
        11 if total > 0 => { let l = at(total - 1); may(guard(|| { let _ = t.iter(..=l); }), "iter(..=last)".into())?; may(guard(|| { let _ = t.iter(l..); }), "iter(last..)".into())?; may(guard(|| { let _ = t.iter(l..=l); }), "iter(last..=last)".into())?; may(guard(|| { let _ = t.get(l); }), "get(last)".into())? }
        12 => must(guard(|| { let _ = T::<I, P, M, J>::new(Sl::make(vec![u]), I::ZERO); }), "a new tree of size zero".into())?,
        13 => { let mut n: T<I, P, M, J> = RleTree::new_empty(); must(guard(|| { let _ = n.get(I::ZERO); }), "get(0) on the empty tree".into())?; must(guard(|| n.insert(one, Sl::make(vec![u]), one)), "insertion at 1 into the empty tree".into())?; must(guard(|| n.insert(I::ZERO, Sl::make(vec![u]), I::ZERO)), "insertion of size zero into the empty tree".into())?; ensure!(n.size() == I::ZERO && n.number_of_slices() == 0 && n.iter(..).next().is_none(), "the empty tree is no longer empty after refused calls") }
        14 => { must(guard(|| { let _ = RleTree::<I, Sl<J>, NoFeatures, 128>::new_empty(); }), "node size 128".into())?; must(guard(|| { let _ = RleTree::<I, Sl<J>, NoFeatures, 0>::new_empty(); }), "node size 0".into())?; must(guard(|| { let _ = RleTree::<I, Sl<J>, NoFeatures, 128>::new(Sl::make(vec![u]), one); }), "node size 128".into())?; may(guard(|| { let _ = RleTree::<I, Sl<J>, NoFeatures, 127>::new(Sl::make(vec![u]), one); }), "node size 127".into())?; may(guard(|| { let _ = RleTree::<I, Sl<J>, NoFeatures, 1>::new(Sl::make(vec![u]), one); }), "node size 1".into())? }
        _ => { may(guard(|| { let n = T::<I, P, M, J>::new(Sl::make(vec![u]), one); assert!(n.size() == one && n.number_of_slices() == 1) }), "a new tree of one slice".into())? }
    }
    Ok(())
}

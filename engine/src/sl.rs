//! The slice and index types the engine instantiates the tree with.  A slice value is only a
//! token; what it stands for lives in a thread-local table, so that a read of a moved-out, dropped
//! or freed slice is recognised instead of being undefined.
use serde::{de::Error as _, Deserialize, Deserializer, Serialize, Serializer};
use sherman::{DirectionalAdd, DirectionalSub, Index, Slice};
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct U {
    pub c: u8,
    pub uid: u32,
    pub tag: u32,
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Rule {
    Colour,
    Piece,
    Domino,
    Cap,
}

pub fn joins(rule: Rule, l: &[U], r: &[U]) -> bool {
    let (a, b) = match (l.last(), r.first()) {
        (Some(a), Some(b)) => (a, b),
        _ => return false,
    };
    match rule {
        Rule::Colour => a.c == b.c,
        Rule::Piece => a.c == b.c && a.uid + 1 == b.uid,
        Rule::Domino => (a.c as u32 * 7 + b.c as u32 * 3 + 1) % 4 == 0,
        Rule::Cap => l.len() + r.len() <= 3,
    }
}

#[derive(Default)]
pub struct Tab {
    pub live: HashMap<u64, Vec<U>>,
    pub next: u64,
    pub faults: Vec<String>,
    pub clones: HashMap<u64, u32>,
    pub fuse: Option<u64>,
    /// only a clone blows the fuse
    pub fuse_clone: bool,
    pub fuse_hit: bool,
    pub after_panic: bool,
    pub calls: u64,
    pub rule: Option<Rule>,
    pub probes: Vec<Box<dyn Fn() -> bool>>,
    pub probing: bool,
    pub joins_done: u64,
    pub splits_done: u64,
}

thread_local! { pub static TAB: RefCell<Tab> = RefCell::new(Tab::default()); }

pub fn tab<R>(f: impl FnOnce(&mut Tab) -> R) -> R {
    TAB.with(|t| f(&mut t.borrow_mut()))
}
pub fn fault(s: String) {
    if std::env::var_os("ENGINE_TRACE").is_some() {
        eprintln!("fault: {s}\n{}", std::backtrace::Backtrace::force_capture());
    }
    tab(|t| {
        if t.faults.len() < 8 {
            t.faults.push(s)
        }
    })
}
pub fn reset(rule: Rule) {
    let probes = tab(|t| std::mem::take(&mut t.probes));
    drop(probes);
    tab(|t| {
        *t = Tab::default();
        t.rule = Some(rule);
    });
}

pub struct FuseBlown;

/// called at the start of every user callback
pub fn tick(cloning: bool) {
    // calls made from within user code while the tree is being changed
    let probes = tab(|t| {
        t.calls += 1;
        if t.probing { Vec::new() } else { t.probing = true; std::mem::take(&mut t.probes) }
    });
    if !probes.is_empty() {
        for p in probes.iter() {
            if p() {
                fault("a borrow was granted while the tree was being changed".into());
            }
        }
        tab(|t| t.probes = probes);
    }
    let blow = tab(|t| {
        t.probing = false;
        if t.fuse_clone && !cloning { return false; }
        match &mut t.fuse {
            Some(0) => {
                t.fuse = None;
                t.fuse_hit = true;
                t.after_panic = true;
                true
            }
            Some(n) => {
                *n -= 1;
                false
            }
            None => false,
        }
    });
    if blow {
        std::panic::panic_any(FuseBlown)
    }
}

pub struct Sl<const J: bool> {
    pub id: u64,
}

impl<const J: bool> Sl<J> {
    pub fn make(u: Vec<U>) -> Self {
        tab(|t| {
            t.next += 1;
            // tokens that a stray read of freed memory is unlikely to reproduce
            let id = 0x5a5a_0000_0000_0000 | t.next;
            t.live.insert(id, u);
            Sl { id }
        })
    }
    pub fn units(&self) -> Option<Vec<U>> {
        let r = tab(|t| t.live.get(&self.id).cloned());
        if r.is_none() {
            fault(format!("read of a slice that was moved out or dropped (token {:#x})", self.id));
        }
        r
    }
}

impl<const J: bool> Drop for Sl<J> {
    fn drop(&mut self) {
        let id = self.id;
        if tab(|t| t.live.remove(&id)).is_none() {
            fault(format!("slice dropped twice, or never created (token {id:#x})"));
        }
    }
}

impl<const J: bool> Clone for Sl<J> {
    fn clone(&self) -> Self {
        tick(true);
        let u = self.units().unwrap_or_default();
        tab(|t| *t.clones.entry(self.id).or_insert(0) += 1);
        Sl::make(u)
    }
}

impl<I: Ix, const J: bool> Slice<I> for Sl<J> {
    const MAY_JOIN: bool = J;
    fn split_at(&mut self, idx: I) -> Self {
        tick(false);
        let mut u = self.units().unwrap_or_default();
        let k = idx.count();
        let ok = k > 0 && k < u.len() && I::sum(&u[..k]) == idx;
        if !ok {
            // after a panic in user code the sizes in the tree need not fit its slices any more
            if tab(|t| t.after_panic) {
                panic!("<refused>");
            }
            fault(format!("split_at called with index {idx:?} on a slice of {} units", u.len()));
        }
        let k = k.min(u.len());
        let r = u.split_off(k);
        tab(|t| {
            t.splits_done += 1;
            t.live.insert(self.id, u)
        });
        Sl::make(r)
    }
    fn try_join(self, other: Self) -> Result<Self, (Self, Self)> {
        if !J {
            fault("try_join called although MAY_JOIN is false".into());
        }
        tick(false);
        let (a, b) = (self.units().unwrap_or_default(), other.units().unwrap_or_default());
        let rule = tab(|t| t.rule.unwrap());
        if joins(rule, &a, &b) {
            let mut a = a;
            a.extend(b);
            tab(|t| {
                t.joins_done += 1;
                t.live.insert(self.id, a)
            });
            Ok(self)
        } else {
            Err((self, other))
        }
    }
}

impl<const J: bool> Serialize for Sl<J> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let v: Vec<(u8, u32, u32)> =
            self.units().unwrap_or_default().iter().map(|u| (u.c, u.uid, u.tag)).collect();
        v.serialize(s)
    }
}
impl<'de, const J: bool> Deserialize<'de> for Sl<J> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = Vec::<(u8, u32, u32)>::deserialize(d)?;
        if v.len() > 1_000_000 {
            return Err(D::Error::custom("too long"));
        }
        Ok(Sl::make(v.into_iter().map(|(c, uid, tag)| U { c, uid, tag }).collect()))
    }
}

pub trait Ix: Index + Serialize + for<'de> Deserialize<'de> + std::panic::UnwindSafe + std::panic::RefUnwindSafe + 'static {
    fn w(u: &U) -> Self;
    fn count(&self) -> usize;
    /// something that compares greater, by one unit
    fn bump(self) -> Self;
    fn nc() -> bool;
    fn sum(u: &[U]) -> Self {
        u.iter().fold(Self::ZERO, |a, x| Self::plus(a, Self::w(x)))
    }
    /// the oracle's own addition: `a` then `b`
    fn plus(a: Self, b: Self) -> Self;
}

impl Ix for usize {
    fn w(_: &U) -> Self {
        1
    }
    fn count(&self) -> usize {
        *self
    }
    fn bump(self) -> Self {
        self + 1
    }
    fn nc() -> bool {
        false
    }
    fn plus(a: Self, b: Self) -> Self {
        a + b
    }
}
impl Ix for u8 {
    fn w(_: &U) -> Self {
        1
    }
    fn count(&self) -> usize {
        *self as usize
    }
    fn bump(self) -> Self {
        self + 1
    }
    fn nc() -> bool {
        false
    }
    fn plus(a: Self, b: Self) -> Self {
        a + b
    }
}

/// A non-commutative index: the group Z ⋉ Z_p, (a,x)·(b,y) = (a+b, x + G^a·y mod p).  Ordered by
/// the integer part, which strictly grows with every unit.
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct NC {
    pub a: i64,
    pub x: u32,
}
const PR: u64 = 65_521;
const G: u64 = 17;
const GINV: u64 = {
    // G^(p-2) mod p
    let mut r = 1u64;
    let mut e = PR - 2;
    let mut b = G;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % PR;
        }
        b = b * b % PR;
        e >>= 1;
    }
    r
};
fn gpow(a: i64) -> u64 {
    let (mut b, mut e) = if a < 0 { (GINV, (-a) as u64) } else { (G, a as u64) };
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % PR;
        }
        b = b * b % PR;
        e >>= 1;
    }
    r
}
fn op(l: NC, r: NC) -> NC {
    NC { a: l.a + r.a, x: ((l.x as u64 + gpow(l.a) * r.x as u64) % PR) as u32 }
}
fn inv(v: NC) -> NC {
    let x = (gpow(-v.a) * v.x as u64) % PR;
    NC { a: -v.a, x: ((PR - x) % PR) as u32 }
}
impl DirectionalAdd for NC {
    fn add_right(self, right: Self) -> Self {
        op(self, right)
    }
}
impl DirectionalSub for NC {
    fn sub_left(self, left: Self) -> Self {
        op(inv(left), self)
    }
    fn sub_right(self, right: Self) -> Self {
        op(self, inv(right))
    }
}
impl Index for NC {
    const ZERO: NC = NC { a: 0, x: 0 };
}
impl Serialize for NC {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        (self.a, self.x).serialize(s)
    }
}
impl<'de> Deserialize<'de> for NC {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let (a, x) = <(i64, u32)>::deserialize(d)?;
        Ok(NC { a, x })
    }
}
impl Ix for NC {
    fn w(u: &U) -> Self {
        NC { a: 1, x: (u.tag.wrapping_mul(7919).wrapping_add(u.uid * 31 + 11)) % PR as u32 }
    }
    fn count(&self) -> usize {
        if self.a < 0 { usize::MAX } else { self.a as usize }
    }
    fn bump(self) -> Self {
        op(self, NC { a: 1, x: 5 })
    }
    fn nc() -> bool {
        true
    }
    fn plus(a: Self, b: Self) -> Self {
        op(a, b)
    }
}

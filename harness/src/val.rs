//! Values carried through pipelines. Every value may carry a live-counted token, so what a pipeline
//! keeps alive can be observed from outside.
use std::cell::Cell;
use std::fmt;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
pub fn reset_live() {
    LIVE.with(|l| l.set(0))
}

/// A counted or uncounted token.
pub struct Tok(bool);
impl Tok {
    pub fn counted() -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Tok(true)
    }
    pub fn plain() -> Self {
        Tok(false)
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        if self.0 { Tok::counted() } else { Tok(false) }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        if self.0 {
            let _ = LIVE.try_with(|l| l.set(l.get() - 1));
        }
    }
}

#[derive(Clone, PartialEq)]
pub enum V {
    I(i64),
    B(bool),
    T(&'static str, Vec<Val>),
}

#[derive(Clone)]
pub struct Val {
    pub v: V,
    _t: Tok,
}
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        self.v == o.v
    }
}
impl fmt::Debug for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.v {
            V::I(i) => write!(f, "{i}"),
            V::B(b) => write!(f, "{b}"),
            V::T(n, xs) => {
                write!(f, "{n}(")?;
                for (i, x) in xs.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "{x:?}")?;
                }
                write!(f, ")")
            }
        }
    }
}
pub fn i(x: i64) -> Val {
    Val { v: V::I(x), _t: Tok::plain() }
}
pub fn b(x: bool) -> Val {
    Val { v: V::B(x), _t: Tok::plain() }
}
pub fn t(n: &'static str, xs: Vec<Val>) -> Val {
    Val { v: V::T(n, xs), _t: Tok::plain() }
}
impl Val {
    /// A deep copy whose tokens are counted.
    pub fn counted(&self) -> Val {
        Val {
            v: match &self.v {
                V::T(n, xs) => V::T(n, xs.iter().map(|x| x.counted()).collect()),
                o => o.clone(),
            },
            _t: Tok::counted(),
        }
    }
    /// A deep copy whose tokens are not counted.
    pub fn plain(&self) -> Val {
        Val {
            v: match &self.v {
                V::T(n, xs) => V::T(n, xs.iter().map(|x| x.plain()).collect()),
                o => o.clone(),
            },
            _t: Tok::plain(),
        }
    }
    pub fn h(&self) -> u64 {
        fn mix(a: u64, b: u64) -> u64 {
            (a ^ b.wrapping_add(0x9E3779B97F4A7C15)).wrapping_mul(0xBF58476D1CE4E5B9).rotate_left(27)
        }
        match &self.v {
            V::I(i) => mix(1, *i as u64) >> 7,
            V::B(b) => mix(2, *b as u64) >> 7,
            V::T(n, xs) => {
                let mut a = mix(3, n.len() as u64);
                for c in n.bytes() {
                    a = mix(a, c as u64);
                }
                for x in xs {
                    a = mix(a, x.h());
                }
                a >> 7
            }
        }
    }
}

#[derive(Clone, PartialEq)]
pub enum Ntf {
    N(Val),
    E(Val),
    C,
}
impl Ntf {
    pub fn plain(&self) -> Ntf {
        match self {
            Ntf::N(v) => Ntf::N(v.plain()),
            Ntf::E(v) => Ntf::E(v.plain()),
            Ntf::C => Ntf::C,
        }
    }
    pub fn counted(&self) -> Ntf {
        match self {
            Ntf::N(v) => Ntf::N(v.counted()),
            Ntf::E(v) => Ntf::E(v.counted()),
            Ntf::C => Ntf::C,
        }
    }
    pub fn terminal(&self) -> bool {
        !matches!(self, Ntf::N(_))
    }
}
impl fmt::Debug for Ntf {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Ntf::N(v) => write!(f, "N{v:?}"),
            Ntf::E(v) => write!(f, "E{v:?}"),
            Ntf::C => write!(f, "C"),
        }
    }
}

/// splitmix64, so that runs depend on nothing but the seed.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(a: u64, b: u64, c: u64) -> Self {
        let mut r = Rng(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD6E8FEB86659FD93) ^ c.wrapping_mul(0xA0761D6478BD642F));
        for _ in 0..4 {
            r.u64();
        }
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % (n.max(1) as u64)) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.u64() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

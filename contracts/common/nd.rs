// Source of nondeterminism for contracts. A contract is
//     fn c(n) { let args = n.*(); n.assume(pre); let r = real_code(args); assert!(post) }
// Under Kani every choice is symbolic (all values at once); in the replay search the
// same text runs on concrete choices, which are recorded so that a failure can be replayed.
extern crate std;
#[allow(unused_imports)]
use std::prelude::v1::*;

pub trait Nd {
    fn u8(&mut self) -> u8;
    fn u16(&mut self) -> u16;
    fn u32(&mut self) -> u32;
    fn u64(&mut self) -> u64;
    fn bool(&mut self) -> bool;
    fn assume(&mut self, c: bool);
    /// A value in 0..k.
    fn below(&mut self, k: usize) -> usize;
    /// Unconstrained f32 bit pattern is taken from u32().
    fn class(&mut self) -> RegClass {
        match self.below(3) {
            0 => RegClass::Int,
            1 => RegClass::Float,
            _ => RegClass::Vector,
        }
    }
    fn preg(&mut self) -> PReg {
        let h = self.below(64);
        let c = self.class();
        PReg::new(h, c)
    }
    fn cov(&mut self, id: u32, c: bool);
    /// A container size: 0..=kani_max symbolically, larger in concrete runs.
    fn size(&mut self, kani_max: usize, search_max: usize) -> usize;
    /// True in symbolic runs.
    const SYMBOLIC: bool;
}

#[cfg(kani)]
pub struct K;
#[cfg(kani)]
impl Nd for K {
    fn u8(&mut self) -> u8 { kani::any() }
    fn u16(&mut self) -> u16 { kani::any() }
    fn u32(&mut self) -> u32 { kani::any() }
    fn u64(&mut self) -> u64 { kani::any() }
    fn bool(&mut self) -> bool { kani::any() }
    fn assume(&mut self, c: bool) { kani::assume(c) }
    fn below(&mut self, k: usize) -> usize {
        if k <= 256 {
            let v: u8 = kani::any();
            kani::assume((v as usize) < k);
            v as usize
        } else {
            let v: u64 = kani::any();
            kani::assume((v as usize) < k);
            v as usize
        }
    }
    fn cov(&mut self, _id: u32, _c: bool) {}
    fn size(&mut self, kani_max: usize, _search_max: usize) -> usize { self.below(kani_max + 1) }
    const SYMBOLIC: bool = true;
}

/// Concrete choices: replayed from `script`, then drawn from a seeded generator.
#[cfg(not(kani))]
pub struct S {
    pub script: Vec<u64>,
    pub pos: usize,
    pub log: Vec<(u8, u64)>,
    pub state: u64,
    pub replay_only: bool,
    pub covered: std::collections::BTreeMap<u32, u64>,
    /// Sizes scale: searches start small and grow.
    pub size: usize,
}
#[cfg(not(kani))]
pub struct AssumeFailed;
#[cfg(not(kani))]
impl S {
    pub fn new(seed: u64, script: Vec<u64>, replay_only: bool, size: usize) -> S {
        S { script, pos: 0, log: Vec::new(), state: seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234_5678_9abc_def1, replay_only, covered: Default::default(), size }
    }
    pub fn rng(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn draw(&mut self, width: u8, f: impl FnOnce(&mut S) -> u64) -> u64 {
        let v = if self.pos < self.script.len() {
            let v = self.script[self.pos];
            self.pos += 1;
            v
        } else if self.replay_only {
            0
        } else {
            f(self)
        };
        self.log.push((width, v));
        v
    }
    fn biased(&mut self, bits: u32) -> u64 {
        let m = if bits == 64 { !0 } else { (1u64 << bits) - 1 };
        let r = self.rng();
        let x = self.rng();
        m & match r % 8 {
            0 => x % 4,
            1 => x % 130,
            2 => (1u64 << (x % bits as u64)).wrapping_sub((x >> 32) & 1),
            3 => m - x % 4,
            4 => x & self.rng() & self.rng(),
            5 => x | self.rng() | self.rng(),
            6 => x >> (self.rng() % 64),
            _ => x,
        }
    }
}
#[cfg(not(kani))]
impl Nd for S {
    fn u8(&mut self) -> u8 { self.draw(1, |s| s.biased(8)) as u8 }
    fn u16(&mut self) -> u16 { self.draw(2, |s| s.biased(16)) as u16 }
    fn u32(&mut self) -> u32 { self.draw(4, |s| s.biased(32)) as u32 }
    fn u64(&mut self) -> u64 { self.draw(8, |s| s.biased(64)) }
    fn bool(&mut self) -> bool { self.draw(1, |s| s.rng() & 1) & 1 == 1 }
    fn assume(&mut self, c: bool) {
        if !c {
            std::panic::resume_unwind(Box::new(AssumeFailed));
        }
    }
    fn below(&mut self, k: usize) -> usize {
        let w = if k <= 256 { 1 } else { 8 };
        let v = self.draw(w, |s| {
            let r = s.rng();
            let x = s.rng();
            (match r % 4 {
                0 => (x % 4).min(k as u64 - 1),
                1 => (k as u64 - 1).saturating_sub(x % 3),
                _ => x % k as u64,
            }) as u64
        });
        let ok = (v as usize) < k;
        self.assume(ok);
        v as usize
    }
    fn cov(&mut self, id: u32, c: bool) {
        if c {
            *self.covered.entry(id).or_insert(0) += 1;
        }
    }
    fn size(&mut self, _kani_max: usize, search_max: usize) -> usize {
        let m = search_max.min(self.size);
        let v = self.draw(8, |s| s.rng() % (m as u64 + 1));
        self.assume(v as usize <= search_max);
        v as usize
    }
    const SYMBOLIC: bool = false;
}

//! Choice tape. A run draws every decision from a `Src`. In generation mode the values come from the
//! seeded PRNG and are recorded; in replay mode they come from the recorded tape, and 0 once it ends.
//! By convention 0 is the simplest choice, so dropping or lowering entries simplifies the run.
use crate::rng::Rng;
pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pub tape: Vec<u64>,
    pub spans: Vec<[u32; 2]>,
}
impl Src {
    pub fn generate(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), replay: Vec::new(), tape: Vec::new(), spans: Vec::new() }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { rng: None, replay: tape, tape: Vec::new(), spans: Vec::new() }
    }
    fn raw(&mut self, gen: impl FnOnce(&mut Rng) -> u64, max: u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => gen(r),
            None => self.replay.get(self.tape.len()).copied().unwrap_or(0).min(max),
        };
        if self.tape.len() < crate::shm::TAPE_CAP {
            if crate::shm::ready() {
                // Written through, so that it survives the death of the run.
                let sh = crate::shm::get();
                sh.tape[self.tape.len()] = v;
                sh.tape_len = self.tape.len() as u64 + 1;
                sh.plan_hash = crate::rng::mix(sh.plan_hash ^ v);
            }
            self.tape.push(v);
        }
        v
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        self.raw(|r| r.below(n), n - 1)
    }
    /// Uniform in lo..=hi, lo simplest.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// 0..=max with small values much more likely (log-uniform).
    pub fn small(&mut self, max: u64) -> u64 {
        self.raw(
            |r| {
                let bits = 64 - max.leading_zeros() as u64;
                let b = r.below(bits + 1);
                let v = if b == 0 { 0 } else { (1 << (b - 1)) + r.below(1 << (b - 1)) };
                v.min(max)
            },
            max,
        )
    }
    /// True with probability num/den; false is simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.raw(|r| r.chance(num, den) as u64, 1) == 1
    }
    /// Index by weight; 0 is simplest.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        self.raw(
            |r| {
                let mut x = r.below(total);
                for (i, w) in w.iter().enumerate() {
                    if x < *w {
                        return i as u64;
                    }
                    x -= w;
                }
                0
            },
            w.len() as u64 - 1,
        ) as usize
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len() as u64) as usize;
        &items[i]
    }
    /// Seed for bulk data; 0 is as good as any.
    pub fn seed(&mut self) -> u64 {
        self.raw(|r| r.next() & 0xFFFF_FFFF, u64::MAX)
    }
    /// Groups the draws of `f` so that shrinking can drop them together.
    pub fn span<R>(&mut self, f: impl FnOnce(&mut Src) -> R) -> R {
        let a = self.tape.len() as u32;
        let r = f(self);
        let b = self.tape.len() as u32;
        if b > a && self.spans.len() < crate::shm::SPAN_CAP {
            if crate::shm::ready() {
                let sh = crate::shm::get();
                sh.spans[self.spans.len()] = [a, b];
                sh.span_len = self.spans.len() as u64 + 1;
            }
            self.spans.push([a, b]);
        }
        r
    }
    /// A list of up to `max` items, each its own span introduced by a continue flag.
    pub fn list<R>(&mut self, avg: u64, max: usize, mut f: impl FnMut(&mut Src) -> R) -> Vec<R> {
        let mut v = Vec::new();
        while v.len() < max {
            let item = self.span(|s| if s.chance(avg, avg + 1) { Some(f(s)) } else { None });
            match item {
                Some(x) => v.push(x),
                None => break,
            }
        }
        v
    }
}

//! Choice tape: one seed decides everything; every decision is recorded; replay and shrinking work on the record.
#[derive(Clone)]
pub struct Rng { s: [u64; 4] }
fn splitmix(x: &mut u64) -> u64 { *x = x.wrapping_add(0x9E3779B97F4A7C15); let mut z = *x; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut x = seed; Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] } }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1]; self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3]; self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
}
pub fn mix(a: u64, b: u64) -> u64 { let mut x = a ^ b.wrapping_mul(0xD6E8FEB86659FD93); splitmix(&mut x) ^ splitmix(&mut x).rotate_left(17) }
pub struct Tape { pub rec: Vec<u64>, pos: usize, rng: Option<Rng>, sink: Option<std::fs::File> }
impl Tape {
    pub fn seeded(seed: u64) -> Tape { Tape { rec: vec![], pos: 0, rng: Some(Rng::new(seed)), sink: None } }
    /// replays a record; past its end every choice is 0
    pub fn replay(rec: Vec<u64>) -> Tape { Tape { rec, pos: 0, rng: None, sink: None } }
    /// raw choice in 0..n (n >= 1)
    pub fn below(&mut self, n: u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => { let v = if n == 0 { r.next() } else { ((r.next() as u128 * n as u128) >> 64) as u64 }; self.rec.push(v); if let Some(f) = &mut self.sink { use std::io::Write; let _ = f.write_all(&v.to_le_bytes()); } v }
            None => { let v = self.rec.get(self.pos).copied().unwrap_or(0); if n == 0 { v } else { v % n } }
        };
        self.pos += 1;
        v
    }
    /// writes every choice to a file as it is made, so that the tape survives a crash of the process
    pub fn sink(&mut self, f: &str) { self.sink = std::fs::File::create(f).ok() }
    pub fn used(&self) -> usize { self.pos }
    pub fn u64(&mut self) -> u64 { self.below(0) }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// inclusive range
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.us(b - a + 1) }
    /// true with probability num/den; 0 on the tape means false
    pub fn chance(&mut self, num: u64, den: u64) -> bool { let v = self.below(den); v >= den - num }
    pub fn pick<'a, X>(&mut self, v: &'a [X]) -> &'a X { let i = self.us(v.len()); &v[i] }
    /// index chosen by weight
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let t: u64 = w.iter().sum();
        let mut x = self.below(t.max(1));
        for (i, &k) in w.iter().enumerate() { if x < k { return i; } x -= k; }
        w.len() - 1
    }
}

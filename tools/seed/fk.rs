// Builds FLAC streams bit by bit.
pub struct W { pub b: Vec<u8>, n: u32 }
impl W {
    pub fn new() -> W { W { b: vec![], n: 0 } }
    pub fn bits(&mut self, x: u64, n: u32) {
        for i in (0..n).rev() {
            if self.n % 8 == 0 { self.b.push(0); }
            let l = self.b.len() - 1;
            self.b[l] |= ((x >> i & 1) as u8) << (7 - self.n % 8);
            self.n += 1;
        }
    }
    pub fn int(&mut self, x: i64, n: u32) { self.bits(x as u64 & (!0u64 >> (64 - n)), n) }
    pub fn unary(&mut self, q: u32) { for _ in 0..q { self.bits(0, 1); } self.bits(1, 1); }
    pub fn rice(&mut self, x: i64, k: u32) {
        let z = if x < 0 { (-1 - x) as u64 * 2 + 1 } else { x as u64 * 2 };
        self.unary((z >> k) as u32);
        self.bits(z & ((1 << k) - 1), k);
    }
    pub fn align(&mut self) { while self.n % 8 != 0 { self.bits(0, 1) } }
}
pub fn crc8(d: &[u8]) -> u8 {
    let mut c = 0u8;
    for &x in d { c ^= x; for _ in 0..8 { c = if c & 0x80 != 0 { c << 1 ^ 7 } else { c << 1 } } }
    c
}
pub fn crc16(d: &[u8]) -> u16 {
    let mut c = 0u16;
    for &x in d { c ^= (x as u16) << 8; for _ in 0..8 { c = if c & 0x8000 != 0 { c << 1 ^ 0x8005 } else { c << 1 } } }
    c
}
/// Frame with an 8-bit or 16-bit block size, frame number 0..127.
pub fn frame(chc: u64, bpsc: u64, bs: u64, nr: u64, sub: &dyn Fn(&mut W)) -> Vec<u8> {
    let mut w = W::new();
    w.bits(0xfff8, 16);
    w.bits(if bs <= 256 { 6 } else { 7 }, 4);
    w.bits(9, 4);
    w.bits(chc, 4);
    w.bits(bpsc, 3);
    w.bits(0, 1);
    w.bits(nr, 8);
    w.bits(bs - 1, if bs <= 256 { 8 } else { 16 });
    let c = crc8(&w.b);
    w.bits(c as u64, 8);
    sub(&mut w);
    w.align();
    let c = crc16(&w.b);
    w.bits(c as u64, 16);
    w.b
}
pub fn streaminfo(last: bool, min: u64, max: u64, rate: u64, ch: u64, bps: u64, samples: u64) -> Vec<u8> {
    let mut w = W::new();
    w.bits(if last { 0x80 } else { 0 }, 8);
    w.bits(34, 24);
    w.bits(min, 16);
    w.bits(max, 16);
    w.bits(0, 24);
    w.bits(0, 24);
    w.bits(rate, 20);
    w.bits(ch - 1, 3);
    w.bits(bps - 1, 5);
    w.bits(samples, 36);
    for i in 0..16 { w.bits(i, 8); }
    w.b
}
pub fn block(last: bool, ty: u64, body: &[u8]) -> Vec<u8> {
    let mut w = W::new();
    w.bits(last as u64, 1);
    w.bits(ty, 7);
    w.bits(body.len() as u64, 24);
    w.b.extend_from_slice(body);
    w.b
}
pub fn vorbis(vendor: &[u8], cs: &[&[u8]]) -> Vec<u8> {
    let mut b = vec![];
    let le = |b: &mut Vec<u8>, n: usize| for i in 0..4 { b.push((n >> (8 * i)) as u8) };
    le(&mut b, vendor.len());
    b.extend_from_slice(vendor);
    le(&mut b, cs.len());
    for c in cs { le(&mut b, c.len()); b.extend_from_slice(c); }
    b
}
pub fn flac(parts: &[Vec<u8>]) -> Vec<u8> {
    let mut v = b"fLaC".to_vec();
    for p in parts { v.extend_from_slice(p) }
    v
}
/// A reader which delivers at most n bytes at a time.
pub struct Chunks<'a>(pub &'a [u8], pub usize);
impl<'a> std::io::Read for Chunks<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

//! The container format, independently: a parser, a decoder in double precision, an encoder, and the
//! bit order. Nothing here uses the library.
use crate::model::Cust;

pub struct BitW {
    pub out: Vec<u8>,
    used: u32,
}
impl BitW {
    pub fn new() -> Self {
        BitW { out: Vec::new(), used: 8 }
    }
    /// Most significant bit first.
    pub fn put(&mut self, bits: u32, v: u64) {
        for k in (0..bits).rev() {
            if self.used == 8 {
                self.out.push(0);
                self.used = 0;
            }
            let b = (v >> k & 1) as u8;
            *self.out.last_mut().unwrap() |= b << (7 - self.used);
            self.used += 1;
        }
    }
}
pub struct BitR<'a> {
    d: &'a [u8],
    at: usize,
}
impl<'a> BitR<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        BitR { d, at: 0 }
    }
    pub fn get(&mut self, bits: u32) -> Result<u64, String> {
        let mut v = 0u64;
        for _ in 0..bits {
            let byte = *self.d.get(self.at / 8).ok_or("bit stream ends early")?;
            v = v << 1 | (byte >> (7 - self.at % 8) & 1) as u64;
            self.at += 1;
        }
        Ok(v)
    }
}
#[derive(Clone, Debug)]
pub struct Seg {
    pub ty: u16,
    pub comp: u8,
    pub data: Vec<u8>,
    /// Offset of the segment header and of the data in the file.
    pub at: usize,
    pub data_at: usize,
}
#[derive(Clone, Debug)]
pub struct PMesh {
    pub name: String,
    pub at: usize,
    pub segs: Vec<Seg>,
}
#[derive(Clone, Debug)]
pub struct PFile {
    pub version: [u16; 4],
    pub legacy: bool,
    pub meshes: Vec<PMesh>,
    pub end: usize,
}
struct Cur<'a> {
    d: &'a [u8],
    at: usize,
}
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.d.len() - self.at < n {
            return Err(format!("ends at {} where {} more bytes were expected", self.d.len(), n));
        }
        self.at += n;
        Ok(&self.d[self.at - n..self.at])
    }
    fn u(&mut self, n: usize) -> Result<u64, String> {
        let b = self.take(n)?;
        Ok(b.iter().rev().fold(0, |a, b| a << 8 | *b as u64))
    }
    fn f64(&mut self) -> Result<f64, String> {
        Ok(f64::from_bits(self.u(8)?))
    }
    fn rest(&mut self) -> &'a [u8] {
        let r = &self.d[self.at..];
        self.at = self.d.len();
        r
    }
}
pub fn parse(d: &[u8]) -> Result<PFile, String> {
    let mut c = Cur { d, at: 0 };
    if c.take(3)? != b"TMF" {
        return Err("no TMF magic".into());
    }
    let version = [c.u(2)? as u16, c.u(2)? as u16, c.u(2)? as u16, c.u(2)? as u16];
    let legacy = version[3] <= 1;
    let n = c.u(4)?;
    let mut meshes = Vec::new();
    for _ in 0..n {
        let at = c.at;
        let l = c.u(2)? as usize;
        let name = String::from_utf8(c.take(l)?.to_vec()).map_err(|e| e.to_string())?;
        let segs_n = c.u(2)?;
        let mut segs = Vec::new();
        for _ in 0..segs_n {
            let at = c.at;
            let (ty, len) = if legacy { (c.u(2)? as u16, c.u(8)?) } else { (c.u(1)? as u16, c.u(4)?) };
            let comp = c.u(1)? as u8;
            let data_at = c.at;
            let data = c.take(len as usize)?.to_vec();
            segs.push(Seg { ty, comp, data, at, data_at });
        }
        meshes.push(PMesh { name, at, segs });
    }
    Ok(PFile { version, legacy, meshes, end: c.at })
}
pub const KNOWN: [u16; 13] = [1, 2, 3, 4, 5, 6, 9, 10, 15, 16, 23, 24, 25];

/// What a mesh's segments say, in double precision. Absent arrays stay `None`.
#[derive(Clone, Default, Debug)]
pub struct RefMesh {
    pub v: Option<Vec<[f64; 3]>>,
    /// Largest coordinate range of the vertex segment each vertex came from (for rounding slack).
    pub n: Option<Vec<[f64; 3]>>,
    pub uv: Option<Vec<[f64; 2]>>,
    pub t: Option<Vec<([f64; 3], f64)>>,
    /// Vertex, normal, UV, tangent triangles.
    pub tri: [Option<Vec<u64>>; 4],
    pub custom: Vec<(Vec<u8>, RefCust)>,
}
#[derive(Clone, Debug)]
pub enum RefCust {
    Index(Vec<u64>),
    Int(Vec<u64>),
    Float(Vec<f64>),
    Color(Vec<[f64; 4]>),
}
fn frac(v: u64, bits: u32) -> f64 {
    if bits == 0 {
        return f64::NAN;
    }
    v as f64 / ((1u128 << bits) - 1) as f64
}
fn direction(r: &mut BitR, bits: u32) -> Result<[f64; 3], String> {
    let s = [r.get(1)?, r.get(1)?, r.get(1)?];
    let a = r.get(bits)?;
    let z = r.get(bits)?;
    let (a, z) = if bits == 0 { (0.0, 1.0) } else { (frac(a, bits) * std::f64::consts::FRAC_PI_2, frac(z, bits)) };
    let m = (1.0 - z * z).max(0.0).sqrt();
    let v = if bits == 0 { [1.0, 1.0, 1.0] } else { [a.sin() * m, a.cos() * m, z] };
    Ok([0, 1, 2].map(|k| if s[k] == 1 { -v[k] } else { v[k] }))
}
fn indices(c: &mut Cur, legacy: bool, zero_ignores_min: bool) -> Result<Vec<u64>, String> {
    let bits = c.u(1)? as u32;
    let n = c.u(8)?;
    let min = if legacy { 0 } else { c.u(8)? };
    let mut r = BitR::new(c.rest());
    let mut v = Vec::new();
    for _ in 0..n {
        if bits == 0 && zero_ignores_min {
            v.push(0);
        } else {
            v.push(r.get(bits)? + min);
        }
    }
    Ok(v)
}
fn more<T>(a: &mut Option<Vec<T>>, mut b: Vec<T>) {
    a.get_or_insert_with(Vec::new).append(&mut b);
}
pub fn decode(m: &PMesh, legacy: bool) -> Result<RefMesh, String> {
    let mut o = RefMesh::default();
    for s in &m.segs {
        let mut c = Cur { d: &s.data, at: 0 };
        match s.ty {
            1 => {
                let n = c.u(8)?;
                let b = [c.f64()?, c.f64()?, c.f64()?, c.f64()?, c.f64()?, c.f64()?];
                let p = [c.u(1)? as u32, c.u(1)? as u32, c.u(1)? as u32];
                let mut r = BitR::new(c.rest());
                let mut v = Vec::new();
                for _ in 0..n {
                    let mut x = [0.0; 3];
                    for k in 0..3 {
                        x[k] = frac(r.get(p[k])?, p[k]) * (b[2 * k + 1] - b[2 * k]) + b[2 * k];
                    }
                    v.push(x);
                }
                more(&mut o.v, v);
            }
            3 => {
                let n = c.u(8)?;
                let p = c.u(1)? as u32;
                let mut r = BitR::new(c.rest());
                let mut v = Vec::new();
                for _ in 0..n {
                    v.push(direction(&mut r, p)?);
                }
                more(&mut o.n, v);
            }
            5 => {
                let p = c.u(1)? as u32;
                let n = c.u(8)?;
                let mut r = BitR::new(c.rest());
                let mut v = Vec::new();
                for _ in 0..n {
                    v.push(if p == 0 { [0.0, 0.0] } else { [frac(r.get(p)?, p), frac(r.get(p)?, p)] });
                }
                more(&mut o.uv, v);
            }
            9 => {
                let n = c.u(8)?;
                let p = c.u(1)? as u32;
                let mut r = BitR::new(c.rest());
                let mut v = Vec::new();
                for _ in 0..n {
                    let h = r.get(1)?;
                    v.push((direction(&mut r, p)?, if h == 1 { -1.0 } else { 1.0 }));
                }
                more(&mut o.t, v);
            }
            2 => more(&mut o.tri[0], indices(&mut c, legacy, true)?),
            4 => more(&mut o.tri[1], indices(&mut c, legacy, true)?),
            6 => more(&mut o.tri[2], indices(&mut c, legacy, true)?),
            10 => more(&mut o.tri[3], indices(&mut c, legacy, true)?),
            25 => {
                let mask = c.u(1)?;
                let v = indices(&mut c, legacy, true)?;
                for k in 0..3 {
                    if mask >> k & 1 == 1 {
                        more(&mut o.tri[k], v.clone());
                    }
                }
            }
            15 | 16 | 23 | 24 => {
                let l = c.u(1)? as usize;
                let name = c.take(l)?.to_vec();
                let d = match s.ty {
                    15 => RefCust::Index(indices(&mut c, legacy, false)?),
                    24 => RefCust::Int(indices(&mut c, legacy, false)?),
                    16 => {
                        let n = c.u(8)?;
                        let (min, max) = (c.f64()?, c.f64()?);
                        let p = c.u(1)? as u32;
                        let mut r = BitR::new(c.rest());
                        let mut v = Vec::new();
                        for _ in 0..n {
                            v.push(frac(r.get(p)?, p) * (max - min) + min);
                        }
                        RefCust::Float(v)
                    }
                    _ => {
                        let n = c.u(8)?;
                        let p = c.u(1)? as u32;
                        let mut r = BitR::new(c.rest());
                        let mut v = Vec::new();
                        for _ in 0..n {
                            v.push([frac(r.get(p)?, p), frac(r.get(p)?, p), frac(r.get(p)?, p), frac(r.get(p)?, p)]);
                        }
                        RefCust::Color(v)
                    }
                };
                o.custom.push((name, d));
            }
            _ => {}
        }
    }
    Ok(o)
}
/// A segment's declared element count and width, if it has them: (count, bits per element).
pub fn declared(s: &Seg, legacy: bool) -> Option<(u64, u32)> {
    let mut c = Cur { d: &s.data, at: 0 };
    let r = (|| -> Result<Option<(u64, u32)>, String> {
        Ok(Some(match s.ty {
            1 => {
                let n = c.u(8)?;
                c.take(48)?;
                let p = c.u(1)? + c.u(1)? + c.u(1)?;
                (n, p as u32)
            }
            3 => (c.u(8)?, 3 + 2 * c.u(1)? as u32),
            9 => (c.u(8)?, 4 + 2 * c.u(1)? as u32),
            5 => {
                let p = c.u(1)?;
                (c.u(8)?, 2 * p as u32)
            }
            2 | 4 | 6 | 10 | 25 => {
                if s.ty == 25 {
                    c.u(1)?;
                }
                let p = c.u(1)?;
                (c.u(8)?, p as u32)
            }
            15 | 16 | 23 | 24 => {
                let l = c.u(1)? as usize;
                c.take(l)?;
                match s.ty {
                    15 | 24 => {
                        let p = c.u(1)?;
                        (c.u(8)?, p as u32)
                    }
                    16 => {
                        let n = c.u(8)?;
                        c.take(16)?;
                        (n, c.u(1)? as u32)
                    }
                    _ => {
                        let n = c.u(8)?;
                        (n, 4 * c.u(1)? as u32)
                    }
                }
            }
            _ => return Ok(None),
        }))
    })();
    let _ = legacy;
    r.ok().flatten()
}
/// As `parse`, but of damaged data: as many segments as can be made out.
pub fn parse_lenient(d: &[u8]) -> (Vec<Seg>, bool) {
    let mut c = Cur { d, at: 0 };
    let mut segs = Vec::new();
    let mut legacy = false;
    let _ = (|| -> Result<(), String> {
        c.take(9)?;
        legacy = c.u(2)? <= 1;
        let n = c.u(4)?;
        for _ in 0..n {
            let l = c.u(2)? as usize;
            c.take(l)?;
            let k = c.u(2)?;
            for _ in 0..k {
                let at = c.at;
                let (ty, len) = if legacy { (c.u(2)? as u16, c.u(8)?) } else { (c.u(1)? as u16, c.u(4)?) };
                let comp = c.u(1)? as u8;
                let data_at = c.at;
                let data = c.take(len.min(1 << 40) as usize)?.to_vec();
                segs.push(Seg { ty, comp, data, at, data_at });
            }
        }
        Ok(())
    })();
    (segs, legacy)
}
/// Bytes of a file with the given parts.
pub fn assemble(version: [u16; 4], meshes: &[(Vec<u8>, Vec<(u16, u8, Vec<u8>)>)]) -> Vec<u8> {
    let legacy = version[3] <= 1;
    let mut o = b"TMF".to_vec();
    for v in version {
        o.extend_from_slice(&v.to_le_bytes());
    }
    o.extend_from_slice(&(meshes.len() as u32).to_le_bytes());
    for (name, segs) in meshes {
        o.extend_from_slice(&(name.len() as u16).to_le_bytes());
        o.extend_from_slice(name);
        o.extend_from_slice(&(segs.len() as u16).to_le_bytes());
        for (ty, comp, data) in segs {
            if legacy {
                o.extend_from_slice(&ty.to_le_bytes());
                o.extend_from_slice(&(data.len() as u64).to_le_bytes());
            } else {
                o.push(*ty as u8);
                o.extend_from_slice(&(data.len() as u32).to_le_bytes());
            }
            o.push(*comp);
            o.extend_from_slice(data);
        }
    }
    o
}
pub fn enc_indices(legacy: bool, bits: u32, min: u64, vals: &[u64]) -> Vec<u8> {
    let mut o = vec![bits as u8];
    o.extend_from_slice(&(vals.len() as u64).to_le_bytes());
    if !legacy {
        o.extend_from_slice(&min.to_le_bytes());
    }
    let mut w = BitW::new();
    for v in vals {
        w.put(bits, *v);
    }
    o.extend_from_slice(&w.out);
    o
}
pub fn kind_of(c: &Cust) -> u16 {
    match c {
        Cust::Index(..) => 15,
        Cust::Int(..) => 24,
        Cust::Float(..) => 16,
        Cust::Color(..) => 23,
    }
}

//! Files to load: saved ones, ones made by the reference encoder (current and legacy layout, newer
//! writers, unknown segments), and damaged ones.
use crate::engine::*;
use crate::fmt::{self, BitW};
use crate::load::*;
use crate::model::*;
use simcore::rng::Rng;
use simcore::{log, src::Src};
use std::sync::Arc;

/// A set of meshes and the bytes they are saved as.
pub struct Saved {
    pub specs: Vec<MeshSpec>,
    pub prec: PrecSpec,
    pub meshes: Vec<(tmf::TMFMesh, String)>,
    pub bytes: Arc<Vec<u8>>,
}
pub fn gen_saved(s: &mut Src, g: &Gen, max: usize) -> Saved {
    s.span(|s| {
        let specs = gen_set(s, g, max);
        let prec = PrecSpec::draw(s);
        let meshes = build_all(&specs);
        let bytes = must_save(&meshes, &prec, "a valid set of meshes");
        log!("file of {} bytes", bytes.len());
        Saved { specs, prec, meshes, bytes }
    })
}
pub type RawSeg = (u16, u8, Vec<u8>);
pub struct RawFile {
    pub version: [u16; 4],
    pub meshes: Vec<(Vec<u8>, Vec<RawSeg>)>,
}
impl RawFile {
    pub fn bytes(&self) -> Vec<u8> {
        fmt::assemble(self.version, &self.meshes)
    }
}
fn bits_array(r: &mut Rng, w: &mut BitW, widths: &[u32]) {
    for b in widths {
        let edge = r.below(8);
        let v = match edge {
            0 => 0,
            1 => u64::MAX,
            _ => r.next(),
        };
        w.put(*b, if *b == 0 { 0 } else { v & (u64::MAX >> (64 - *b)) });
    }
}
fn gen_index_seg(s: &mut Src, legacy: bool, n: usize, custom: bool) -> Vec<u8> {
    let mut bits = match s.weighted(&[6, 2, 1, 1]) {
        0 => s.range(1, 12) as u32,
        1 => s.range(13, 32) as u32,
        2 => s.range(33, 63) as u32,
        _ => 0,
    };
    if n == 0 && custom && bits == 0 {
        bits = 1;
    }
    let room = if bits >= 32 { 0 } else { u32::MAX as u64 - ((1u64 << bits) - 1) };
    let min = match s.weighted(&[3, 1]) {
        0 => s.small(1000).min(room),
        _ => s.small(room.max(1)).min(room),
    };
    let mut r = Rng::new(s.seed());
    let cap = if bits == 0 { 0 } else { (u64::MAX >> (64 - bits)).min(u32::MAX as u64) };
    let vals: Vec<u64> = (0..n).map(|_| if cap == 0 { 0 } else { r.next() % (cap + 1) }).collect();
    fmt::enc_indices(legacy, bits, min, &vals)
}
fn count(s: &mut Src, size: u64) -> usize {
    s.small(size) as usize
}
/// One segment of the reference encoder's. `i` makes custom names unique.
fn gen_seg(s: &mut Src, legacy: bool, size: u64, i: usize) -> RawSeg {
    s.span(|s| {
        let ty = *s.pick(&[1, 1, 2, 2, 3, 4, 5, 6, 9, 10, 25, 15, 24, 16, 23, 0]);
        let n = count(s, size);
        let mut o = Vec::new();
        let seed = s.seed();
        let mut r = Rng::new(seed);
        let width = |s: &mut Src, max: u64| match s.weighted(&[6, 2]) {
            0 => s.range(1, 16.min(max)) as u32,
            _ => s.range(1, max) as u32,
        };
        match ty {
            1 => {
                o.extend_from_slice(&(n as u64).to_le_bytes());
                let scale = *s.pick(&[1.0, 100.0, 0.01, 1e6]);
                for _ in 0..3 {
                    let a = (r.f64() - 0.5) * scale;
                    let b = a + r.f64() * scale;
                    o.extend_from_slice(&a.to_le_bytes());
                    o.extend_from_slice(&b.to_le_bytes());
                }
                let p = [width(s, 63), width(s, 63), width(s, 63)];
                o.extend(p.map(|b| b as u8));
                let mut w = BitW::new();
                for _ in 0..n {
                    bits_array(&mut r, &mut w, &p);
                }
                o.extend(w.out);
            }
            3 | 9 => {
                o.extend_from_slice(&(n as u64).to_le_bytes());
                let p = width(s, 40);
                o.push(p as u8);
                let mut w = BitW::new();
                let all: &[u32] = if ty == 3 { &[1, 1, 1, p, p] } else { &[1, 1, 1, 1, p, p] };
                for _ in 0..n {
                    bits_array(&mut r, &mut w, all);
                }
                o.extend(w.out);
            }
            5 => {
                let p = width(s, 63);
                o.push(p as u8);
                o.extend_from_slice(&(n as u64).to_le_bytes());
                let mut w = BitW::new();
                for _ in 0..n {
                    bits_array(&mut r, &mut w, &[p, p]);
                }
                o.extend(w.out);
            }
            2 | 4 | 6 | 10 => o = gen_index_seg(s, legacy, n, false),
            25 => {
                o.push(s.below(8) as u8);
                o.extend(gen_index_seg(s, legacy, n, false));
            }
            15 | 24 | 16 | 23 => {
                let name = match s.below(3) {
                    0 => format!("c{i}"),
                    1 => format!("ż{i}"),
                    _ => format!("{i}{}", "x".repeat(s.range(1, 250) as usize)),
                };
                o.push(name.len() as u8);
                o.extend(name.as_bytes());
                match ty {
                    15 | 24 => o.extend(gen_index_seg(s, legacy, n, true)),
                    16 => {
                        o.extend_from_slice(&(n as u64).to_le_bytes());
                        let a = (r.f64() - 0.5) * 100.0;
                        let b = a + 0.1 + r.f64() * 100.0;
                        o.extend_from_slice(&a.to_le_bytes());
                        o.extend_from_slice(&b.to_le_bytes());
                        let p = width(s, 63);
                        o.push(p as u8);
                        let mut w = BitW::new();
                        for _ in 0..n {
                            bits_array(&mut r, &mut w, &[p]);
                        }
                        o.extend(w.out);
                    }
                    _ => {
                        o.extend_from_slice(&(n as u64).to_le_bytes());
                        let p = width(s, 63);
                        o.push(p as u8);
                        let mut w = BitW::new();
                        for _ in 0..n {
                            bits_array(&mut r, &mut w, &[p, p, p, p]);
                        }
                        o.extend(w.out);
                    }
                }
            }
            _ => {
                // A type this reader does not know; it may come with any compression it does know.
                cnt("unknown_segments");
                let ty = loop {
                    let t = if legacy && s.chance(1, 2) { s.range(256, 65535) as u16 } else { s.below(256) as u16 };
                    if !fmt::KNOWN.contains(&t) {
                        break t;
                    }
                    if s.tape.len() > simcore::shm::TAPE_CAP - 10 {
                        break 77;
                    }
                };
                let ty = if fmt::KNOWN.contains(&ty) { 77 } else { ty };
                let len = if s.chance(1, 12) { s.range(4000, 70_000) } else { s.small(300) } as usize;
                for _ in 0..len {
                    o.push(r.next() as u8);
                }
                let comp = *s.pick(&[0, 1, 2, 255]);
                return (ty, comp, o);
            }
        }
        // Bytes after the packed values belong to nobody and are skipped with the segment.
        if s.chance(1, 8) {
            o.extend(vec![0xEE; s.range(1, 9) as usize]);
        }
        (ty, 0, o)
    })
}
pub fn gen_raw(s: &mut Src, size: u64) -> RawFile {
    s.span(|s| {
        let legacy = s.chance(1, 2);
        let version = if legacy {
            cnt("legacy_files");
            [0, s.below(2) as u16, 0, s.below(2) as u16]
        } else if s.chance(1, 2) {
            cnt("newer_files");
            [s.below(3) as u16, s.below(70) as u16, 0, 2]
        } else {
            [0, 2, 0, 2]
        };
        let n = s.small(3) as usize;
        let n = if s.chance(9, 10) { n.max(1) } else { n };
        let mut meshes = Vec::new();
        for k in 0..n {
            meshes.push(s.span(|s| {
                let name = gen_name(s, false);
                let mut i = 0;
                let mut segs = s.list(5, 24, |s| {
                    i += 1;
                    gen_seg(s, legacy, size, i)
                });
                // Now and then many more of those which may be repeated.
                let again: Vec<_> = segs.iter().filter(|g| !matches!(g.0, 15 | 16 | 23 | 24) && g.2.len() < 200).cloned().collect();
                if !again.is_empty() && s.chance(1, 25) {
                    let n = if s.chance(1, 3) { s.range(200, 600) } else { s.range(10, 80) };
                    let mut r = Rng::new(s.seed());
                    for _ in 0..n {
                        segs.push(again[r.below(again.len() as u64) as usize].clone());
                    }
                }
                cntn("segments", segs.len() as u64);
                log!("raw mesh {k} {name:?}: segments {:?}", segs.iter().map(|g| (g.0, g.2.len())).collect::<Vec<_>>());
                (name.into_bytes(), segs)
            }));
        }
        cntn("meshes", n as u64);
        log!("file version {version:?}");
        RawFile { version, meshes }
    })
}
/// The file with one packed value, or one letter of a name, changed; it stays well-formed.
pub fn near_file(s: &mut Src, bytes: &[u8]) -> Vec<u8> {
    s.span(|s| {
        let (segs, legacy) = fmt::parse_lenient(bytes);
        let mut d = bytes.to_vec();
        for _ in 0..6 {
            if segs.is_empty() {
                break;
            }
            let g = &segs[s.below(segs.len() as u64) as usize];
            let head = match g.ty {
                1 => 59,
                3 | 5 | 9 => 9,
                2 | 4 | 6 | 10 if g.data[0] < 32 => if legacy { 9 } else { 17 },
                25 if g.data[1] < 32 => if legacy { 10 } else { 18 },
                _ => continue,
            };
            // Not the last byte: its upper bits belong to no value.
            let body = g.data.len().saturating_sub(head);
            if body < 2 {
                continue;
            }
            let i = if s.chance(1, 2) { body / 2 } else { s.below(body as u64 - 1) as usize };
            let bit = s.below(8);
            d[g.data_at + head + i] ^= 1 << bit;
            cnt("near_files");
            log!("near file: bit {bit} of byte {i} of the values of a segment of type {} flipped", g.ty);
            return d;
        }
        d
    })
}
/// Some loadable file.
pub fn gen_file(s: &mut Src, g: &Gen, max: usize) -> Arc<Vec<u8>> {
    if s.chance(1, 3) {
        Arc::new(gen_raw(s, g.size * 2).bytes())
    } else {
        gen_saved(s, g, max).bytes
    }
}
/// As `gen_file`, damaged now and then.
pub fn gen_any_file(s: &mut Src, g: &Gen, max: usize) -> Arc<Vec<u8>> {
    gen_maybe_damaged(s, g, max).0
}
/// And whether it is damaged.
pub fn gen_maybe_damaged(s: &mut Src, g: &Gen, max: usize) -> (Arc<Vec<u8>>, bool) {
    let f = gen_file(s, g, max);
    if s.chance(1, 3) {
        let mut d = (*f).clone();
        damage(s, &mut d);
        if !absurd(&d) {
            return (Arc::new(d), true);
        }
    }
    (f, false)
}
/// Declares a zero-width array of many millions of elements (see C08's exception).
pub fn absurd(d: &[u8]) -> bool {
    zero_width(d).is_none()
}
/// Number of elements of zero-width arrays a file declares; None if they are too many to try.
pub fn zero_width(d: &[u8]) -> Option<u64> {
    let (segs, legacy) = fmt::parse_lenient(d);
    let mut total = 0u64;
    for s in &segs {
        if let Some((n, 0)) = fmt::declared(s, legacy) {
            if n > 1 << 31 {
                continue; // Refused.
            }
            if n > 1 << 16 {
                return None;
            }
            total += n;
        }
    }
    if total > 1 << 18 {
        return None;
    }
    Some(total)
}
/// Places of a file with a meaning: (offset, width).
fn fields(d: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![(0, 3), (3, 2), (5, 2), (7, 2), (9, 2), (11, 4), (15, 2)];
    let (segs, legacy) = fmt::parse_lenient(d);
    for g in &segs {
        let h: &[(usize, usize)] = if legacy { &[(0, 2), (2, 8), (10, 1)] } else { &[(0, 1), (1, 4), (5, 1)] };
        v.extend(h.iter().map(|(o, w)| (g.at + o, *w)));
        if g.at >= 2 {
            v.push((g.at - 2, 2)); // The segment count, if this is the first one.
        }
        let b = g.data_at;
        match g.ty {
            1 => v.extend([(b, 8), (b + 8, 8), (b + 16, 8), (b + 24, 8), (b + 56, 1), (b + 57, 1), (b + 58, 1)]),
            3 | 9 => v.extend([(b, 8), (b + 8, 1)]),
            5 | 2 | 4 | 6 | 10 => v.extend([(b, 1), (b + 1, 8), (b + 9, 8)]),
            25 => v.extend([(b, 1), (b + 1, 1), (b + 2, 8), (b + 10, 8)]),
            15 | 16 | 23 | 24 => {
                let l = g.data.first().copied().unwrap_or(0) as usize + 1;
                v.push((b, 1));
                match g.ty {
                    15 | 24 => v.extend([(b + l, 1), (b + l + 1, 8), (b + l + 9, 8)]),
                    16 => v.extend([(b + l, 8), (b + l + 8, 8), (b + l + 16, 8), (b + l + 24, 1)]),
                    _ => v.extend([(b + l, 8), (b + l + 8, 1)]),
                }
            }
            _ => {}
        }
        v.push((g.data_at + g.data.len(), 1));
    }
    v.retain(|(o, w)| o + w <= d.len());
    v
}
/// One to four injuries.
pub fn damage(s: &mut Src, d: &mut Vec<u8>) {
    for _ in 0..1 + s.weighted(&[5, 3, 1, 1]) {
        s.span(|s| damage_once(s, d));
    }
}
fn damage_once(s: &mut Src, d: &mut Vec<u8>) {
    if d.is_empty() {
        return;
    }
    let len = d.len() as u64;
    let piece = |s: &mut Src| {
        let a = s.below(len) as usize;
        let n = (1 + s.small(200.min(len))) as usize;
        (a, (a + n).min(len as usize))
    };
    match s.weighted(&[2, 2, 2, 2, 2, 2, 8, 2]) {
        0 => {
            let i = s.below(len) as usize;
            let b = s.below(8);
            d[i] ^= 1 << b;
            cnt("damage_bitflip");
            log!("damage: bit {b} of byte {i} flipped");
        }
        1 => {
            let (a, b) = piece(s);
            let mut r = Rng::new(s.seed());
            let fill = s.below(3);
            for x in &mut d[a..b] {
                *x = [0, 0xFF, r.next() as u8][fill as usize];
            }
            cnt("damage_overwrite");
            log!("damage: bytes {a}..{b} overwritten");
        }
        2 => {
            let (a, b) = piece(s);
            d.drain(a..b);
            cnt("damage_drop");
            log!("damage: bytes {a}..{b} lost");
        }
        3 => {
            let (a, b) = piece(s);
            let p = d[a..b].to_vec();
            d.splice(b..b, p);
            cnt("damage_dup");
            log!("damage: bytes {a}..{b} doubled");
        }
        4 => {
            let (a, b) = piece(s);
            let p: Vec<u8> = d.drain(a..b).collect();
            let to = s.below(d.len() as u64 + 1) as usize;
            d.splice(to..to, p);
            cnt("damage_move");
            log!("damage: bytes {a}..{b} moved to {to}");
        }
        5 => {
            let n = s.below(len) as usize;
            d.truncate(n);
            cnt("damage_truncate");
            log!("damage: cut to {n} bytes");
        }
        6 => {
            let f = fields(d);
            if f.is_empty() {
                return;
            }
            let (at, w) = f[s.below(f.len() as u64) as usize];
            let mut old = [0; 8];
            old[..w].copy_from_slice(&d[at..at + w]);
            let old = u64::from_le_bytes(old);
            let style = s.below(8);
            let arg = s.small(1 << 16);
            let new = match style {
                0 => old ^ (1 << s.below(w as u64 * 8)),
                1 => old.wrapping_add(1 + arg % 4),
                2 => old.wrapping_sub(1 + arg % 4),
                3 => arg,
                4 => *s.pick(&[0, 1, 0xFF, 0xFFFF, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFF_FFFF]),
                5 => *s.pick(&[u64::MAX, i64::MAX as u64, 1 << 63, f64::NAN.to_bits(), f64::INFINITY.to_bits(), f64::MAX.to_bits(), 1 << 32, 1 << 40]),
                6 => *s.pick(&[63, 64, 65, 127, 128, 254, 255, 2, 3, 25, 15, 16, 23, 24]),
                _ => old.wrapping_mul(2),
            };
            d[at..at + w].copy_from_slice(&new.to_le_bytes()[..w]);
            cnt("damage_field");
            log!("damage: field of {w} bytes at {at} changed from {old:#x} to {new:#x}");
        }
        _ => {
            let at = s.below(len + 1) as usize;
            let n = 1 + s.small(100) as usize;
            let mut r = Rng::new(s.seed());
            let p: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            d.splice(at..at, p);
            cnt("damage_insert");
            log!("damage: {n} bytes inserted at {at}");
        }
    }
}

//! The .obj text, independently of the library: a generator that knows what its text says, a reader, and
//! damage.
use crate::engine::*;
use crate::model::*;
use simcore::rng::Rng;
use simcore::{log, src::Src};

/// Position, UV and normal of a face corner, as bits; UV may be left out.
pub type Corner = ([u32; 3], Option<[u32; 2]>, [u32; 3]);
#[derive(Clone, Default, Debug)]
pub struct Object {
    pub name: String,
    pub faces: Vec<Vec<Corner>>,
}
pub struct Text {
    pub text: Vec<u8>,
    pub objects: Vec<Object>,
}
fn number(s: &mut Rng) -> String {
    let a = s.below(2_000_001) as f64 / 1e6 - 1.0;
    match s.below(14) {
        9 => format!("+{:.4}", a.abs()),
        10 => format!("{:.3}", a.abs()).trim_start_matches('0').to_string(),
        11 => format!("{}.", s.below(1000)),
        12 => format!("{}E{}{:02}", s.below(1000) as f64 / 10.0, ["", "+", "-"][s.below(3) as usize], s.below(25)),
        13 => {
            // Half way between two representable numbers, or just off it.
            let x = f32::from_bits((s.below(1 << 23) | 120 << 23 | s.below(16) << 23) as u32) as f64;
            let half = x + (f32::from_bits((x as f32).to_bits() + 1) as f64 - x) / 2.0;
            let t = format!("{half:.50}");
            match s.below(3) {
                0 => t,
                1 => t + "1",
                _ => {
                    let t = t.trim_end_matches('0');
                    let last = (t.as_bytes()[t.len() - 1] - 1) as char;
                    format!("{}{last}99999", &t[..t.len() - 1])
                }
            }
        }
        0 => format!("{}", s.below(100)),
        1 => format!("-{}", s.below(100)),
        2 => format!("{:.6}", a),
        3 => format!("{:.2}", a * 100.0),
        4 => format!("{:e}", a as f32),
        5 => format!("{}", (a * 1e6) as f32),
        6 => format!("{}", a * 1e-7),
        7 => format!("{:.15}", a),
        _ => "0".into(),
    }
}
fn bits(t: &str) -> u32 {
    t.parse::<f32>().expect("a number").to_bits()
}
/// Any of `from..to`, in a long list often one near its end.
fn late_one(r: &mut Rng, from: u64, to: u64) -> u64 {
    let from = if to > 60_000 && r.chance(1, 2) { from.max(to - 200) } else { from };
    from + r.below(to - from)
}
/// `polygons`: also faces of more than three corners.
pub fn gen_text(s: &mut Src, size: u64, polygons: bool) -> Text {
    s.span(|s| {
        let eol = if s.chance(1, 4) { "\r\n" } else { "\n" };
        let mut t = String::new();
        let mut objects = Vec::new();
        let (mut v, mut n, mut uv): (Vec<[u32; 3]>, Vec<[u32; 3]>, Vec<[u32; 2]>) = (vec![], vec![], vec![]);
        if s.chance(1, 2) {
            t += "# Blender v2.79 OBJ File: 'ż'";
            t += eol;
            t += "mtllib a.mtl";
            t += eol;
        }
        // Now and then a long list of objects.
        let long = s.chance(1, 150);
        let count = if long { s.range(20, 270) } else { 1 + s.small(4) } as usize;
        let size = if long { 3 } else { size };
        // More of something than 16 bits count.
        let many = if size >= 80 && s.chance(1, 100) { 1 + s.below(7) } else { 0 };
        for k in 0..count {
            let mut o = Object::default();
            s.span(|s| {
                // Faces before any `o` line belong to a nameless object.
                let named = k > 0 || !s.chance(1, 8);
                let late = named && k == 0 && s.chance(1, 6);
                if named {
                    o.name = match s.weighted(&[6, 1, 1, 1]) {
                        0 => format!("obj{}", s.below(100)),
                        1 => ["Zażółć", "日本", "\u{1F600}", "a.b-c_d", "x\t", "\u{a0}y", "e\u{301}", "#1"][s.below(8) as usize].to_string(),
                        2 => "n".repeat(if s.chance(1, 4) { s.range(7000, 20000) } else { s.range(1, 3000) } as usize),
                        _ => String::new(),
                    };
                }
                if named && !late {
                    t += &format!("o {}{eol}", o.name);
                }
                let mut r = Rng::new(s.seed());
                let nv = s.small(size);
                let (nn, nu) = (s.small(size), s.small(size));
                let extra = s.chance(1, 6);
                // Order of the blocks: the usual one, or interleaved.
                let mix = s.chance(1, 4);
                let mut todo = vec![];
                for _ in 0..nv {
                    todo.push(0);
                }
                for _ in 0..nn {
                    todo.push(1);
                }
                for _ in 0..nu {
                    todo.push(2);
                }
                if mix {
                    for i in (1..todo.len()).rev() {
                        let j = r.below(i as u64 + 1) as usize;
                        todo.swap(i, j);
                    }
                }
                if k == 0 {
                    // Enough to speak of.
                    todo.splice(0..0, [0, 1, 2]);
                    for what in (0..3).filter(|w| many >> w & 1 == 1) {
                        cnt("huge_texts");
                        for i in 0..65_500 + r.below(6000) {
                            let a = [format!("{i}"), format!("{}.5", i % 97)];
                            let b = [bits(&a[0]), bits(&a[1])];
                            match what {
                                0 => v.push([b[0], b[1], 0]),
                                1 => n.push([b[1], b[0], 0]),
                                _ => uv.push(b),
                            }
                            t += &match what {
                                0 => format!("v {} {} 0{eol}", a[0], a[1]),
                                1 => format!("vn {} {} 0{eol}", a[1], a[0]),
                                _ => format!("vt {} {}{eol}", a[0], a[1]),
                            };
                        }
                    }
                }
                for what in todo {
                    match what {
                        0 | 1 => {
                            let a = [number(&mut r), number(&mut r), number(&mut r)];
                            let b = [bits(&a[0]), bits(&a[1]), bits(&a[2])];
                            t += &format!("{} {} {} {}", if what == 0 { "v" } else { "vn" }, a[0], a[1], a[2]);
                            if what == 0 {
                                if extra {
                                    t += " 1.0";
                                }
                                v.push(b);
                            } else {
                                n.push(b);
                            }
                        }
                        _ => {
                            let a = [number(&mut r), number(&mut r)];
                            t += &format!("vt {} {}", a[0], a[1]);
                            if extra {
                                t += " 0";
                            }
                            uv.push([bits(&a[0]), bits(&a[1])]);
                        }
                    }
                    t += eol;
                }
                if late {
                    t += &format!("o {}{eol}", o.name);
                }
                let last = k + 1 == count;
                let nf = if last && s.chance(1, 6) { 0 } else { 1 + s.small(size * 2) };
                let local = s.chance(1, 2);
                let (v0, n0, u0) = if local { (v.len() as u64 - (nv + 1).min(v.len() as u64), 0, 0) } else { (0, 0, 0) };
                let v0 = if v0 >= v.len() as u64 { 0 } else { v0 };
                let no_uv = s.chance(1, 8);
                // Faces of many corners.
                let round = polygons && s.chance(1, 10);
                for _ in 0..nf {
                    if r.chance(1, 20) {
                        t += ["s off", "usemtl m", "g grp", "", "# 1/2/3 note", "l 1 2", "vp 1 2", "#f 1/1/1 1/1/1 1/1/1", " ", "vertex 1 2 3", "fo 1/1/1", "# ż\u{1F600}"][r.below(12) as usize];
                        if r.chance(1, 12) {
                            t += " # ";
                            t += &"long ".repeat(r.below(4000) as usize);
                        }
                        t += eol;
                    }
                    let c = match r.below(8) {
                        0 if round => {
                            let more = if r.chance(1, 8) { 300 } else { 50 };
                            10 + r.below(more)
                        }
                        0 | 1 if polygons => 4 + r.below(6),
                        _ => 3,
                    };
                    let mut f = Vec::new();
                    let mut used = Vec::new();
                    t += "f";
                    for _ in 0..c {
                        let mut iv = late_one(&mut r, v0, v.len() as u64);
                        // Polygons have distinct corners if there are enough vertices.
                        for _ in 0..40 {
                            if c == 3 || !used.contains(&iv) {
                                break;
                            }
                            iv = v0 + r.below(v.len() as u64 - v0);
                        }
                        used.push(iv);
                        let i_n = late_one(&mut r, n0, n.len() as u64);
                        let iu = late_one(&mut r, u0, uv.len() as u64);
                        if no_uv {
                            t += &format!(" {}//{}", iv + 1, i_n + 1);
                        } else {
                            t += &format!(" {}/{}/{}", iv + 1, iu + 1, i_n + 1);
                        }
                        f.push((v[iv as usize], if no_uv { None } else { Some(uv[iu as usize]) }, n[i_n as usize]));
                    }
                    t += eol;
                    o.faces.push(f);
                }
            });
            log!("object {:?}: {} faces", o.name.chars().take(20).collect::<String>(), o.faces.len());
            objects.push(o);
        }
        let mut text = t.into_bytes();
        if s.chance(1, 3) {
            // No line end at the end.
            while matches!(text.last(), Some(b'\n' | b'\r')) {
                text.pop();
            }
        }
        log!("text of {} bytes", text.len());
        Text { text, objects }
    })
}
/// The imported meshes are what the text says.
pub fn check_import(want: &[Object], got: &[(tmf::TMFMesh, String)]) {
    if want.len() != got.len() {
        fail("objects", format!("{} objects in the text, {} imported", want.len(), got.len()));
    }
    for (k, (o, (m, name))) in want.iter().zip(got).enumerate() {
        if o.name != *name {
            fail("object_name", format!("object {k} is called {:?}, imported as {name:?}", o.name));
        }
        let spec = MeshSpec::from_lib(m, name);
        let empty = Vec::new();
        let tri = |i: usize| spec.tri[i].as_ref().unwrap_or(&empty);
        let len = tri(0).len();
        let want_len: usize = o.faces.iter().map(|f| (f.len() - 2) * 3).sum();
        if len != want_len {
            fail("corners", format!("object {k}: {want_len} triangle corners expected, {len} imported"));
        }
        if tri(1).len() != len || (tri(2).len() != len && o.faces.iter().flatten().any(|c| c.1.is_some())) {
            fail("corners", format!("object {k}: {len} vertex, {} normal and {} UV indices", tri(1).len(), tri(2).len()));
        }
        let corner = |i: usize, with_uv: bool| -> Result<Corner, String> {
            let at = |a: Option<&[u32]>, i: usize| a.and_then(|a| a.get(i).copied()).unwrap_or(0) as usize;
            let p = spec.v.as_ref().and_then(|v| v.get(at(spec.tri[0].as_deref(), i))).ok_or("vertex index out of range")?;
            let n = spec.n.as_ref().and_then(|v| v.get(at(spec.tri[1].as_deref(), i))).ok_or("normal index out of range")?;
            let u = if with_uv {
                let u = spec.uv.as_ref().and_then(|v| v.get(at(spec.tri[2].as_deref(), i))).ok_or("UV index out of range")?;
                Some(u.map(|x| x.to_bits()))
            } else {
                None
            };
            Ok((p.map(|x| x.to_bits()), u, n.map(|x| x.to_bits())))
        };
        let mut i = 0;
        for (fi, f) in o.faces.iter().enumerate() {
            let uv = f[0].1.is_some();
            let mut have = Vec::new();
            for _ in 0..(f.len() - 2) * 3 {
                match corner(i, uv) {
                    Ok(c) => have.push(c),
                    Err(e) => fail("corner", format!("object {k} face {fi}: {e}")),
                }
                i += 1;
            }
            cntn("corners", have.len() as u64);
            if f.len() == 3 {
                if have != *f {
                    fail("corner", format!("object {k} face {fi}: the text says {}, imported {}", show(f), show(&have)));
                }
                continue;
            }
            // A polygon: as triangles that use its corners, all of them, in its direction.
            if let Some(c) = have.iter().find(|c| !f.contains(c)) {
                fail("corner", format!("object {k} face {fi}: imported corner {} is not one of {}", show(std::slice::from_ref(c)), show(f)));
            }
            if let Some(c) = f.iter().find(|c| !have.contains(c)) {
                fail("corner_lost", format!("object {k} face {fi}: corner {} is in no triangle: {}", show(std::slice::from_ref(c)), show(&have)));
            }
            let distinct = (0..f.len()).all(|a| (0..a).all(|b| f[a] != f[b]));
            if distinct {
                for t in have.chunks(3) {
                    let p: Vec<usize> = t.iter().map(|c| f.iter().position(|d| d == c).unwrap()).collect();
                    let turn = |a: usize, b: usize| (b + f.len() - a) % f.len();
                    if turn(p[0], p[1]) == 0 || turn(p[1], p[2]) == 0 || turn(p[2], p[0]) == 0 || turn(p[0], p[1]) + turn(p[1], p[2]) + turn(p[2], p[0]) != f.len() {
                        fail("triangle", format!("object {k} face {fi}: a face of {} corners got the triangle {p:?}", f.len()));
                    }
                }
            }
        }
    }
}
fn show(c: &[Corner]) -> String {
    c.iter()
        .take(9)
        .map(|c| {
            let f = |x: &u32| f32::from_bits(*x);
            format!("({:?} {:?} {:?})", c.0.iter().map(f).collect::<Vec<_>>(), c.1.map(|u| [f(&u[0]), f(&u[1])]), c.2.iter().map(f).collect::<Vec<_>>())
        })
        .collect::<Vec<_>>()
        .join(" ")
}
/// One to four injuries to a text.
pub fn damage(s: &mut Src, d: &mut Vec<u8>) {
    for _ in 0..1 + s.weighted(&[5, 3, 1, 1]) {
        s.span(|s| {
            if d.is_empty() {
                return;
            }
            cnt("text_damage");
            let len = d.len() as u64;
            let a = s.below(len) as usize;
            let b = (a + 1 + s.small(100.min(len)) as usize).min(d.len());
            match s.weighted(&[2, 2, 2, 2, 4, 2]) {
                0 => d[a] ^= 1 << s.below(8),
                1 => {
                    d.drain(a..b);
                }
                2 => {
                    let p = d[a..b].to_vec();
                    d.splice(b..b, p);
                }
                3 => d.truncate(a),
                4 => {
                    // Something inserted at the next blank, slash or line end.
                    let at = (a..d.len()).find(|i| matches!(d[*i], b' ' | b'/' | b'\n')).unwrap_or(a);
                    let p: &[u8] = *s.pick::<&[u8]>(&[
                        b"/", b" ", b"//", b"\n", b"\r", b"0", b"-1", b"4294967296", b"99999999999999999999", b"4294967295", b"nan", b"inf", b"-", b"e", b"1e999", b"\0",
                        b"\xff", b"\nf 1/1/1", b"\nf 1/1/1 2/2/2", b"\nf", b"\nv", b"\no", b"\nf 1/1/1 1/1/1 1/1/1 1/1/1", b"\nf 900/1/1 1/1/1 1/1/1 1/1/1", b"\nf 900/1/1 901/1/1 902/1/1",
                        b"\nf 1 2 3", b"\nf 1/2 2/3 3/4", b"\nf 0/0/0 0/0/0 0/0/0", b" 4294967295/4294967295/4294967295", b"\nv nan inf -inf",
                    ]);
                    d.splice(at..at, p.iter().copied());
                }
                _ => {
                    let p: Vec<u8> = d.drain(a..b).collect();
                    let to = s.below(d.len() as u64 + 1) as usize;
                    d.splice(to..to, p);
                }
            }
        });
    }
}
/// One object of a text being read back.
#[derive(Default, Debug)]
pub struct ReadObject {
    pub name: String,
    pub v: Vec<[u32; 3]>,
    pub n: Vec<[u32; 3]>,
    pub uv: Vec<[u32; 2]>,
    /// Zero-based indices over the whole text: vertex, UV, normal.
    pub corners: Vec<(usize, Option<usize>, Option<usize>)>,
    pub face_sizes: Vec<usize>,
}
/// Reads a whole exported text.
pub fn read(text: &[u8]) -> Result<Vec<ReadObject>, String> {
    let t = std::str::from_utf8(text).map_err(|e| e.to_string())?;
    if !t.is_empty() && !t.ends_with('\n') {
        return Err("the last line has no end".into());
    }
    let mut out: Vec<ReadObject> = Vec::new();
    for (ln, line) in t.lines().enumerate() {
        let bad = |w: &str| format!("line {}: {w}: {:?}", ln + 1, line.chars().take(80).collect::<String>());
        let (key, rest) = line.split_once(' ').unwrap_or((line, ""));
        if key == "o" {
            out.push(ReadObject { name: rest.to_string(), ..Default::default() });
            continue;
        }
        if matches!(key, "v" | "vn" | "vt" | "f") {
            let o = out.last_mut().ok_or_else(|| bad("before any object"))?;
            let w: Vec<&str> = rest.split_ascii_whitespace().collect();
            if key == "f" {
                for c in &w {
                    let p: Vec<&str> = c.split('/').collect();
                    let idx = |t: &str| -> Result<usize, String> {
                        let i: u64 = t.parse().map_err(|_| bad("no index"))?;
                        if i == 0 {
                            return Err(bad("index 0"));
                        }
                        Ok(i as usize - 1)
                    };
                    let opt = |k: usize| -> Result<Option<usize>, String> {
                        match p.get(k) {
                            None => Ok(None),
                            Some(t) if t.is_empty() => Ok(None),
                            Some(t) => Ok(Some(idx(t)?)),
                        }
                    };
                    o.corners.push((idx(p[0])?, opt(1)?, opt(2)?));
                }
                o.face_sizes.push(w.len());
                continue;
            }
            let mut f = Vec::new();
            for x in &w {
                f.push(x.parse::<f32>().map_err(|_| bad("no number"))?.to_bits());
            }
            let need = if key == "vt" { 2 } else { 3 };
            if f.len() != need {
                return Err(bad("wrong number of coordinates"));
            }
            match key {
                "v" => o.v.push([f[0], f[1], f[2]]),
                "vn" => o.n.push([f[0], f[1], f[2]]),
                _ => o.uv.push([f[0], f[1]]),
            }
        }
    }
    Ok(out)
}

use super::super::{engine::*, files, fmt::*, io::*, load::*, model::*, ops};
use simcore::{log, src::Src};
use std::sync::Arc;
pub const PROP: Prop = Prop {
    id: "C17",
    run,
    steps: 20_000_000,
    quick: 60000,
    rule: "a case is a drawn file of the reference encoder (legacy, current, newer, unknown segments) or of the library, with the way of loading, delivery and schedule; non-trivial when the file has at least one segment",
};
type Bad = (&'static str, String);
fn near(what: &str, i: usize, a: f64, b: f32, tol: f64) -> Result<(), Bad> {
    if !((a - b as f64).abs() <= tol) {
        return Err(("value", format!("{what} {i}: the file says {a}, loaded {b} ({tol:e} allowed)")));
    }
    Ok(())
}
fn direction(what: &str, i: usize, a: &[f64; 3], b: &[f32; 3]) -> Result<(), Bad> {
    let m = a[0].hypot(a[1]);
    near(what, i, a[2], b[2], 2e-6)?;
    if cfg!(feature = "full") {
        // The fast sine of the azimuth is off by up to 3.4e-4; the cosine is made from it.
        // Near the poles the third component leaves the other two less well known.
        let pole = (3e-7 / m.max(1e-12)).min(6e-4);
        let off = 4e-4 * m + 2e-6 + pole;
        near(what, i, a[0], b[0], off)?;
        let (lo, hi) = ((a[0].abs() - off).max(0.0), (a[0].abs() + off).min(m));
        let y = ((m * m - hi * hi).sqrt() - 3e-6 - pole, (m * m - lo * lo).sqrt() + 3e-6 + pole);
        let have = b[1] as f64 * if a[1] < 0.0 { -1.0 } else { 1.0 };
        if !(y.0..=y.1).contains(&have) {
            return Err(("value", format!("{what} {i}: the file says {a:?}, loaded {b:?}")));
        }
        return Ok(());
    }
    let xy = 2e-6 + (3e-7 / m.max(1e-12)).min(6e-4);
    near(what, i, a[0], b[0], xy)?;
    near(what, i, a[1], b[1], xy)
}
fn lens<A, B>(what: &str, a: &Option<Vec<A>>, b: &Option<Vec<B>>) -> Result<(), Bad> {
    match (a, b) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) if a.len() == b.len() => Ok(()),
        // An empty array and none are the same in a file made by another writer.
        (Some(a), None) if a.is_empty() => Ok(()),
        _ => Err(("length", format!("{what}: the file has {:?} values, loaded {:?}", a.as_ref().map(|a| a.len()), b.as_ref().map(|b| b.len())))),
    }
}
pub fn compare(a: &RefMesh, b: &MeshSpec, v_tol: f64) -> Result<(), Bad> {
    lens("vertices", &a.v, &b.v)?;
    lens("normals", &a.n, &b.n)?;
    lens("uvs", &a.uv, &b.uv)?;
    lens("tangents", &a.t, &b.t)?;
    for (x, y) in a.v.iter().zip(&b.v) {
        for i in 0..x.len() {
            for k in 0..3 {
                near("vertex", i, x[i][k], y[i][k], v_tol)?;
            }
        }
    }
    for (x, y) in a.n.iter().zip(&b.n) {
        for i in 0..x.len() {
            direction("normal", i, &x[i], &y[i])?;
        }
    }
    for (x, y) in a.uv.iter().zip(&b.uv) {
        for i in 0..x.len() {
            for k in 0..2 {
                near("uv", i, x[i][k], y[i][k], 1e-6)?;
            }
        }
    }
    for (x, y) in a.t.iter().zip(&b.t) {
        for i in 0..x.len() {
            direction("tangent", i, &x[i].0, &y[i].0)?;
            near("handedness", i, x[i].1, y[i].1, 0.0)?;
        }
    }
    for (k, w) in ["vertex", "normal", "uv", "tangent"].iter().enumerate() {
        lens(&format!("{w} triangles"), &a.tri[k], &b.tri[k])?;
        for (x, y) in a.tri[k].iter().zip(&b.tri[k]) {
            if let Some(i) = (0..x.len()).find(|i| x[*i] != y[*i] as u64) {
                return Err(("index", format!("{w} index {i}: the file says {}, loaded {}", x[i], y[i])));
            }
        }
    }
    let names: Vec<_> = a.custom.iter().map(|c| String::from_utf8_lossy(&c.0).into_owned()).collect();
    let have: Vec<_> = b.custom.iter().map(|c| c.0.clone()).collect();
    if names != have {
        return Err(("custom_order", format!("the file has the custom data {names:?}, loaded {have:?}")));
    }
    for ((n, x), (_, y)) in a.custom.iter().zip(&b.custom) {
        let n = String::from_utf8_lossy(n);
        let what = format!("custom {n:?}");
        match (x, y) {
            (RefCust::Index(x), Cust::Index(y, _)) | (RefCust::Int(x), Cust::Int(y, _)) => {
                if x.len() != y.len() || x.iter().zip(y).any(|(a, b)| *a != *b as u64) {
                    return Err(("custom_int", format!("{what}: the file says {:?}, loaded {:?}", &x[..x.len().min(6)], &y[..y.len().min(6)])));
                }
            }
            (RefCust::Float(x), Cust::Float(y, _)) if x.len() == y.len() => {
                let big = x.iter().fold(0.0f64, |a, b| a.max(b.abs()));
                for i in 0..x.len() {
                    near(&what, i, x[i], y[i], 1e-6 * (big + 200.0f64.min(big * 2.0)))?;
                }
            }
            (RefCust::Color(x), Cust::Color(y, _)) if x.len() == y.len() => {
                for i in 0..x.len() {
                    for k in 0..4 {
                        near(&what, i, x[i][k], y[i][k], 1e-6)?;
                    }
                }
            }
            _ => return Err(("custom", format!("{what}: loaded as another type or length"))),
        }
    }
    Ok(())
}
/// Rounding of a mesh's vertices: by the largest bound any of its vertex segments names.
fn vertex_rounding(m: &PMesh) -> f64 {
    let mut big = 0.0f64;
    for g in m.segs.iter().filter(|g| g.ty == 1 && g.data.len() >= 56) {
        for k in 0..6 {
            big = big.max(f64::from_le_bytes(g.data[8 + 8 * k..16 + 8 * k].try_into().unwrap()).abs());
        }
    }
    1e-6 * big + 1e-37
}
pub fn check(bytes: &Arc<Vec<u8>>, f: &PFile, api: Api, d: &Delivery) {
    let got = must_load(api, &mut Source::new(bytes, d, None), "a well-formed file doesn't load");
    if got.len() != f.meshes.len() {
        fail("mesh_count", format!("the file has {} meshes, {} loaded", f.meshes.len(), got.len()));
    }
    for (i, (p, (m, name))) in f.meshes.iter().zip(&got).enumerate() {
        if p.name != *name {
            fail("name", format!("mesh {i} is called {:?}, loaded as {name:?}", p.name));
        }
        let want = decode(p, f.legacy).unwrap_or_else(|e| fail("format", format!("mesh {i}: {e}")));
        let b = MeshSpec::from_lib(m, name);
        if let Err((class, e)) = compare(&want, &b, vertex_rounding(p)) {
            fail(class, format!("mesh {i}: {e}"));
        }
    }
}
fn run(s: &mut Src) {
    draw_workers(s);
    ops::prelude(s);
    let saved = s.chance(1, 3);
    let bytes = if saved {
        let g = if s.chance(1, 2) { Gen::small() } else { Gen { huge: 500, ..Gen::normal() } };
        files::gen_saved(s, &g, 3).bytes
    } else {
        let size = *s.pick(&[6, 40, 300]);
        Arc::new(files::gen_raw(s, size).bytes())
    };
    let f = parse(&bytes).unwrap_or_else(|e| fail("format", format!("a saved file is not well-formed: {e}")));
    if saved {
        if f.version != [0, 2, 0, 2] {
            fail("version", format!("saved with version {:?}", f.version));
        }
        if f.end != bytes.len() {
            fail("trailing", format!("the container ends at byte {}, the file at {}", f.end, bytes.len()));
        }
        for g in f.meshes.iter().flat_map(|m| &m.segs) {
            if g.comp != 0 || !KNOWN.contains(&g.ty) {
                fail("segment", format!("segment of type {} with compression {} was saved", g.ty, g.comp));
            }
        }
    }
    if f.meshes.iter().any(|m| !m.segs.is_empty()) {
        nontrivial();
    }
    let apis = if f.meshes.len() == 1 { &APIS[..] } else { &APIS[..2] };
    let plans: Vec<_> = (0..s.range(1, 3)).map(|_| s.span(|s| (*s.pick(apis), Delivery::draw_for(s, bytes.len())))).collect();
    if s.chance(1, 2) {
        draw_policy(s);
    }
    // A near copy in between, which nothing may be taken over from.
    let near = s.chance(1, 4).then(|| Arc::new(files::near_file(s, &bytes)));
    let first = s.chance(1, 2);
    for (k, (api, d)) in plans.iter().enumerate() {
        let beside = |now: bool| {
            if let (Some(b), 0, true) = (&near, k, now) {
                log!("near copy: load {api:?} through {d:?}");
                let f = parse(b).unwrap_or_else(|e| harness(&format!("a near copy is not well-formed: {e}")));
                check(b, &f, *api, d);
            }
        };
        beside(first);
        log!("load {api:?} through {d:?}");
        check(&bytes, &f, *api, d);
        beside(!first);
    }
}

use super::super::{engine::*, fmt, io::*, load::*, model::*, ops};
use super::c01::check_set;
use simcore::{log, src::Src};
use std::collections::BTreeMap;
pub const PROP: Prop = Prop {
    id: "C16",
    run,
    steps: 20_000_000,
    quick: 25000,
    rule: "a case is a drawn set of meshes and settings with its history of loads, saves, failed attempts and crashes; non-trivial when at least three generations of a file with at least one array were made",
};
/// How far a direction may wander in all, over any number of generations. The approximate trigonometry of
/// the full build moves azimuths a little every time, so there only the elevation is held to this.
const DRIFT: f64 = 4e-6;
const HELD: std::ops::Range<usize> = if cfg!(feature = "full") { 2..3 } else { 0..3 };
fn run(s: &mut Src) {
    draw_workers(s);
    ops::prelude(s);
    let g = Gen { long_names: false, ..if s.chance(2, 3) { Gen::small() } else { Gen::normal() } };
    let specs = gen_set(s, &g, 3);
    let prec = PrecSpec::draw(s);
    let mut disk = Disk::default();
    let meshes = build_all(&specs);
    let mut good = 0u32; // The file holding the last durable generation.
    let b = must_save(&meshes, &prec, "a valid set of meshes");
    disk.put(0, b.to_vec());
    disk.sync(0);
    let n = if s.chance(1, 20) { s.range(20, 40) } else { s.range(2, 9) } as usize;
    let mut first: Option<(Vec<MeshSpec>, Vec<Snap>)> = None;
    let mut last: Option<(Vec<MeshSpec>, Vec<Snap>)> = None;
    let mut vert: (usize, Vec<MeshSpec>) = (0, Vec::new());
    let mut grids = Vec::new();
    let mut sizes: Vec<usize> = vec![b.len()];
    let mut parts: Option<BTreeMap<(usize, usize), (u16, usize)>> = None;
    for k in 1..=n {
        let stop = s.span(|s| {
            let bytes = disk.get(good);
            let d = Delivery::draw_for(s, bytes.len());
            let api = *s.pick(&APIS[..2]);
            // A failed attempt to load changes nothing.
            if s.chance(1, 6) {
                let f = Fault { at: Fault::draw_at(s, bytes.len()), what: Fault::draw_kind(s), sticky: true };
                let _ = load(api, &mut Source::new(&bytes, &d, Some(f)));
            }
            let cur = must_load(api, &mut Source::new(&bytes, &d, None), &format!("generation {k} doesn't load"));
            cnt("generations");
            let sp: Vec<MeshSpec> = cur.iter().map(|(m, n)| MeshSpec::from_lib(m, n)).collect();
            let sn = snaps(&cur);
            if let Some((prev, psn)) = &last {
                check_set(prev, &cur, &prec);
                for (i, (a, b)) in psn.iter().zip(&sn).enumerate() {
                    if let Some((class, d)) = a.settled_diff(b) {
                        fail(&format!("settled_{class}"), format!("mesh {i}, generation {k}: {d}"));
                    }
                }
            }
            // Whenever the grids of the vertices changed, the comparison starts over.
            let now = layouts(&bytes);
            if now != grids {
                vert = (k - 1, sp.clone());
                grids = now;
            }
            for (i, (a, b)) in vert.1.iter().zip(&sp).enumerate() {
                drift_vertices(a, b, (k - vert.0) as f64).unwrap_or_else(|e| fail("drift_vertex", format!("mesh {i}, up to generation {k}: {e}")));
            }
            if let Some((one, _)) = &first {
                for (i, (a, b)) in one.iter().zip(&sp).enumerate() {
                    drift(a, b, (k - 1) as f64).unwrap_or_else(|(class, e)| fail(class, format!("mesh {i}, from generation 1 to {k}: {e}")));
                }
            } else {
                first = Some((sp.clone(), sn.clone()));
            }
            last = Some((sp, sn));
            // Save it again: to another file, perhaps failing or crashing on the way.
            let next = 1 - good;
            for attempt in 0..4 {
                let fault = if attempt < 3 && s.chance(1, 6) {
                    Some(Fault { at: Fault::draw_at(s, bytes.len()), what: Fault::draw_kind(s), sticky: s.chance(1, 2) })
                } else {
                    None
                };
                let mut sink = Sink::new(&Delivery::draw_for(s, bytes.len()), fault);
                let r = match save_raw(&cur, &prec, &mut sink) {
                    Ok(r) => save_kind(&r),
                    Err(p) => fail("panic", format!("saving generation {k} panicked: {}", p.msg)),
                };
                let fired = sink.stats.fired();
                disk.put(next, std::mem::take(&mut sink.accepted));
                let lost = s.chance(1, 8);
                match r {
                    Ok(()) if !lost => {
                        disk.sync(next);
                        good = next;
                        break;
                    }
                    Ok(()) => log!("power lost before the file was durable"),
                    Err(e) if fired => log!("saving failed as injected: {e}"),
                    Err(e) => fail("save_error", format!("generation {k} can't be saved again: {e}")),
                }
                disk.crash(s);
                cnt("retries");
            }
            if good != next {
                return true;
            }
            if s.chance(1, 4) {
                disk.crash(s);
            }
            let bytes = disk.get(good);
            sizes.push(bytes.len());
            let f = fmt::parse(&bytes).unwrap_or_else(|e| fail("format", format!("generation {k} is not well-formed: {e}")));
            let mut now = BTreeMap::new();
            for (i, m) in f.meshes.iter().enumerate() {
                for (j, g) in m.segs.iter().enumerate() {
                    now.insert((i, j), (g.ty, g.data.len()));
                }
            }
            if let Some(before) = &parts {
                let fixed = |p: &BTreeMap<(usize, usize), (u16, usize)>| p.values().filter(|v| v.0 != 1).copied().collect::<Vec<_>>();
                let (a, b) = (fixed(before), fixed(&now));
                if a != b {
                    fail("size", format!("segments (type, bytes) of generation {}: {a:?}, of generation {k}: {b:?}", k - 1));
                }
            }
            parts = Some(now);
            false
        });
        if stop {
            return;
        }
        if k >= 3 && specs.iter().any(|m| m.v.as_ref().is_some_and(|v| !v.is_empty()) || !m.custom.is_empty() || m.n.is_some()) {
            nontrivial();
        }
    }
    log!("sizes {sizes:?}");
    if sizes.len() >= 9 && sizes[sizes.len() - 6..].windows(2).all(|w| w[1] > w[0]) {
        fail("growth", format!("the file keeps growing: {sizes:?}"));
    }
}
fn drift(a: &MeshSpec, b: &MeshSpec, rounds: f64) -> Result<(), (&'static str, String)> {
    let dir = |what: &str, i: usize, x: &[f32; 3], y: &[f32; 3]| {
        let d = HELD.map(|k| (x[k] as f64 - y[k] as f64).abs()).fold(0.0, f64::max);
        // Near an axis an azimuth, kept as an arcsine, is known less well.
        let m = x[0].hypot(x[1]) as f64;
        let side = x[0].abs().min(x[1].abs()) as f64;
        let held = DRIFT + if cfg!(feature = "full") { 0.0 } else { rounds * (2e-7 * m * m / side.max(1e-12)).min(8e-4 * m) };
        if !(d <= held) {
            return Err(("drift", format!("{what} {i} wandered by {d:e} from {x:?} to {y:?}")));
        }
        Ok(())
    };
    if let (Some(x), Some(y)) = (&a.n, &b.n) {
        for i in 0..x.len().min(y.len()) {
            dir("normal", i, &x[i], &y[i])?;
        }
    }
    if let (Some(x), Some(y)) = (&a.t, &b.t) {
        for i in 0..x.len().min(y.len()) {
            dir("tangent", i, &x[i].0, &y[i].0)?;
        }
    }
    Ok(())
}
/// Number of vertices and bits of every vertex segment of every mesh.
fn layouts(bytes: &[u8]) -> Vec<Vec<Vec<u8>>> {
    let f = fmt::parse(bytes).unwrap_or_else(|e| fail("format", format!("a saved file is not well-formed: {e}")));
    let one = |g: &fmt::Seg| [&g.data[..8], g.data.get(56..59).unwrap_or(&[])].concat();
    f.meshes.iter().map(|m| m.segs.iter().filter(|g| g.ty == 1 && g.data.len() >= 8).map(one).collect()).collect()
}
/// On the same grids, vertices stay where they are but for rounding.
fn drift_vertices(a: &MeshSpec, b: &MeshSpec, rounds: f64) -> Result<(), String> {
    if let (Some(x), Some(y)) = (&a.v, &b.v) {
        let tol = 4e-7 * rounds * extent(x) + 1e-37;
        for i in 0..x.len().min(y.len()) {
            for k in 0..3 {
                let d = (x[i][k] as f64 - y[i][k] as f64).abs();
                if !(d <= tol) {
                    return Err(format!("vertex {i} wandered by {d:e} from {:?} to {:?}, {tol:e} is rounding", x[i], y[i]));
                }
            }
        }
    }
    Ok(())
}

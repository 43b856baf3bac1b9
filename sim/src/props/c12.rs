use super::super::{engine::*, io::*, load::*, model::*, ops::*};

use simcore::{log, sched, src::Src};
use std::sync::Arc;
use tmf::TMFMesh;
pub const PROP: Prop = Prop {
    id: "C12",
    run,
    steps: 20_000_000,
    quick: 40000,
    rule: "a case is a drawn mesh (fresh or loaded from a file), the sequence of unifications and reorderings, and the hash seeds, threads and schedule they run under; non-trivial when the mesh has triangles and at least two data arrays",
};
/// Per data array: what each corner refers to, or the plain array if there are no indices for it.
fn corners(m: &MeshSpec) -> Vec<(&'static str, Vec<Vec<u32>>)> {
    let mut out = Vec::new();
    let data: [(&str, Option<Vec<Vec<u32>>>); 4] = [
        ("vertex", m.v.as_ref().map(|a| a.iter().map(|x| x.iter().map(|y| y.to_bits()).collect()).collect())),
        ("normal", m.n.as_ref().map(|a| a.iter().map(|x| x.iter().map(|y| y.to_bits()).collect()).collect())),
        ("uv", m.uv.as_ref().map(|a| a.iter().map(|x| x.iter().map(|y| y.to_bits()).collect()).collect())),
        ("tangent", m.t.as_ref().map(|a| a.iter().map(|(x, h)| x.iter().chain([h]).map(|y| y.to_bits()).collect()).collect())),
    ];
    for (k, (name, a)) in data.into_iter().enumerate() {
        let Some(a) = a else { continue };
        let c = match &m.tri[k] {
            None => a,
            Some(t) => t
                .iter()
                .enumerate()
                .map(|(i, x)| match a.get(*x as usize) {
                    Some(v) => v.clone(),
                    None => fail("range", format!("{name} index {i} is {x}, there are {} values", a.len())),
                })
                .collect(),
        };
        out.push((name, c));
    }
    out
}
fn compare(before: &MeshSpec, after: &MeshSpec, what: &str) {
    let (a, b) = (corners(before), corners(after));
    if a.len() != b.len() {
        fail("array", format!("{what}: {} arrays before, {} after", a.len(), b.len()));
    }
    for ((n, x), (_, y)) in a.iter().zip(&b) {
        if x.len() != y.len() {
            fail("corner", format!("{what}: {} {n} corners before, {} after", x.len(), y.len()));
        }
        if let Some(i) = (0..x.len()).find(|i| x[*i] != y[*i]) {
            let f = |v: &Vec<u32>| v.iter().map(|x| f32::from_bits(*x)).collect::<Vec<_>>();
            fail("corner", format!("{what}: the {n} of corner {i} was {:?}, is {:?}", f(&x[i]), f(&y[i])));
        }
    }
    if before.custom != after.custom {
        fail("custom", format!("{what}: custom data changed"));
    }
}
/// Applies the steps and checks each; returns the outcome.
fn apply(m: &TMFMesh, steps: &[bool], check: bool) -> Snap {
    let mut m = m.clone();
    for (k, unify) in steps.iter().enumerate() {
        cnt("optimises");
        let before = check.then(|| MeshSpec::from_lib(&m, "m"));
        let what = format!("step {k} ({})", if *unify { "unify" } else { "reorder" });
        calm(&what, || if *unify { m.unify_index_data() } else { m.reorder_data() });
        let Some(before) = before else { continue };
        let after = MeshSpec::from_lib(&m, "m");
        compare(&before, &after, &what);
        if *unify {
            let arrays: Vec<_> = [after.v.as_ref().map(|a| a.len()), after.n.as_ref().map(|a| a.len()), after.uv.as_ref().map(|a| a.len()), after.t.as_ref().map(|a| a.len())]
                .iter()
                .zip(&after.tri)
                .filter(|(l, t)| l.unwrap_or(0) > 0 && t.is_some())
                .map(|(_, t)| t.clone().unwrap())
                .collect();
            if arrays.windows(2).any(|w| w[0] != w[1]) {
                fail("not_unified", format!("{what}: index arrays still differ"));
            }
            let mut again = m.clone();
            calm("unifying again", || again.unify_index_data());
            if let Some(d) = snap(&m, "m").diff(&snap(&again, "m")) {
                fail("again", format!("{what}: unifying again changes the mesh: {d}"));
            }
        }
    }
    snap(&m, "m")
}
fn run(s: &mut Src) {
    draw_workers(s);
    prelude(s);
    let g = Gen { extreme: false, long_names: false, huge: 800, ..Gen::normal() };
    // A mesh worth it: others are passed over.
    let mut spec = gen_mesh(s, &g);
    if !optimisable(&spec) {
        spec = gen_mesh(s, &g);
    }
    if !optimisable(&spec) {
        return;
    }
    log!("mesh {}", spec.describe());
    let mut mesh = calm("building a mesh", || spec.build());
    if s.chance(1, 4) {
        let set = vec![(mesh, "m".to_string())];
        let b = must_save(&set, &PrecSpec::draw(s), "a valid mesh");
        let d = Delivery::draw_for(s, b.len());
        mesh = must_load(Api::Sync, &mut Source::new(&b, &d, None), "a saved file doesn't load").remove(0).0;
        spec = MeshSpec::from_lib(&mesh, "m");
    }
    let data = spec.v.is_some() as u8 + spec.n.is_some() as u8 + spec.uv.is_some() as u8 + spec.t.is_some() as u8;
    if data >= 2 && spec.tri.iter().flatten().any(|t| !t.is_empty()) {
        nontrivial();
    }
    let mut steps = vec![s.chance(2, 3)];
    for _ in 0..s.below(3) {
        steps.push(s.chance(1, 2));
    }
    // A near copy before or after it, which nothing may be taken over from.
    let near = s.chance(1, 4).then(|| near_mesh(s, &spec)).filter(|_| spec.tri.iter().flatten().map(|t| t.len()).sum::<usize>() <= 20_000);
    let first = s.chance(1, 2);
    let beside = |now: bool| {
        if let (Some(m), true) = (&near, now) {
            log!("near copy {}", m.describe());
            apply(&calm("building a mesh", || m.build()), &steps, true);
        }
    };
    beside(first);
    let want = apply(&mesh, &steps, true);
    beside(!first);
    let n = s.below(4);
    let seeds: Vec<u64> = (0..n).map(|_| s.seed()).collect();
    let noise = if s.chance(1, 3) {
        let sizes = pool_sizes(s);
        let pool = gen_pool(s, &sizes);
        Some(s.list(2, 4, |s| gen_op(s, &pool, true)))
    } else {
        None
    };
    if seeds.is_empty() && noise.is_none() {
        return;
    }
    draw_policy(s);
    let mesh = Arc::new(mesh);
    let noise = noise.map(|l| {
        cnt("threads");
        sched::spawn(move || {
            for o in &l {
                o.run();
            }
        })
    });
    let hs: Vec<_> = seeds
        .into_iter()
        .map(|seed| {
            cnt("threads");
            cnt("reseeded");
            let (mesh, steps) = (mesh.clone(), steps.clone());
            sched::spawn(move || {
                sched::set_entropy(seed);
                apply(&mesh, &steps, false)
            })
        })
        .collect();
    let mut all = vec![apply(&mesh, &steps, false)];
    all.extend(hs.into_iter().map(joined));
    if let Some(h) = noise {
        joined(h);
    }
    no_preemption();
    for (k, x) in all.iter().enumerate() {
        if let Some(d) = want.diff(x) {
            fail("seed", format!("the outcome depends on the thread or hash seed (run {k}): {d}"));
        }
    }
}

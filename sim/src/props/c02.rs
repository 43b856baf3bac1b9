use super::super::{engine::*, io::*, load::*, model::*, ops::*};
use simcore::{log, sched, src::Src};
use std::sync::Arc;
use tmf::TMFMesh;
pub const PROP: Prop = Prop {
    id: "C02",
    run,
    steps: 20_000_000,
    quick: 30000,
    rule: "a case is a drawn set of meshes and settings with the sinks, hash seeds, threads, schedule and neighbouring operations it is saved under; non-trivial when at least two saves of a file with at least one array were compared",
};
type Set = Arc<Vec<(TMFMesh, String)>>;
pub fn save_as(one: bool, m: &[(TMFMesh, String)], prec: &PrecSpec, sink: &mut Sink) -> Result<Result<(), String>, Panicked> {
    if !one {
        return save_raw(m, prec, sink).map(|r| save_kind(&r));
    }
    cnt("saves");
    let p = prec.build();
    lib(|| m[0].0.write_tmf_one(sink, &p, m[0].1.as_str())).map(|r| save_kind(&r))
}
#[derive(Clone)]
struct Plan {
    /// 0: the same meshes, 1: clones of them, 2: built anew.
    source: u64,
    d: Delivery,
}
fn check(one: bool, set: &Set, specs: &[MeshSpec], prec: &PrecSpec, p: &Plan, want: &[u8], who: &str) {
    let mut sink = Sink::new(&p.d, None);
    let r = match p.source {
        0 => save_as(one, set, prec, &mut sink),
        1 => save_as(one, &calm("cloning meshes", || (**set).clone()), prec, &mut sink),
        _ => save_as(one, &build_all(specs), prec, &mut sink),
    };
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => fail("save_error", format!("{who}: saving failed without a fault: {e}")),
        Err(p) => fail("panic", format!("{who}: saving panicked: {}", p.msg)),
    }
    cntn("bytes_out", sink.accepted.len() as u64);
    if sink.accepted != want {
        let i = sink.accepted.iter().zip(want).position(|(a, b)| a != b).unwrap_or(want.len().min(sink.accepted.len()));
        fail("bytes", format!("{who}: {} bytes instead of {}, first different byte {i}, source {}, {:?}", sink.accepted.len(), want.len(), p.source, p.d));
    }
}
fn run(s: &mut Src) {
    draw_workers(s);
    let g = Gen { huge: 1500, ..Gen::normal() };
    let one = s.chance(1, 6);
    let mut specs = gen_set(s, &g, if one { 1 } else { 4 });
    if one {
        specs.truncate(1);
    }
    let prec = PrecSpec::draw(s);
    let mut set = build_all(&specs);
    let reload = s.chance(1, 5);
    if reload {
        // Meshes that came from a file.
        let b = must_save(&set, &prec, "a valid set of meshes");
        set = must_load(Api::Sync, &mut Source::plain(&b), "a saved file doesn't load");
        specs = set.iter().map(|(m, n)| MeshSpec::from_lib(m, n)).collect();
    }
    let set: Set = Arc::new(set);
    let mut sink = Sink::plain();
    match save_as(one, &set, &prec, &mut sink) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => fail("save_error", format!("a valid set of meshes can't be saved: {e}")),
        Err(p) => fail("panic", format!("saving panicked: {}", p.msg)),
    }
    let want = Arc::new(sink.accepted);
    log!("reference file of {} bytes", want.len());
    let sizes = pool_sizes(s);
    let pool = gen_pool(s, &sizes);
    // Whatever the process did before, failures included.
    for op in s.list(1, 3, |s| gen_op(s, &pool, true)) {
        op.run();
    }
    let draw = |s: &mut Src| s.span(|s| Plan { source: if reload { s.below(2) } else { s.below(3) }, d: Delivery::draw(s) });
    let first = draw(s);
    let mut plans = Vec::new();
    for _ in 0..s.below(4) {
        plans.push(s.span(|s| (s.seed(), s.list(1, 3, draw))));
    }
    let mut neighbours = Vec::new();
    for _ in 0..s.below(3) {
        neighbours.push(s.span(|s| (s.seed(), s.list(1, 3, |s| gen_op(s, &pool, true)))));
    }
    draw_policy(s);
    let mut hs = Vec::new();
    for (k, (seed, list)) in plans.into_iter().enumerate() {
        cnt("threads");
        cnt("reseeded");
        let (set, specs, prec, want) = (set.clone(), specs.clone(), prec.clone(), want.clone());
        hs.push(sched::spawn(move || {
            sched::set_entropy(seed);
            for p in &list {
                check(one, &set, &specs, &prec, p, &want, &format!("thread {k}"));
            }
        }));
    }
    for (seed, list) in neighbours {
        cnt("threads");
        hs.push(sched::spawn(move || {
            sched::set_entropy(seed);
            for op in &list {
                op.run();
            }
        }));
    }
    check(one, &set, &specs, &prec, &first, &want, "main thread");
    for h in hs {
        joined(h);
    }
    if specs.iter().any(|m| m.v.as_ref().is_some_and(|v| !v.is_empty()) || !m.custom.is_empty()) {
        nontrivial();
    }
}

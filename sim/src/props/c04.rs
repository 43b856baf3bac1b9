use super::super::{engine::*, files, fmt, io::*, load::*, model::*};
use simcore::src::Src;
use std::sync::Arc;
pub const PROP: Prop = Prop {
    id: "C04",
    run,
    steps: 20_000_000,
    quick: 12000,
    rule: "a case is a drawn saved file with the positions it is cut at (all of them for small files, else drawn ones and those around segment boundaries), the way of loading and the delivery; every case with at least one cut is non-trivial",
};
fn run(s: &mut Src) {
    draw_workers(s);
    let bytes = if s.chance(1, 60) {
        // A file without meshes.
        must_save(&[], &PrecSpec::normal(), "an empty set of meshes")
    } else {
        let g = if s.chance(2, 3) { Gen::small() } else { Gen::normal() };
        let f = files::gen_saved(s, &g, 3);
        if s.chance(1, 6) {
            // Saved from what a file holds rather than from fresh meshes.
            let m = must_load(Api::Sync, &mut Source::plain(&f.bytes), "a saved file doesn't load");
            must_save(&m, &f.prec, "a loaded set of meshes")
        } else {
            f.bytes
        }
    };
    let len = bytes.len();
    let mut cuts: Vec<usize> = Vec::new();
    if len <= 700 && s.chance(2, 3) {
        cuts.extend(0..len);
        cntn("enumerated_cuts", len as u64);
    } else {
        for _ in 0..s.range(4, 20) {
            cuts.push(s.below(len as u64) as usize);
        }
        let (segs, _) = fmt::parse_lenient(&bytes);
        let mut edges: Vec<usize> = segs.iter().flat_map(|g| [g.at, g.data_at, g.data_at + g.data.len()]).collect();
        edges.push(15);
        for _ in 0..s.range(2, 12) {
            let e = edges[s.below(edges.len() as u64) as usize];
            cuts.push((e + s.below(5) as usize).saturating_sub(2).min(len - 1));
        }
        cuts.push(len - 1);
    }
    let fixed = s.chance(1, 2);
    let api0 = *s.pick(&APIS);
    let d0 = if s.chance(1, 2) { Delivery::FULL } else { Delivery::draw_for(s, len) };
    if s.chance(1, 2) {
        draw_policy(s);
    }
    let mut r = simcore::rng::Rng::new(s.seed());
    for c in cuts {
        cnt("cuts");
        let api = if fixed { api0 } else { *[Api::Sync, Api::Async, Api::SyncOne, Api::AsyncOne].get(r.below(4) as usize).unwrap() };
        let style = r.below(3);
        let mut src = match style {
            // What is left on the disk.
            0 => Source::new(&Arc::new(bytes[..c].to_vec()), &d0, None),
            // Or a pipe whose writer died.
            _ => Source::new(&bytes, &d0, Some(Fault { at: At::Byte(c as u64), what: What::Zero, sticky: true })),
        };
        let out = classify(load_raw(api, &mut src));
        match &out {
            Out::Error(e) if e == "IO(UnexpectedEof)" => {}
            Out::Meshes(m) => fail("loaded", format!("the first {c} of {len} bytes load as {} meshes ({api:?})", m.len())),
            Out::Error(e) => fail("wrong_error", format!("the first {c} of {len} bytes give {e} instead of an end-of-data error ({api:?})")),
            o => fail("panic", format!("loading the first {c} of {len} bytes ({api:?}): {}", o.short())),
        }
        nontrivial();
    }
    no_preemption();
    // The complete file does load.
    must_load(Api::Sync, &mut Source::plain(&bytes), "the complete file doesn't load");
}

use super::super::{engine::*, files, io::*, load::*, model::*, ops::*};
use super::c02::save_as;
use simcore::{log, sched, src::Src};
pub const PROP: Prop = Prop {
    id: "C03",
    run,
    steps: 20_000_000,
    quick: 40000,
    rule: "a case is a drawn set of meshes with the sink faults (position, kind, duration, delivery) its saves meet; non-trivial when at least one injected fault was met",
};
fn run(s: &mut Src) {
    draw_workers(s);
    let g = if s.chance(1, 2) { Gen::small() } else { Gen::normal() };
    let one = s.chance(1, 6);
    let f = files::gen_saved(s, &g, if one { 1 } else { 3 });
    let one = one && f.meshes.len() == 1;
    let want = &f.bytes;
    let all = want.len() <= 600 && s.chance(1, 5);
    let mut faults: Vec<(Option<Fault>, Delivery, bool)> = Vec::new();
    if all {
        let d = Delivery::draw(s);
        let seed = s.seed();
        let mut r = simcore::rng::Rng::new(seed);
        for b in 0..want.len() as u64 {
            let what = if r.chance(1, 5) { What::Zero } else { What::Kind(r.below(ERR_COUNT) as usize) };
            faults.push((Some(Fault { at: At::Byte(b), what, sticky: r.chance(1, 2) }), d.clone(), r.chance(1, 16)));
        }
    } else {
        for _ in 0..s.range(1, 8) {
            faults.push(s.span(|s| {
                let at = match s.below(8) {
                    0 => At::Flush(s.below(3)),
                    _ => Fault::draw_at(s, want.len()),
                };
                let what = if s.chance(1, 4) && !matches!(at, At::Flush(_)) { What::Zero } else { Fault::draw_kind(s) };
                let fault = Fault { at, what, sticky: s.chance(1, 2) };
                (Some(fault), Delivery::draw_for(s, want.len()), s.chance(1, 2))
            }));
        }
    }
    let mut neighbour = None;
    if s.chance(1, 6) {
        let sizes = pool_sizes(s);
        let pool = gen_pool(s, &sizes);
        let ops = s.list(2, 4, |s| gen_op(s, &pool, true));
        draw_policy(s);
        cnt("threads");
        neighbour = Some(sched::spawn(move || {
            for op in &ops {
                op.run();
            }
        }));
    }
    for (fault, d, retry) in &faults {
        cnt("fault_positions");
        let mut sink = Sink::new(d, *fault);
        let r = match save_as(one, &f.meshes, &f.prec, &mut sink) {
            Ok(r) => r,
            Err(p) => fail("panic", format!("a save to a failing sink panicked: {} ({fault:?})", p.msg)),
        };
        let fired = sink.stats.fired();
        log!("save with {fault:?}: {r:?}, {} bytes accepted, fault met: {fired}", sink.accepted.len());
        if !want.starts_with(&sink.accepted) {
            let i = sink.accepted.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(want.len());
            fail("not_prefix", format!("the sink accepted {} bytes, of which byte {i} is not that of the complete file ({fault:?})", sink.accepted.len()));
        }
        if fired {
            nontrivial();
            let kind = match fault.unwrap().what {
                What::Kind(k) => format!("IO({:?})", kind(k)),
                _ => "IO(WriteZero)".into(),
            };
            match r {
                Ok(()) => fail("success", format!("the sink failed after {} of {} bytes, the save reported success ({fault:?})", sink.accepted.len(), want.len())),
                Err(e) if e != kind => fail("kind", format!("the sink failed with {kind}, the save reported {e} ({fault:?})")),
                _ => {}
            }
        } else {
            if let Err(e) = r {
                fail("save_error", format!("saving failed without a fault: {e}"));
            }
            if sink.accepted != **want {
                fail("incomplete", format!("success reported with {} of {} bytes handed over", sink.accepted.len(), want.len()));
            }
        }
        if *retry {
            cnt("retries");
            let mut sink = Sink::new(d, None);
            match save_as(one, &f.meshes, &f.prec, &mut sink) {
                Ok(Ok(())) if sink.accepted == **want => {}
                Ok(Ok(())) => fail("retry", "saving again after a failure gave a different file"),
                Ok(Err(e)) => fail("retry", format!("saving again after a failure failed: {e}")),
                Err(p) => fail("panic", format!("saving again after a failure panicked: {}", p.msg)),
            }
        }
    }
    if let Some(h) = neighbour {
        joined(h);
    }
}

use super::super::{engine::*, load::*, model::*, ops::*};
use simcore::{sched, src::Src};
pub const PROP: Prop = Prop {
    id: "C10",
    run,
    steps: 20_000_000,
    quick: 25000,
    rule: "a case is a drawn set of operations on two to four threads with their stream faults and the schedule; non-trivial when at least two threads ran at least one operation each",
};
fn run(s: &mut Src) {
    draw_workers(s);
    let g = match s.weighted(&[60, 15, 1]) {
        0 => Gen { size: 20, ..Gen::small() },
        1 => Gen { size: 60, big: true, ..Gen::small() },
        _ => Gen { size: 3000, ..Gen::small() },
    };
    let pool = gen_pool(s, &g);
    let n = s.range(2, 4);
    let plans: Vec<(u64, Vec<Op>)> = (0..n).map(|_| s.span(|s| (s.seed(), s.list(2, 4, |s| gen_op(s, &pool, true))))).collect();
    // Alone first, or alone afterwards: what is set up by first use is then set up by several at once.
    let alone = || -> Vec<Vec<Ret>> { plans.iter().map(|(_, l)| l.iter().map(|o| o.run()).collect()).collect() };
    let before = !s.chance(1, 2);
    let mut solo = if before { alone() } else { Vec::new() };
    if plans.iter().filter(|p| !p.1.is_empty()).count() >= 2 {
        nontrivial();
    }
    draw_policy(s);
    let hs: Vec<_> = plans
        .iter()
        .map(|(seed, l)| {
            cnt("threads");
            let (seed, l) = (*seed, l.clone());
            sched::spawn(move || {
                sched::set_entropy(seed);
                l.iter().map(|o| o.run()).collect::<Vec<Ret>>()
            })
        })
        .collect();
    let got: Vec<Vec<Ret>> = hs.into_iter().map(joined).collect();
    sched::quiesce();
    no_preemption();
    for r in got.iter().flatten() {
        if r.failed() {
            cnt("neighbour_failures");
        }
        if matches!(r, Ret::Load(Out::StreamPanic)) {
            cnt("stream_panic_neighbour");
        }
    }
    if !before {
        solo = alone();
    }
    for (t, l) in solo.iter().enumerate() {
        for (k, r) in l.iter().enumerate() {
            if let Some(p) = r.panicked() {
                fail("panic", format!("{} alone: {p}", plans[t].1[k].describe()));
            }
        }
    }
    let check = |t: usize, k: usize, got: &Ret, when: &str| {
        if let Some(x) = solo[t][k].differs(got) {
            fail("affected", format!("thread {t}, {} ({}), {when}: {x}", plans[t].1[k].kind(), plans[t].1[k].describe()));
        }
    };
    for (t, l) in got.iter().enumerate() {
        for (k, r) in l.iter().enumerate() {
            check(t, k, r, "alone and next to others");
        }
    }
    pool.check();
    // And once more, after all that.
    for (t, (_, l)) in plans.iter().enumerate() {
        if let Some(o) = l.first() {
            check(t, 0, &o.run(), "before and afterwards");
        }
    }
}

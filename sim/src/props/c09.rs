use super::super::{engine::*, files, fmt, io::*, load::*, model::*};
use simcore::{log, sched, src::Src};
pub const PROP: Prop = Prop {
    id: "C09",
    run,
    steps: 20_000_000,
    quick: 30000,
    rule: "a case is a drawn file with the numbers of workers, schedules, threads and calls (blocking, asynchronous) it is loaded under; non-trivial when the file has at least two segments in some mesh",
};
fn run(s: &mut Src) {
    let g = if s.chance(1, 2) { Gen::small() } else { Gen::normal() };
    let bytes = files::gen_any_file(s, &g, 3);
    if files::absurd(&bytes) {
        return;
    }
    // Blocking, one worker, in the order of the file.
    #[cfg(feature = "full")]
    tokio::task::sim_set_workers(1);
    let want = load_plain(&bytes);
    let parsed = fmt::parse(&bytes).ok();
    if let (Some(f), Out::Meshes(m)) = (&parsed, &want) {
        // The file's custom-data order.
        for (k, (p, m)) in f.meshes.iter().zip(m).enumerate() {
            let names: Vec<Vec<u8>> = p
                .segs
                .iter()
                .filter(|g| matches!(g.ty, 15 | 16 | 23 | 24) && !g.data.is_empty())
                .filter_map(|g| g.data.get(1..1 + g.data[0] as usize).map(|n| n.to_vec()))
                .collect();
            if let Some(have) = m.custom_order() {
                if have != names {
                    let t = |v: &[Vec<u8>]| v.iter().map(|n| String::from_utf8_lossy(n).chars().take(12).collect::<String>()).collect::<Vec<_>>();
                    fail("order", format!("mesh {k}: the file has the custom data {:?}, loaded {:?}", t(&names), t(&have)));
                }
            }
        }
        if f.meshes.iter().any(|m| m.segs.len() > 1) {
            nontrivial();
        }
    }
    let single = matches!(&want, Out::Meshes(m) if m.len() == 1);
    let apis = if single { &APIS[..] } else { &APIS[..2] };
    for _ in 0..s.range(1, 4) {
        s.span(|s| {
            draw_workers(s);
            let main = *s.pick(apis);
            let d = if s.chance(1, 2) { Delivery::FULL } else { Delivery::draw_for(s, bytes.len()) };
            let mut others = Vec::new();
            for _ in 0..s.weighted(&[4, 2, 1]) {
                others.push((*s.pick(apis), if s.chance(1, 2) { Delivery::FULL } else { Delivery::draw_for(s, bytes.len()) }, s.seed()));
            }
            draw_policy(s);
            let hs: Vec<_> = others
                .into_iter()
                .map(|(api, d, seed)| {
                    cnt("threads");
                    let bytes = bytes.clone();
                    sched::spawn(move || {
                        sched::set_entropy(seed);
                        (api, load(api, &mut Source::new(&bytes, &d, None)))
                    })
                })
                .collect();
            let got = load(main, &mut Source::new(&bytes, &d, None));
            let mut all = vec![(main, got)];
            all.extend(hs.into_iter().map(joined));
            no_preemption();
            for (k, (api, got)) in all.iter().enumerate() {
                log!("load {k} {api:?}: {}", got.short());
                if let Some(x) = want.differs(got) {
                    fail("order", format!("{api:?} load under another schedule: {x}"));
                }
            }
        });
    }
}

use super::super::{engine::*, files, io::*, load::*, model::*};
use simcore::src::Src;
use std::sync::atomic::Ordering::Relaxed;
pub const PROP: Prop = Prop {
    id: "C06",
    run,
    steps: 20_000_000,
    quick: 40000,
    rule: "a case is a drawn loadable file with the stream failures (position, kind, duration, delivery) its loads meet; non-trivial when at least one injected failure was met",
};
fn run(s: &mut Src) {
    draw_workers(s);
    let g = if s.chance(1, 2) { Gen::small() } else { Gen::normal() };
    let bytes = files::gen_file(s, &g, 3);
    let len = bytes.len();
    let mut plans: Vec<(Api, Delivery, Fault)> = Vec::new();
    if len <= 500 && s.chance(1, 5) {
        let api = *s.pick(&APIS);
        let d = Delivery::draw(s);
        let mut r = simcore::rng::Rng::new(s.seed());
        for b in 0..len as u64 {
            plans.push((api, d.clone(), Fault { at: At::Byte(b), what: What::Kind(r.below(ERR_COUNT) as usize), sticky: r.chance(1, 2) }));
        }
    } else {
        for _ in 0..s.range(1, 8) {
            plans.push(s.span(|s| {
                let api = *s.pick(&APIS);
                let d = Delivery::draw_for(s, len);
                let what = if s.chance(1, 8) { What::Zero } else { Fault::draw_kind(s) };
                (api, d, Fault { at: Fault::draw_at(s, len), what, sticky: s.chance(1, 2) })
            }));
        }
    }
    let want: Vec<Out> = APIS.iter().map(|a| load(*a, &mut Source::plain(&bytes))).collect();
    let normal = |a: Api| &want[APIS.iter().position(|b| *b == a).unwrap()];
    if s.chance(1, 2) {
        draw_policy(s);
    }
    for (api, d, f) in &plans {
        cnt("fault_positions");
        let mut src = Source::new(&bytes, d, Some(*f));
        let got = load(*api, &mut src);
        let kind = match f.what {
            What::Kind(k) => format!("IO({:?})", kind(k)),
            _ => "IO(UnexpectedEof)".into(),
        };
        // The end of the data only counts as one if there was more to come.
        let met = src.stats.fired.load(Relaxed) > 0 && !(f.what == What::Zero && src.pos() == len);
        if met {
            nontrivial();
            match &got {
                Out::Error(e) if *e == kind => {}
                Out::Meshes(_) => fail("loaded", format!("the stream failed after {} of {len} bytes, the {api:?} load returned {} ({f:?})", src.pos(), got.short())),
                Out::Error(e) => fail("kind", format!("the stream failed with {kind} after {} of {len} bytes, the {api:?} load reported {e} ({f:?})", src.pos())),
                o => fail("panic", format!("the stream failed, the {api:?} load: {} ({f:?})", o.short())),
            }
        } else if let Some(x) = normal(*api).differs(&got) {
            fail("not_met", format!("a {api:?} load that met no failure: {x}"));
        }
        let again = load(*api, &mut Source::new(&bytes, d, None));
        cnt("retry_after_failure");
        if let Some(x) = normal(*api).differs(&again) {
            fail("again", format!("{api:?} load after a failed one: {x}"));
        }
    }
}

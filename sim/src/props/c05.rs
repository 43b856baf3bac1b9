use super::super::{engine::*, files, io::*, load::*, model::*};
use simcore::{log, src::Src};
pub const PROP: Prop = Prop {
    id: "C05",
    run,
    steps: 20_000_000,
    quick: 50000,
    rule: "a case is a drawn file (saved, legacy, by a newer writer, or damaged) with the deliveries it is loaded through; non-trivial when at least one delivery is not the plain one",
};
fn run(s: &mut Src) {
    draw_workers(s);
    let g = if s.chance(1, 2) { Gen::small() } else { Gen::normal() };
    let bytes = files::gen_any_file(s, &g, 3);
    if files::absurd(&bytes) {
        return;
    }
    let n = s.range(1, 5);
    let plans: Vec<_> = (0..n).map(|_| s.span(|s| (*s.pick(&APIS), Delivery::draw_for(s, bytes.len())))).collect();
    let want: Vec<Out> = plans.iter().map(|(api, _)| load(*api, &mut Source::plain(&bytes))).collect();
    if s.chance(1, 2) {
        draw_policy(s);
    }
    for ((api, d), w) in plans.iter().zip(&want) {
        let got = load(*api, &mut Source::new(&bytes, d, None));
        cntn("bytes_in", bytes.len() as u64);
        if let Some(x) = w.differs(&got) {
            fail("delivery", format!("{api:?} load of {} bytes through {d:?}: {x}", bytes.len()));
        }
        if !d.is_plain() {
            nontrivial();
        }
        if let Out::Panic(p) = &got {
            log!("panics either way: {p}");
        }
    }
}

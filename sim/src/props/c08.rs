use super::super::{engine::*, files, io::*, load::*, model::*};
use simcore::{alloc, log, src::Src};
pub const PROP: Prop = Prop {
    id: "C08",
    run,
    steps: 20_000_000,
    quick: 80000,
    rule: "a case is a drawn file with its injuries, the way of loading and the delivery; non-trivial when the damaged bytes differ from the intact ones",
};
/// Bytes of memory per byte delivered, and regardless of it.
const PER_BYTE: u64 = 1024;
const CONSTANT: u64 = 64 << 20;
fn run(s: &mut Src) {
    draw_workers(s);
    let g = if s.chance(4, 5) { Gen::small() } else { Gen::normal() };
    let whole = files::gen_file(s, &g, 2);
    let mut d = (*whole).clone();
    files::damage(s, &mut d);
    let Some(zero) = files::zero_width(&d) else {
        log!("declares millions of zero-width elements: not loaded");
        return;
    };
    cntn("zero_width", zero);
    if d != *whole {
        nontrivial();
    }
    let bytes = std::sync::Arc::new(d);
    let n = s.range(1, 2);
    let plans: Vec<_> = (0..n)
        .map(|_| {
            s.span(|s| {
                let api = *s.pick(&APIS);
                let d = if s.chance(1, 2) { Delivery::FULL } else { Delivery::draw_for(s, bytes.len()) };
                (api, d)
            })
        })
        .collect();
    if s.chance(1, 2) {
        draw_policy(s);
    }
    for (api, d) in plans {
        let base = alloc::live();
        alloc::reset_peak();
        let mut src = Source::new(&bytes, &d, None);
        let r = load_raw(api, &mut src);
        let used = alloc::peak().saturating_sub(base);
        let delivered = src.stats.bytes();
        let allowed = CONSTANT + delivered * PER_BYTE + zero * 64;
        log!("{used} bytes of memory used for {delivered} delivered, {zero} zero-width elements");
        if let Ok(Ok(m)) = &r {
            cnt("damaged_loaded_ok");
            log!("{} meshes", m.len());
        }
        if let Err(p) = &r {
            fail("panic", format!("{api:?} load of a damaged file panicked: {}", p.msg));
        }
        if used > allowed {
            fail("memory", format!("{api:?} load of a damaged file used {used} bytes of memory for {delivered} delivered"));
        }
        let _ = alloc::outside(|| classify_quietly(r));
    }
}
fn classify_quietly(r: Result<Raw, Panicked>) -> bool {
    matches!(r, Ok(Ok(_)))
}

use super::super::{engine::*, fmt, io::*, load::*, model::*, ops};
use simcore::{log, src::Src};
use std::sync::atomic::Ordering::Relaxed;
pub const PROP: Prop = Prop {
    id: "C01",
    run,
    steps: 20_000_000,
    quick: 40000,
    rule: "a case is a drawn set of meshes, save settings, sink behaviour, crash history and load delivery; non-trivial when an acknowledged file with at least one non-empty array was read back",
};
/// Names and custom data beyond what the format can count: refused, or kept.
fn huge(s: &mut Src, specs: &mut Vec<MeshSpec>) {
    if s.chance(1, 4) {
        cnt("many_meshes");
        let n = s.range(65530, 66000);
        specs.clear();
        for i in 0..n {
            let tri = [Some(vec![0, 0, 0]), None, None, None];
            let v = Some(vec![[i as f32, 0.0, 1.0]]);
            specs.push(if i % 8192 == 1 { MeshSpec { name: format!("{i}"), v, tri, ..Default::default() } } else { MeshSpec { name: format!("{i}"), ..Default::default() } });
        }
        log!("{n} small meshes");
        return;
    }
    cnt("huge_names");
    let k = s.below(specs.len() as u64) as usize;
    let m = &mut specs[k];
    let n = s.range(65530, 70000) as usize;
    // The other case takes the library long.
    if !s.chance(1, 12) {
        m.name = "h".repeat(n);
    } else {
        patience();
        m.custom = (0..n).map(|i| (format!("{i}"), Cust::Index(vec![i as u32], i))).collect();
    }
    log!("mesh {k} is now {}", m.describe());
}
fn run(s: &mut Src) {
    draw_workers(s);
    ops::prelude(s);
    let g = Gen { huge: 800, ..Gen::normal() };
    let mut disk = Disk::default();
    let files = s.range(1, 3) as u32;
    let mut acked: Vec<(u32, Vec<MeshSpec>, PrecSpec)> = Vec::new();
    for id in 0..files {
        s.span(|s| {
            let mut specs = gen_set(s, &g, 4);
            let prec = PrecSpec::draw(s);
            let over = s.chance(1, 1500);
            if over {
                huge(s, &mut specs);
            }
            let mut meshes = build_all(&specs);
            // Reordered or unified before saving: the reference is the mesh as it then is.
            let op = if over { 0 } else { s.weighted(&[6, 1, 1]) };
            if op > 0 {
                cnt("optimises");
                for ((m, _), sp) in meshes.iter_mut().zip(specs.iter_mut()) {
                    if !optimisable(sp) {
                        continue;
                    }
                    calm("optimising a mesh", || if op == 1 { m.reorder_data() } else { m.unify_index_data() });
                    let custom = sp.custom.clone();
                    *sp = MeshSpec::from_lib(m, &sp.name);
                    sp.custom = custom;
                }
            }
            log!("file {id}: {} meshes, {prec:?}, op {op}", specs.len());
            // The sink: perfect, slow, or failing at first.
            let d = Delivery::draw(s);
            let fails = if s.chance(1, 4) { s.range(1, 2) } else { 0 };
            for k in 0..=fails {
                let fault = if k < fails {
                    Some(Fault { at: Fault::draw_at(s, 2000), what: Fault::draw_kind(s), sticky: s.chance(1, 2) })
                } else {
                    None
                };
                let mut sink = Sink::new(&d, fault);
                let r = save_raw(&meshes, &prec, &mut sink);
                let ok = match r {
                    Ok(r) => save_kind(&r),
                    Err(p) => fail("panic", format!("saving panicked: {}", p.msg)),
                };
                let fired = sink.stats.fired();
                let bytes = sink.stats.bytes.load(Relaxed);
                cntn("bytes_out", bytes);
                disk.put(id, std::mem::take(&mut sink.accepted));
                match ok {
                    Ok(()) => {
                        disk.sync(id);
                        acked.push((id, specs.clone(), prec.clone()));
                        break;
                    }
                    Err(e) if fired => log!("save failed as injected: {e}"),
                    Err(e) if over => {
                        cnt("refused");
                        log!("refused: {e}");
                        break;
                    }
                    Err(e) => fail("save_error", format!("a valid set of meshes can't be saved: {e}")),
                }
                if s.chance(1, 3) {
                    disk.crash(s);
                }
            }
            if s.chance(1, 3) {
                disk.crash(s);
            }
        });
    }
    disk.crash(s);
    for (id, specs, prec) in &acked {
        let bytes = disk.get(*id);
        let d = Delivery::draw_for(s, bytes.len());
        let api = *s.pick(&APIS[..if specs.len() == 1 { 4 } else { 2 }]);
        let mut src = Source::new(&bytes, &d, None);
        let loaded = must_load(api, &mut src, "an acknowledged, durable file doesn't load");
        cntn("bytes_in", bytes.len() as u64);
        check_set(specs, &loaded, prec);
        check_order(specs, &bytes);
        if specs.iter().any(|m| m.v.as_ref().is_some_and(|v| !v.is_empty()) || !m.custom.is_empty()) {
            nontrivial();
        }
    }
}
/// The order of custom data can only be seen in a file.
fn check_order(specs: &[MeshSpec], bytes: &[u8]) {
    let f = match fmt::parse(bytes) {
        Ok(f) => f,
        Err(e) => fail("format", format!("a saved file is not well-formed: {e}")),
    };
    for (i, (m, fm)) in specs.iter().zip(&f.meshes).enumerate() {
        let have = fm.segs.iter().filter(|g| matches!(g.ty, 15 | 16 | 23 | 24)).map(|g| &g.data[1..1 + g.data[0] as usize]);
        let want = m.custom.iter().map(|(n, _)| n.as_bytes());
        if !have.eq(want) {
            fail("custom_order", format!("mesh {i}: the saved file has its custom data in another order"));
        }
    }
}
pub fn check_set(specs: &[MeshSpec], loaded: &[(tmf::TMFMesh, String)], prec: &PrecSpec) {
    if specs.len() != loaded.len() {
        fail("mesh_count", format!("{} meshes saved, {} loaded", specs.len(), loaded.len()));
    }
    for (i, (a, (m, n))) in specs.iter().zip(loaded).enumerate() {
        let b = MeshSpec::from_lib(m, n);
        if let Err((class, msg)) = compare_saved(a, &b, prec) {
            fail(class, format!("mesh {i}: {msg}"));
        }
    }
}

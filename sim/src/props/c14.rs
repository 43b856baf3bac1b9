use super::super::{engine::*, io::*, model::*, obj, ops::*};
use simcore::{log, sched, src::Src};
use std::sync::Arc;
use tmf::TMFMesh;
pub const PROP: Prop = Prop {
    id: "C14",
    run,
    steps: 20_000_000,
    quick: 60000,
    rule: "a case is a drawn set of meshes with the sinks, sink failures and deliveries it is exported through and imported back from; non-trivial when the set has at least one face",
};
fn export(m: &[(TMFMesh, String)], one: bool, sink: &mut Sink) -> Result<(), String> {
    match export_raw(m, one, sink) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(format!("{:?}", e.kind())),
        Err(p) => fail("panic", format!("export panicked: {}", p.msg)),
    }
}
fn b3(v: &[f32; 3]) -> [u32; 3] {
    v.map(|x| x.to_bits())
}
/// The text says what the meshes are.
fn check_text(specs: &[MeshSpec], text: &[u8]) {
    let objs = match obj::read(text) {
        Ok(o) => o,
        Err(e) => fail("text", format!("the exported text can't be read: {e}")),
    };
    if objs.len() != specs.len() {
        fail("objects", format!("{} meshes exported, the text has {} objects", specs.len(), objs.len()));
    }
    let all_v: Vec<_> = objs.iter().flat_map(|o| o.v.iter().copied()).collect();
    let all_n: Vec<_> = objs.iter().flat_map(|o| o.n.iter().copied()).collect();
    let all_uv: Vec<_> = objs.iter().flat_map(|o| o.uv.iter().copied()).collect();
    for (k, (o, m)) in objs.iter().zip(specs).enumerate() {
        if o.name != m.name {
            fail("object_name", format!("mesh {k} is called {:?}, in the text {:?}", m.name, o.name));
        }
        let v: Vec<_> = m.v.iter().flatten().map(b3).collect();
        let n: Vec<_> = m.n.iter().flatten().map(b3).collect();
        let uv: Vec<_> = m.uv.iter().flatten().map(|u| u.map(|x| x.to_bits())).collect();
        if v != o.v || n != o.n || uv != o.uv {
            fail("coordinates", format!("mesh {k}: {} vertices, {} normals, {} UVs; the text has {}, {}, {} or other values", v.len(), n.len(), uv.len(), o.v.len(), o.n.len(), o.uv.len()));
        }
        let t = m.tri[0].as_deref().unwrap_or(&[]);
        if o.corners.len() != t.len() || o.face_sizes.iter().any(|f| *f != 3) {
            fail("faces", format!("mesh {k}: {} corners, the text has {}", t.len(), o.corners.len()));
        }
        for (i, c) in o.corners.iter().enumerate() {
            cnt("corners");
            if all_v.get(c.0) != v.get(t[i] as usize) {
                fail("corner", format!("mesh {k} corner {i}: vertex {:?} in the text, {:?} in the mesh", all_v.get(c.0), v.get(t[i] as usize)));
            }
            let want_n = m.tri[1].as_ref().filter(|_| m.n.is_some()).map(|t| n[t[i] as usize]);
            let have_n = c.2.map(|x| all_n.get(x).copied().unwrap_or([u32::MAX; 3]));
            if want_n != have_n {
                fail("corner", format!("mesh {k} corner {i}: normal {have_n:?} in the text, {want_n:?} in the mesh"));
            }
            let want_u = m.tri[2].as_ref().filter(|_| m.uv.is_some()).map(|t| uv[t[i] as usize]);
            let have_u = c.1.map(|x| all_uv.get(x).copied().unwrap_or([u32::MAX; 2]));
            if want_u != have_u {
                fail("corner", format!("mesh {k} corner {i}: UV {have_u:?} in the text, {want_u:?} in the mesh"));
            }
        }
    }
}
fn run(s: &mut Src) {
    prelude(s);
    let g = if s.chance(2, 3) { Gen::small() } else { Gen { long_names: false, huge: 500, ..Gen::normal() } };
    // The call for a single mesh, if that is what the set has.
    let one = s.chance(1, 2);
    let mut specs = gen_set(s, &g, 5);
    for m in specs.iter_mut() {
        // A name is one line of text.
        m.name = m.name.replace(['\n', '\r'], "_");
        // Text has faces of corners: normal or UV indices without vertex indices can't be said in it.
        if m.tri[0].is_none() {
            m.tri[1] = None;
            m.tri[2] = None;
        }
    }
    let back = s.chance(1, 2);
    if back {
        // Only what the importer takes: faces with all three indices, names without blanks.
        specs.retain(|m| m.v.is_some() && m.n.is_some() && m.uv.is_some() && m.tri[0].as_ref().is_some_and(|t| !t.is_empty()) && m.tri[1].is_some() && m.tri[2].is_some());
        for m in specs.iter_mut() {
            m.name = m.name.replace([' ', '/', '\t'], "_");
        }
    }
    let meshes = Arc::new(build_all(&specs));
    let mut sink = Sink::plain();
    if let Err(e) = export(&meshes, one, &mut sink) {
        fail("export_error", format!("a valid set of meshes can't be exported: {e}"));
    }
    let want = Arc::new(sink.accepted);
    log!("text of {} bytes", want.len());
    check_text(&specs, &want);
    if specs.iter().any(|m| m.tri[0].as_ref().is_some_and(|t| !t.is_empty())) {
        nontrivial();
    }
    if back && !specs.is_empty() {
        let d = Delivery::draw_for(s, want.len());
        let got = match import_raw(&mut Source::new(&want, &d, None), false) {
            Ok(Ok(m)) => m,
            Ok(Err(e)) => fail("import_back", format!("the exported text doesn't import: {e:?}")),
            Err(p) => fail("panic", format!("import panicked: {}", p.msg)),
        };
        let objects: Vec<obj::Object> = specs
            .iter()
            .map(|m| obj::Object {
                name: m.name.clone(),
                faces: (0..m.tri[0].as_ref().unwrap().len() / 3)
                    .map(|f| {
                        (0..3)
                            .map(|c| {
                                let i = |k: usize| m.tri[k].as_ref().unwrap()[f * 3 + c] as usize;
                                (b3(&m.v.as_ref().unwrap()[i(0)]), Some(m.uv.as_ref().unwrap()[i(2)].map(|x| x.to_bits())), b3(&m.n.as_ref().unwrap()[i(1)]))
                            })
                            .collect()
                    })
                    .collect(),
            })
            .collect();
        obj::check_import(&objects, &got);
    }
    let plans: Vec<_> = (0..s.range(1, 6))
        .map(|_| {
            s.span(|s| {
                let d = Delivery::draw_for(s, want.len());
                let fault = if s.chance(2, 3) {
                    let at = match s.below(4) {
                        0 => At::Flush(s.below(2)),
                        1 => At::Byte((want.len() as u64).saturating_sub(1 + s.small(40))),
                        _ => Fault::draw_at(s, want.len()),
                    };
                    let what = if s.chance(1, 5) && !matches!(at, At::Flush(_)) { What::Zero } else { Fault::draw_kind(s) };
                    Some(Fault { at, what, sticky: s.chance(1, 2) })
                } else {
                    None
                };
                (d, fault)
            })
        })
        .collect();
    let threads = s.chance(1, 5);
    if threads {
        draw_policy(s);
    }
    let each = move |meshes: &[(TMFMesh, String)], want: &[u8], d: &Delivery, fault: Option<Fault>| {
        let mut sink = Sink::new(d, fault);
        let r = export(meshes, one, &mut sink);
        let fired = sink.stats.fired();
        log!("export with {fault:?}: {r:?}, {} bytes, fault met: {fired}", sink.accepted.len());
        if !want.starts_with(&sink.accepted) {
            let i = sink.accepted.iter().zip(want).position(|(a, b)| a != b).unwrap_or(want.len());
            fail("not_prefix", format!("byte {i} handed over is not that of the complete text ({fault:?}, {d:?})"));
        }
        if fired {
            let kind = match fault.unwrap().what {
                What::Kind(k) => format!("{:?}", kind(k)),
                _ => "WriteZero".into(),
            };
            match r {
                Ok(()) => fail("success", format!("the sink failed after {} of {} bytes, the export reported success ({fault:?})", sink.accepted.len(), want.len())),
                Err(e) if e != kind => fail("kind", format!("the sink failed with {kind}, the export reported {e} ({fault:?})")),
                _ => {}
            }
        } else {
            if let Err(e) = r {
                fail("export_error", format!("export failed without a fault: {e}"));
            }
            if sink.accepted != want {
                fail("incomplete", format!("success reported with {} of {} bytes handed over", sink.accepted.len(), want.len()));
            }
        }
    };
    if threads {
        let hs: Vec<_> = plans
            .into_iter()
            .map(|(d, f)| {
                cnt("threads");
                let (m, w) = (meshes.clone(), want.clone());
                sched::spawn(move || each(&m, &w, &d, f))
            })
            .collect();
        for h in hs {
            joined(h);
        }
    } else {
        for (d, f) in &plans {
            each(&meshes, &want, d, *f);
        }
    }
}

use super::super::{engine::*, io::*, load::*, model::diff_all, obj, ops::*};
use simcore::{log, sched, src::Src};
use std::sync::Arc;
pub const PROP: Prop = Prop {
    id: "C13",
    run,
    steps: 20_000_000,
    quick: 30000,
    rule: "a case is a drawn .obj text, intact or damaged, with the deliveries and stream failures its imports meet; non-trivial when the text has at least one face or is damaged",
};
fn import(text: &Arc<Vec<u8>>, d: &Delivery, f: Option<Fault>, one: bool) -> (Out, Source) {
    let mut src = Source::new(text, d, f);
    let o = import_out(import_raw(&mut src, one));
    log!("import: {}", o.short());
    (o, src)
}
fn run(s: &mut Src) {
    prelude(s);
    let size = *s.pick(&[4, 20, 80]);
    let t = obj::gen_text(s, size, cfg!(feature = "full"));
    let mut text = t.text;
    let damaged = s.chance(1, 3);
    if damaged {
        obj::damage(s, &mut text);
    }
    let text = Arc::new(text);
    let faces = t.objects.iter().any(|o| !o.faces.is_empty());
    if faces || damaged {
        nontrivial();
    }
    let (want, _) = import(&text, &Delivery::FULL, None, false);
    if let Out::Panic(p) = &want {
        fail("panic", format!("import of {} text panicked: {p}", if damaged { "damaged" } else { "valid" }));
    }
    if !damaged {
        match import_raw(&mut Source::plain(&text), false) {
            Ok(Ok(m)) => obj::check_import(&t.objects, &m),
            Ok(Err(e)) => fail("import_error", format!("a valid text doesn't import: {e:?}")),
            Err(p) => fail("panic", format!("import panicked: {}", p.msg)),
        }
    }
    // What asking for a single mesh gives, is the same import.
    let (want_one, _) = import(&text, &Delivery::FULL, None, true);
    match (&want, &want_one) {
        (Out::Meshes(m), Out::Meshes(o)) if m.len() == 1 => {
            if let Some(x) = diff_all(m, o) {
                fail("one", format!("all objects, then the single one: {x}"));
            }
        }
        (Out::Meshes(m), Out::Meshes(_)) => fail("one", format!("{} objects, but asking for a single one succeeds", m.len())),
        (_, Out::Panic(p)) => fail("panic", format!("import of a single object panicked: {p}")),
        (Out::Meshes(m), o) if m.len() == 1 => fail("one", format!("one object, but asking for a single one: {}", o.short())),
        (Out::Error(a), Out::Meshes(_)) => fail("one", format!("fails with {a}, but asking for a single object succeeds")),
        _ => {}
    }
    let threads = s.chance(1, 4);
    let plans: Vec<_> = (0..s.range(1, 6))
        .map(|_| {
            s.span(|s| {
                let d = Delivery::draw_for(s, text.len());
                let f = gen_fault(s, text.len(), 2, false);
                (d, f, s.chance(1, 6))
            })
        })
        .collect();
    if threads {
        draw_policy(s);
    }
    let each = move |text: &Arc<Vec<u8>>, d: &Delivery, f: Option<Fault>, one: bool, want: &Out| {
        let (got, src) = import(text, d, f, one);
        let fault = f.filter(|_| src.stats.fired());
        match fault.map(|f| f.what) {
            None => {
                if let Some(x) = want.differs(&got) {
                    fail("delivery", format!("import through {d:?}: {x}"));
                }
            }
            Some(What::Kind(k)) => {
                let kind = format!("IO({:?})", kind(k));
                // A malformed line before the failure may be what is reported.
                let earlier = damaged && matches!(&got, Out::Error(_));
                if got != Out::Error(kind.clone()) && !earlier {
                    fail("stream_failure", format!("the stream failed with {kind} after {} of {} bytes, the import: {} ({f:?})", src.pos(), text.len(), got.short()));
                }
            }
            Some(_) => {
                // The text ended early: as if it were that text.
                let cut = Arc::new(text[..src.pos()].to_vec());
                let (w, _) = import(&cut, &Delivery::FULL, None, one);
                if let Some(x) = w.differs(&got) {
                    fail("delivery", format!("import of the first {} bytes, whole and in pieces: {x}", cut.len()));
                }
            }
        }
        if let Out::Panic(p) = &got {
            fail("panic", format!("import panicked: {p} ({f:?})"));
        }
    };
    if threads {
        let mut hs = Vec::new();
        for (d, f, one) in plans {
            cnt("threads");
            let (text, want) = (text.clone(), if one { want_one.clone() } else { want.clone() });
            
            hs.push(sched::spawn(move || each(&text, &d, f, one, &want)));
        }
        for h in hs {
            joined(h);
        }
    } else {
        for (d, f, one) in &plans {
            each(&text, d, *f, *one, if *one { &want_one } else { &want });
        }
    }
}


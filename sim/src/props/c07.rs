use super::super::{engine::*, files, fmt, io::*, load::*, model::*};
use simcore::{log, src::Src};
use std::sync::Arc;
pub const PROP: Prop = Prop {
    id: "C07",
    run,
    steps: 20_000_000,
    quick: 50000,
    rule: "a case is a stream of one to four drawn files and what follows them, with the way each is loaded and the delivery; every case is non-trivial",
};
fn run(s: &mut Src) {
    draw_workers(s);
    let g = if s.chance(2, 3) { Gen::small() } else { Gen::normal() };
    let mut stream = Vec::new();
    let mut plans = Vec::new();
    for k in 0..s.range(1, 4) {
        s.span(|s| {
            let f = match s.weighted(&[20, 1]) {
                0 => files::gen_file(s, &g, 3),
                _ => must_save(&[], &PrecSpec::normal(), "an empty set of meshes"),
            };
            let n = match fmt::parse(&f) {
                Ok(p) => p.meshes.len(),
                Err(e) => fail("format", format!("a saved file is not well-formed: {e}")),
            };
            let api = *s.pick(&APIS);
            stream.extend_from_slice(&f);
            log!("file {k}: {} bytes, {n} meshes, {api:?}", f.len());
            plans.push((f, n, api));
        });
    }
    let ends: Vec<usize> = plans
        .iter()
        .scan(0, |a, (f, _, _)| {
            *a += f.len();
            Some(*a)
        })
        .collect();
    let total = stream.len();
    let tail = s.weighted(&[2, 3, 2, 2]);
    let api_t = *s.pick(&APIS);
    let mut r = simcore::rng::Rng::new(s.seed());
    let junk = |r: &mut simcore::rng::Rng, n: u64| (0..n).map(|_| r.next() as u8).collect::<Vec<u8>>();
    match tail {
        0 => {}
        1 => {
            // No header.
            let n = if s.chance(1, 3) { s.range(3, 14) } else { 15 + s.small(200) };
            let mut j = junk(&mut r, n);
            let known: [&[u8]; 12] = [
                b"\xEF\xBB\xBFTMF", b"\x1F\x8B\x08", b"PK\x03\x04", b"\nTMF", b" TMF", b"\0TMF", b"TTMF", b"TM", b"# obj", b"tmf\0", b"Tmf", b"FMT\0",
            ];
            match s.below(12) {
                6.. => {
                    // What other files start with, or a header that is a little late.
                    let k = s.pick(&known);
                    let w = k.len().min(j.len());
                    j[..w].copy_from_slice(&k[..w]);
                    if *k == b"TM" && j[2] == b'F' {
                        j[2] = b'f';
                    }
                    if k.ends_with(b"TMF") && s.chance(2, 3) {
                        // What follows would be a file.
                        j.truncate(w);
                        j.extend_from_slice(&plans[0].0[3..]);
                    }
                }
                0 => j[..3].copy_from_slice(b"TMG"),
                1 => j[..3].copy_from_slice(b"tmf"),
                2 => j[..3].copy_from_slice(&[0, 0, 0]),
                3 => j[..3].copy_from_slice(b"TNF"),
                4 => j[..3].copy_from_slice(b"FMT"),
                _ => j[0] = if j[0] == b'T' { b'U' } else { j[0] },
            }
            stream.extend(j);
        }
        2 => {
            // Needs a newer reader.
            let min = *s.pick(&[[0u16, 3], [1, 0], [0, 65535], [65535, 2], [1, 1], [2, 300], [0, 259]]);
            stream.extend(b"TMF");
            for v in [min[0].max(s.below(3) as u16), min[1], min[0], min[1]] {
                stream.extend(v.to_le_bytes());
            }
            let j = junk(&mut r, 4 + s.small(200));
            stream.extend(j);
        }
        _ => {
            let n = 1 + s.small(30);
            let j = junk(&mut r, n);
            stream.extend(j);
        }
    }
    let want: Vec<Out> = plans.iter().map(|(f, _, _)| load_plain(f)).collect();
    let stream = Arc::new(stream);
    let d = Delivery::draw_for(s, stream.len());
    let mut src = Source::new(&stream, &d, None);
    if s.chance(1, 2) {
        draw_policy(s);
    }
    for (k, (_, n, api)) in plans.iter().enumerate() {
        cnt("concat_files");
        let got = load(*api, &mut src);
        let single = matches!(api, Api::SyncOne | Api::AsyncOne);
        if single && *n != 1 {
            let e = if *n == 0 { "NoMeshes" } else { "TooManyMeshes" };
            if got != Out::Error(e.into()) {
                fail("one", format!("file {k} holds {n} meshes; asked for a single one: {}", got.short()));
            }
        } else {
            if let Some(x) = want[k].differs(&got) {
                fail("result", format!("file {k} on its own and in the stream: {x}"));
            }
            if let Out::Meshes(m) = &got {
                if m.len() != *n {
                    fail("result", format!("file {k} says it holds {n} meshes, {} loaded", m.len()));
                }
            }
        }
        if src.pos() != ends[k] {
            fail("position", format!("file {k} ends at byte {} of the stream, the {api:?} load ({}) stopped at {}", ends[k], got.short(), src.pos()));
        }
        nontrivial();
    }
    if tail != 3 {
        let got = load(api_t, &mut src);
        let want = match tail {
            0 => "IO(UnexpectedEof)",
            1 => "NotTMFFile",
            _ => "NewerVersionRequired",
        };
        if got != Out::Error(want.into()) {
            fail("refusal", format!("what follows the files should be refused with {want}: {}", got.short()));
        }
        if src.pos() > total + 15 {
            fail("position", format!("{} bytes were taken where only a header should be looked at", src.pos() - total));
        }
    }
}

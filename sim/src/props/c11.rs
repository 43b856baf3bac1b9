use super::super::{engine::*, files, io::*, load::*, model::*, ops::*};
use simcore::{alloc, log, sched, src::Src};
use std::sync::{atomic::Ordering::Relaxed, Arc};
use std::task::Poll;
use tmf::TMFMesh;
pub const PROP: Prop = Prop {
    id: "C11",
    run,
    steps: 20_000_000,
    quick: 12000,
    rule: "a case is a drawn file, the way its load is given up (future dropped after so many polls, stream panic, stream failure), repeated, with neighbouring loads and the schedule; non-trivial when at least one load was really given up before its end",
};
const ROUNDS: usize = 14;
/// The file with its first mesh called a number.
fn named(bytes: &[u8], k: usize) -> Arc<Vec<u8>> {
    let n = u16::from_le_bytes([bytes[15], bytes[16]]) as usize;
    let mut v = bytes[..15].to_vec();
    v.extend(60u16.to_le_bytes());
    v.extend(format!("{k:060}").into_bytes());
    v.extend(&bytes[17 + n..]);
    Arc::new(v)
}
/// The result as if it had been called 0.
fn unnamed(got: Out, k: usize) -> Out {
    match got {
        Out::Meshes(mut m) => {
            if m[0].name != format!("{k:060}") {
                fail("result", format!("a mesh named {k:060} was loaded as {:?}", m[0].name));
            }
            m[0].name = format!("{:060}", 0);
            Out::Meshes(m)
        }
        o => o,
    }
}
fn run(s: &mut Src) {
    draw_workers(s);
    // Now and then a file far bigger than what the process may keep for itself.
    let big = s.chance(1, 60);
    let g = if big { Gen { size: 3000, ..Gen::small() } } else { Gen { size: 30, ..Gen::small() } };
    let mut bytes = files::gen_file(s, &g, 3);
    // A different name every time: what is kept per name would grow.
    let fresh = s.chance(1, 3) && bytes[11..15] != [0; 4];
    if fresh {
        bytes = named(&bytes, 0);
    }
    let other = files::gen_any_file(s, &Gen::small(), 2);
    let kind = s.weighted(&[4, 3, 2]);
    let polls = s.small(6);
    let api = *s.pick(&APIS);
    let asynchronous = matches!(api, Api::Async | Api::AsyncOne);
    let d = if s.chance(1, 2) { Delivery::FULL } else { Delivery::draw_for(s, bytes.len()) };
    let at = Fault::draw_at(s, bytes.len());
    let sticky = s.chance(1, 2);
    let kind_of_error = Fault::draw_kind(s);
    // Now and then so often that anything counted or kept per load runs out.
    let rounds = match s.weighted(&[2000, 20, 1]) {
        0 => ROUNDS,
        1 => s.range(60, 300) as usize,
        _ => s.range(1000, 2200) as usize,
    };
    let late_drop = s.chance(1, 2);
    let mut near = Vec::new();
    for _ in 0..if rounds > ROUNDS { s.below(2) } else { s.below(3) } {
        near.push(s.span(|s| (*s.pick(&APIS), if s.chance(1, 2) { Delivery::FULL } else { Delivery::draw_for(s, other.len()) }, s.seed())));
    }
    let want: Vec<Out> = APIS.iter().map(|a| load(*a, &mut Source::plain(&bytes))).collect();
    let want_near: Vec<Out> = near.iter().map(|(a, _, _)| load(*a, &mut Source::plain(&other))).collect();
    log!("giving up kind {kind}, {api:?}, polls {polls}, {at:?}, {d:?}, {} neighbours", near.len());
    let text_pool = if rounds == ROUNDS && s.chance(1, 6) { Some(gen_pool(s, &Gen::small())) } else { None };
    // Without panics: the compiler leaks a result when dropping what is left of the frame panics.
    let extra = text_pool.as_ref().map(|p| gen_op(s, p, false));
    let extra_want = extra.as_ref().map(|o| o.run());
    draw_policy(s);
    let start = alloc::live();
    let mut live = Vec::new();
    for round in 0..rounds {
        cnt("leak_rounds");
        let hs: Vec<_> = near
            .iter()
            .map(|(a, d, seed)| {
                cnt("threads");
                let (a, d, seed, other) = (*a, d.clone(), *seed, other.clone());
                sched::spawn(move || {
                    sched::set_entropy(seed);
                    load(a, &mut Source::new(&other, &d, None))
                })
            })
            .collect();
        let fault = match kind {
            0 => None,
            1 => Some(Fault { at, what: What::Panic, sticky }),
            _ => Some(Fault { at, what: kind_of_error, sticky }),
        };
        let bytes = if fresh { named(&bytes, round + 1) } else { bytes.clone() };
        let same = |got: Out| if fresh { unnamed(got, round + 1) } else { got };
        let mut src = Source::new(&bytes, &d, fault);
        let stats = src.stats.clone();
        if kind == 0 && asynchronous {
            cnt("future_dropped");
            let one = api == Api::AsyncOne;
            let mut drv = Driver::new(async move {
                if one {
                    TMFMesh::read_tmf_one_async(&mut src).await.map(|m| vec![m])
                } else {
                    TMFMesh::read_tmf_async(&mut src).await
                }
            });
            let mut done = None;
            for k in 0..polls {
                match drv.poll() {
                    Ok(Poll::Ready(v)) => {
                        done = Some(v);
                        break;
                    }
                    Ok(Poll::Pending) => {
                        if k + 1 < polls || late_drop {
                            drv.wait();
                        }
                    }
                    Err(p) => fail("panic", format!("round {round}: polling the load panicked: {}", p.msg)),
                }
            }
            if done.is_none() {
                nontrivial();
                cnt("load_abandoned");
            }
            if let Err(p) = drv.give_up() {
                fail("panic", format!("round {round}: dropping the load panicked: {}", p.msg));
            }
            if let Some(v) = done {
                let got = same(classify(Ok(v)));
                if let Some(x) = want[APIS.iter().position(|b| *b == api).unwrap()].differs(&got) {
                    fail("result", format!("round {round}: a load that finished in time: {x}"));
                }
            }
        } else {
            let got = same(load(api, &mut src));
            if stats.fired() {
                nontrivial();
                cnt("load_abandoned");
                if matches!(got, Out::Meshes(_) | Out::Panic(_)) {
                    fail("abandon", format!("round {round}: the stream gave out, the load: {}", got.short()));
                }
            } else if let Some(x) = want[APIS.iter().position(|b| *b == api).unwrap()].differs(&got) {
                fail("result", format!("round {round}: a load that met no failure: {x}"));
            }
            drop(src);
        }
        drop(bytes);
        let near_got: Vec<Out> = hs.into_iter().map(joined).collect();
        for (k, got) in near_got.iter().enumerate() {
            if let Some(x) = want_near[k].differs(got) {
                fail("disturbed", format!("round {round}: load {k} next to an abandoned one: {x}"));
            }
        }
        drop(near_got);
        if let (Some(o), Some(w)) = (&extra, &extra_want) {
            if let Some(x) = w.differs(&o.run()) {
                fail("disturbed", format!("round {round}: {} after an abandoned load: {x}", o.describe()));
            }
        }
        sched::quiesce();
        if !stats.dropped.load(Relaxed) {
            fail("stream_kept", format!("round {round}: the abandoned load still holds its stream once everything is idle"));
        }
        #[cfg(feature = "full")]
        {
            let (_, tasks) = tokio::task::sim_stats();
            if tasks > 0 {
                fail("task_kept", format!("round {round}: {tasks} tasks are left of the abandoned load once everything is idle"));
            }
        }
        live.push(alloc::live());
    }
    no_preemption();
    log!("bytes in use after each round: {:?}", &live[..live.len().min(40)]);
    let kept = live.iter().min().unwrap().saturating_sub(start);
    if kept > 1024 && kept > bytes.len() as u64 / 8 {
        fail("memory_kept", format!("abandoned loads of {} bytes left {kept} bytes of memory in use: {:?} from {start}", bytes.len(), &live[..live.len().min(40)]));
    }
    let tail = &live[4..];
    let ups = tail.windows(2).filter(|w| w[1] > w[0]).count();
    let downs = tail.windows(2).filter(|w| w[1] < w[0]).count();
    if ups >= 3 && downs == 0 {
        fail("memory_kept", format!("memory in use grows with every abandoned load: {:?}", &live[..live.len().min(40)]));
    }
    for (a, w) in APIS.iter().zip(&want) {
        let got = load(*a, &mut Source::plain(&bytes));
        if let Some(x) = w.differs(&got) {
            fail("later", format!("{a:?} load after {rounds} abandoned ones: {x}"));
        }
    }
}

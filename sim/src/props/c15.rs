use super::super::{engine::*, fmt::BitW, io::*};
use simcore::rng::Rng;
use simcore::{log, src::Src};
use std::sync::Arc;
use tmf::unaligned_rw::*;
pub const PROP: Prop = Prop {
    id: "C15",
    run,
    steps: 20_000_000,
    quick: 80000,
    rule: "a case is a drawn sequence of groups of values with their widths, the sinks and sources they pass through and the failures those have; non-trivial when at least one value of a width above zero was written",
};
#[derive(Clone, Copy, Debug)]
enum Group {
    Bit(bool),
    One(u8, u64),
    Pair(u8, u64, u8, u64),
    Two(u8, u64, u64),
    Three(u8, u64, u64, u64),
}
impl Group {
    fn parts(&self) -> Vec<(u8, u64)> {
        match *self {
            Group::Bit(b) => vec![(1, b as u64)],
            Group::One(w, v) => vec![(w, v)],
            Group::Pair(w, v, x, y) => vec![(w, v), (x, y)],
            Group::Two(w, a, b) => vec![(w, a), (w, b)],
            Group::Three(w, a, b, c) => vec![(w, a), (w, b), (w, c)],
        }
    }
}
fn value(r: &mut Rng, w: u8) -> u64 {
    if w == 0 {
        return 0;
    }
    let m = u64::MAX >> (64 - w);
    match r.below(6) {
        0 => 0,
        1 => m,
        2 => 1 << (w - 1),
        _ => r.next() & m,
    }
}
fn draw(s: &mut Src) -> Vec<Group> {
    s.span(|s| {
        let n = match s.weighted(&[330, 30, 1]) {
            0 => s.small(200),
            1 => s.range(500, 8000),
            _ => s.range(20_000, 60_000),
        };
        let style = s.weighted(&[3, 2, 2, 2]);
        let fixed = s.range(0, 63) as u8;
        let top = s.range(1, 63);
        // Now and then just as much as fills buffers of the usual sizes, or a little more or less.
        let fill = if s.chance(1, 12) { Some((s.pick(&[1u64, 1, 2, 4, 8]) * 8192 * 8 + s.below(34)).saturating_sub(17)) } else { None };
        let mut r = Rng::new(s.seed());
        let mut groups: Vec<Group> = (0..n)
            .map(|_| {
                let mut width = || match style {
                    0 => r.below(64) as u8,
                    1 => fixed,
                    2 => r.below(top + 1) as u8,
                    _ => [0, 1, 2, 7, 8, 9, 15, 16, 17, 20, 21, 22, 30, 31, 32, 33, 42, 43, 47, 48, 62, 63][r.below(22) as usize],
                };
                let w = width();
                let x = width();
                match r.below(6) {
                    0 => Group::Bit(r.below(2) == 1),
                    1 | 2 => Group::One(w, value(&mut r, w)),
                    3 => Group::Pair(w, value(&mut r, w), x, value(&mut r, x)),
                    4 => Group::Two(w, value(&mut r, w), value(&mut r, w)),
                    _ => Group::Three(w, value(&mut r, w), value(&mut r, w), value(&mut r, w)),
                }
            })
            .collect();
        if let Some(bits) = fill {
            let mut have = 0;
            groups.retain(|g| {
                let b: u64 = g.parts().iter().map(|p| p.0 as u64).sum();
                let fits = have + b <= bits;
                have += if fits { b } else { 0 };
                fits
            });
            while have < bits {
                let w = (bits - have).min(63) as u8;
                groups.push(Group::One(w, value(&mut r, w)));
                have += w as u64;
            }
        }
        groups
    })
}
fn io_lib<R>(what: &str, f: impl FnOnce() -> std::io::Result<R>) -> std::io::Result<R> {
    calm(what, f)
}
fn write(groups: &[Group], d: &Delivery, fault: Option<Fault>, flush: bool) -> (std::io::Result<()>, Sink, bool) {
    let mut sink = Sink::new(d, fault);
    let stats = sink.stats.clone();
    let r = {
        let mut w = calm("making a writer", || UnalignedWriter::new(&mut sink));
        let r = (|| {
            for g in groups {
                match g {
                    Group::Bit(b) => io_lib("writing a bit", || w.write_bit(*b))?,
                    g => {
                        for (b, v) in g.parts() {
                            io_lib("writing", || w.write_unaligned(UnalignedRWMode::precision_bits(b), v))?;
                        }
                    }
                }
            }
            if flush {
                io_lib("flushing", || w.flush())?;
            }
            Ok(())
        })();
        // Dropping hands over what is left; a failure then has nobody to be told to.
        let fired = stats.fired();
        calm("dropping the writer", || drop(w));
        (r, fired)
    };
    (r.0, sink, r.1)
}
/// Reads groups until the first error; how many were right, and the error.
fn read(groups: &[Group], src: Source) -> (usize, Option<std::io::Error>, std::sync::Arc<Stats>) {
    let stats = src.stats.clone();
    let mut r = calm("making a reader", || UnalignedReader::new(src));
    let m = UnalignedRWMode::precision_bits;
    for (k, g) in groups.iter().enumerate() {
        let got: std::io::Result<Vec<u64>> = match *g {
            Group::Bit(_) => io_lib("reading a bit", || r.read_bit()).map(|b| vec![b as u64]),
            Group::One(w, _) => io_lib("reading", || r.read_unaligned(m(w))).map(|a| vec![a]),
            Group::Pair(w, _, x, _) => io_lib("reading a pair", || r.read_pair_unaligned(m(w), m(x))).map(|a| vec![a.0, a.1]),
            Group::Two(w, _, _) => io_lib("reading two", || r.read2_unaligned(m(w))).map(|a| vec![a.0, a.1]),
            Group::Three(w, ..) => io_lib("reading three", || r.read3_unaligned(m(w))).map(|a| vec![a.0, a.1, a.2]),
        };
        match got {
            Ok(v) => {
                cntn("bit_values", v.len() as u64);
                let want: Vec<u64> = g.parts().iter().map(|p| p.1).collect();
                if v != want {
                    fail("value", format!("group {k} {g:?} read back as {v:?}"));
                }
            }
            Err(e) => return (k, Some(e), stats),
        }
    }
    // Past the end: at most the padding of the last byte is left.
    if !stats.fired() {
        let mut left = 0;
        let e = loop {
            match io_lib("reading past the end", || r.read_bit()) {
                Ok(_) if left < 8 => left += 1,
                Ok(_) => fail("past_end", "more than the padding of the last byte can be read past the end"),
                Err(e) => break e,
            }
        };
        if left > 7 {
            fail("past_end", format!("{left} bits can be read past the end"));
        }
        if !stats.fired() && e.kind() != std::io::ErrorKind::UnexpectedEof {
            fail("past_end", format!("reading past the end fails with {:?}", e.kind()));
        }
        if !stats.fired() {
            for w in [1u8, 8, 9, 63] {
                if io_lib("reading past the end", || r.read_unaligned(m(w))).is_ok() {
                    fail("past_end", format!("{w} bits can be read past the end"));
                }
            }
        }
    }
    calm("dropping the reader", || drop(r));
    (groups.len(), None, stats)
}
fn run(s: &mut Src) {
    let groups = draw(s);
    let mut w = BitW::new();
    for (b, v) in groups.iter().flat_map(|g| g.parts()) {
        w.put(b as u32, v);
    }
    let want = Arc::new(w.out);
    log!("{} groups, {} bytes", groups.len(), want.len());
    for g in groups.iter().take(12) {
        log!("  {g:?}");
    }
    if groups.iter().flat_map(|g| g.parts()).any(|p| p.0 > 0) {
        nontrivial();
    }
    for _ in 0..s.range(1, 3) {
        s.span(|s| {
            let d = Delivery::draw_for(s, want.len());
            let fault = if s.chance(1, 2) {
                let at = match s.below(5) {
                    0 => At::Flush(s.below(2)),
                    1 => At::Byte((want.len() as u64).saturating_sub(1 + s.small(9))),
                    _ => Fault::draw_at(s, want.len()),
                };
                let what = if s.chance(1, 5) && !matches!(at, At::Flush(_)) { What::Zero } else { Fault::draw_kind(s) };
                Some(Fault { at, what, sticky: s.chance(1, 2) })
            } else {
                None
            };
            let flush = s.chance(3, 4);
            let (r, sink, fired) = write(&groups, &d, fault, flush);
            let late = sink.stats.fired() && !fired;
            log!("written with {fault:?}, flush {flush}: {r:?}, {} bytes, fault met: {fired}", sink.accepted.len());
            match &r {
                Ok(()) if fired && flush => fail("write_success", format!("the sink failed, writing and flushing reported success ({fault:?})")),
                Ok(()) if flush || !(fired || late) => {
                    if sink.accepted != *want {
                        let i = sink.accepted.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(sink.accepted.len().min(want.len()));
                        fail("bits", format!("{} bytes handed over where {} are right, first difference at byte {i}", sink.accepted.len(), want.len()));
                    }
                }
                Ok(()) => {}
                Err(e) if !fired => fail("write_error", format!("writing failed without a fault: {e:?}")),
                Err(e) => {
                    let kind = match fault.unwrap().what {
                        What::Kind(k) => kind(k),
                        _ => std::io::ErrorKind::WriteZero,
                    };
                    if e.kind() != kind {
                        fail("write_kind", format!("the sink failed with {kind:?}, reported as {:?}", e.kind()));
                    }
                }
            }
        });
    }
    for _ in 0..s.range(1, 3) {
        s.span(|s| {
            let d = Delivery::draw_for(s, want.len());
            let fault = gen_read_fault(s, want.len());
            let (n, e, stats) = read(&groups, Source::new(&want, &d, fault));
            log!("read with {fault:?}: {n} groups, {e:?}");
            match (e, stats.fired()) {
                (None, _) => {}
                (Some(e), false) => fail("read_error", format!("reading group {n} {:?} failed without a fault: {e:?}", groups[n])),
                (Some(e), true) => {
                    let kind = match fault.unwrap().what {
                        What::Kind(k) => kind(k),
                        _ => std::io::ErrorKind::UnexpectedEof,
                    };
                    if e.kind() != kind {
                        fail("read_kind", format!("the source failed with {kind:?}, reported as {:?}", e.kind()));
                    }
                }
            }
            // A failure in the middle of the data can't go unnoticed.
            if let Some(Fault { at: At::Byte(b), .. }) = fault {
                let mut bits = 0u64;
                let need = groups.iter().position(|g| {
                    bits += g.parts().iter().map(|p| p.0 as u64).sum::<u64>();
                    bits.div_ceil(8) > b
                });
                if let Some(k) = need {
                    if n > k {
                        fail("missed", format!("group {k} needs more than the {b} bytes delivered before the failure, {n} groups were read"));
                    }
                }
            }
        });
    }
}
fn gen_read_fault(s: &mut Src, len: usize) -> Option<Fault> {
    if s.chance(1, 2) {
        return None;
    }
    let at = if s.chance(1, 3) { At::Byte((len as u64).saturating_sub(s.small(12))) } else { Fault::draw_at(s, len) };
    let what = if s.chance(1, 4) { What::Zero } else { Fault::draw_kind(s) };
    Some(Fault { at, what, sticky: true })
}

//! Single calls of the library as values: drawn, run (alone or next to others), and compared.
use crate::engine::*;
use crate::files;
use crate::fmt;
use crate::io::*;
use crate::load::*;
use crate::model::*;
use crate::obj;
use simcore::{log, src::Src};
use std::io::Read;
use std::sync::Arc;
use tmf::TMFMesh;

#[derive(Clone)]
pub enum Op {
    Load { bytes: Arc<Vec<u8>>, d: Delivery, fault: Option<Fault>, api: Api },
    Save { meshes: Arc<Vec<(TMFMesh, String)>>, prec: PrecSpec, d: Delivery, fault: Option<Fault> },
    Import { text: Arc<Vec<u8>>, d: Delivery, fault: Option<Fault>, one: bool },
    Export { meshes: Arc<Vec<(TMFMesh, String)>>, d: Delivery, fault: Option<Fault>, one: bool },
    Optimise { meshes: Arc<Vec<(TMFMesh, String)>>, unify: bool },
    /// Verification, corner buffers and normalised normals.
    Inspect { meshes: Arc<Vec<(TMFMesh, String)>> },
}
#[derive(Clone, PartialEq)]
pub enum Ret {
    Load(Out),
    Sunk(Result<(), String>, Vec<u8>),
    Meshes(Vec<Snap>),
    Inspected(Vec<String>, Vec<Snap>),
}
impl Ret {
    pub fn short(&self) -> String {
        match self {
            Ret::Load(o) => o.short(),
            Ret::Sunk(r, b) => format!("{r:?} with {} bytes", b.len()),
            Ret::Meshes(m) => format!("{} meshes", m.len()),
            Ret::Inspected(t, _) => format!("{t:?}").chars().take(300).collect(),
        }
    }
    pub fn differs(&self, o: &Ret) -> Option<String> {
        match (self, o) {
            (Ret::Load(a), Ret::Load(b)) => a.differs(b),
            (Ret::Meshes(a), Ret::Meshes(b)) => diff_all(a, b),
            (Ret::Inspected(t, a), Ret::Inspected(u, b)) if t == u => diff_all(a, b),
            _ if self == o => None,
            _ => Some(format!("{}, then {}{}", self.short(), o.short(), first_byte(self, o))),
        }
    }
    pub fn panicked(&self) -> Option<&str> {
        match self {
            Ret::Load(Out::Panic(p)) => Some(p),
            Ret::Sunk(Err(e), _) if e.starts_with("panic") => Some(e),
            _ => None,
        }
    }
    pub fn failed(&self) -> bool {
        match self {
            Ret::Load(o) => !matches!(o, Out::Meshes(_)),
            Ret::Sunk(r, _) => r.is_err(),
            Ret::Meshes(_) | Ret::Inspected(..) => false,
        }
    }
}
fn first_byte(a: &Ret, b: &Ret) -> String {
    match (a, b) {
        (Ret::Sunk(_, a), Ret::Sunk(_, b)) => a.iter().zip(b).position(|(x, y)| x != y).map(|i| format!(", first different byte {i}")).unwrap_or_default(),
        _ => String::new(),
    }
}
pub fn import_raw<R: Read>(r: &mut R, one: bool) -> Result<std::io::Result<Vec<(TMFMesh, String)>>, Panicked> {
    cnt("imports");
    lib(|| if one { TMFMesh::read_from_obj_one(r).map(|m| vec![m]) } else { TMFMesh::read_from_obj(r) })
}
pub fn import_out(r: Result<std::io::Result<Vec<(TMFMesh, String)>>, Panicked>) -> Out {
    match r {
        Ok(Ok(v)) => Out::Meshes(snaps(&v)),
        Ok(Err(e)) => {
            cnt("load_errors");
            Out::Error(format!("IO({:?})", e.kind()))
        }
        Err(p) if p.injected => Out::StreamPanic,
        Err(p) => Out::Panic(p.msg),
    }
}
/// With `one` and a single mesh, through the call for one.
pub fn export_raw(meshes: &[(TMFMesh, String)], one: bool, sink: &mut Sink) -> Result<std::io::Result<()>, Panicked> {
    cnt("exports");
    match meshes {
        [(m, name)] if one => lib(|| m.write_obj_one(sink, name)),
        _ => lib(|| TMFMesh::write_obj(meshes, sink)),
    }
}
fn sunk(r: Result<Result<(), String>, Panicked>, sink: Sink) -> Ret {
    let r = match r {
        Ok(r) => r,
        Err(p) if p.injected => Err("stream panic".into()),
        Err(p) => Err(format!("panic {}", p.msg)),
    };
    // After a panic of the sink what a buffering layer still hands over while unwinding is not compared.
    let acc = if r == Err("stream panic".into()) { Vec::new() } else { sink.accepted.clone() };
    Ret::Sunk(r, acc)
}
impl Op {
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Load { .. } => "load",
            Op::Save { .. } => "save",
            Op::Import { .. } => "import",
            Op::Export { .. } => "export",
            Op::Optimise { .. } => "optimise",
            Op::Inspect { .. } => "inspect",
        }
    }
    pub fn run(&self) -> Ret {
        match self {
            Op::Load { bytes, d, fault, api } => Ret::Load(load(*api, &mut Source::new(bytes, d, *fault))),
            Op::Save { meshes, prec, d, fault } => {
                let mut k = Sink::new(d, *fault);
                let r = save_raw(meshes, prec, &mut k).map(|r| save_kind(&r));
                sunk(r, k)
            }
            Op::Import { text, d, fault, one } => Ret::Load(import_out(import_raw(&mut Source::new(text, d, *fault), *one))),
            Op::Export { meshes, d, fault, one } => {
                let mut k = Sink::new(d, *fault);
                let r = export_raw(meshes, *one, &mut k).map(|r| r.map_err(|e| format!("IO({:?})", e.kind())));
                sunk(r, k)
            }
            Op::Optimise { meshes, unify } => {
                cnt("optimises");
                let mut m: Vec<_> = (**meshes).clone();
                for (m, _) in m.iter_mut() {
                    calm("optimising a mesh", || if *unify { m.unify_index_data() } else { m.reorder_data() });
                }
                Ret::Meshes(snaps(&m))
            }
            Op::Inspect { meshes } => {
                cnt("inspections");
                let mut m: Vec<_> = (**meshes).clone();
                let text = m
                    .iter()
                    .map(|(m, _)| {
                        calm("inspecting a mesh", || {
                            let (v, n, uv) = (m.get_vertex_buffer(), m.get_normal_buffer(), m.get_uv_buffer());
                            let text = format!("{:?} {v:?} {n:?} {uv:?}", m.verify());
                            format!("{} {:x}", &text[..text.len().min(80)], text.bytes().fold(0u64, |h, b| simcore::rng::mix(h ^ b as u64)))
                        })
                    })
                    .collect();
                for (m, _) in m.iter_mut() {
                    calm("normalising a mesh", || m.normalize());
                }
                Ret::Inspected(text, snaps(&m))
            }
        }
    }
}
/// Things several operations may share.
pub struct Pool {
    /// With whether they are damaged: those get no stream faults, as which of two failures counts is open.
    pub files: Vec<(Arc<Vec<u8>>, bool)>,
    pub sets: Vec<(Arc<Vec<(TMFMesh, String)>>, PrecSpec)>,
    pub texts: Vec<(Arc<Vec<u8>>, bool)>,
    /// What the texts that are not damaged say.
    objects: Vec<(Arc<Vec<u8>>, Vec<obj::Object>)>,
    /// Sets whose meshes can all be optimised.
    pub optimisable: Vec<Arc<Vec<(TMFMesh, String)>>>,
    /// How often each kind of operation is drawn.
    weights: [u64; 6],
}
/// For meshes that are not what a property is about: small, now and then of thousands of elements, so that
/// whatever the library might remember of the largest thing it saw gets its chance.
pub fn pool_sizes(s: &mut Src) -> Gen {
    match s.weighted(&[36, 5, 1]) {
        0 => Gen::small(),
        1 => Gen { size: 60, big: true, ..Gen::small() },
        _ => Gen { size: 3000, ..Gen::small() },
    }
}
pub fn gen_pool(s: &mut Src, g: &Gen) -> Pool {
    s.span(|s| {
        let mut p = Pool { files: vec![], sets: vec![], texts: vec![], objects: vec![], optimisable: vec![], weights: [8, 4, 3, 2, 2, 1] };
        if s.chance(1, 2) {
            // Mostly operations of a few kinds.
            let w: Vec<u64> = (0..6).map(|_| *s.pick(&[0, 0, 1, 8])).collect();
            if w.iter().sum::<u64>() > 0 {
                p.weights.copy_from_slice(&w);
            }
        }
        for _ in 0..s.range(1, 3) {
            s.span(|s| {
                let f = files::gen_saved(s, g, 3);
                p.files.push((f.bytes.clone(), false));
                let o: Vec<_> = f.specs.iter().zip(&f.meshes).filter(|(s, _)| optimisable(s)).map(|(_, m)| m.clone()).collect();
                p.optimisable.push(Arc::new(o));
                p.sets.push((Arc::new(f.meshes), f.prec));
            });
        }
        for _ in 0..s.below(3) {
            let f = files::gen_maybe_damaged(s, g, 3);
            p.files.push(f);
        }
        if s.chance(2, 3) || p.weights == [0, 0, p.weights[2], 0, 0, 0] {
            let t = obj::gen_text(s, 10, cfg!(feature = "full"));
            p.texts.push((Arc::new(t.text.clone()), false));
            p.objects.push((p.texts[0].0.clone(), t.objects));
            if s.chance(1, 3) {
                let mut d = t.text;
                obj::damage(s, &mut d);
                p.texts.push((Arc::new(d), true));
            }
        }
        p
    })
}
impl Pool {
    /// By the reference decoder and the drawn data, not only by comparison: everything in the pool.
    pub fn check(&self) {
        for (bytes, _) in self.files.iter().filter(|f| !f.1) {
            let f = fmt::parse(bytes).unwrap_or_else(|e| fail("format", format!("a file of the pool is not well-formed: {e}")));
            crate::props::c17::check(bytes, &f, Api::Sync, &Delivery::FULL);
        }
        for (meshes, prec) in &self.sets {
            let bytes = Arc::new(must_save(meshes, prec, "a set of the pool"));
            let back = must_load(Api::Sync, &mut Source::plain(&bytes), "a set of the pool");
            for ((m, n), (b, o)) in meshes.iter().zip(&back) {
                if let Err((class, e)) = compare_saved(&MeshSpec::from_lib(m, n), &MeshSpec::from_lib(b, o), prec) {
                    fail(class, format!("mesh {n:?} of the pool: {e}"));
                }
            }
        }
        for (text, objects) in &self.objects {
            match import_raw(&mut Source::plain(text), false) {
                Ok(Ok(m)) => obj::check_import(objects, &m),
                Ok(Err(e)) => fail("import_error", format!("a text of the pool doesn't import: {e:?}")),
                Err(p) => fail("panic", format!("import panicked: {}", p.msg)),
            }
        }
    }
}
/// Now and then something else the process did before, which must not matter.
pub fn prelude(s: &mut Src) {
    if !s.chance(1, 8) {
        return;
    }
    s.span(|s| {
        cnt("preludes");
        let pool = gen_pool(s, &Gen::small());
        for o in s.list(1, 4, |s| gen_op(s, &pool, false)) {
            log!("before: {}", o.describe());
            if let Some(p) = o.run().panicked() {
                fail("panic", format!("{}: {p}", o.describe()));
            }
        }
    });
}
/// A stream failure now and then, its panic rarely.
pub fn gen_fault(s: &mut Src, len: usize, one_in: u64, panics: bool) -> Option<Fault> {
    if !s.chance(1, one_in) {
        return None;
    }
    let what = if panics && s.chance(1, 3) {
        What::Panic
    } else if s.chance(1, 5) {
        What::Zero
    } else {
        Fault::draw_kind(s)
    };
    Some(Fault { at: Fault::draw_at(s, len), what, sticky: s.chance(1, 2) })
}
pub fn gen_op(s: &mut Src, p: &Pool, panics: bool) -> Op {
    s.span(|s| {
        let mut kinds = p.weights;
        if p.texts.is_empty() {
            kinds[2] = 0;
        }
        let op = match s.weighted(&kinds) {
            1 => {
                let (meshes, prec) = s.pick(&p.sets).clone();
                let d = Delivery::draw(s);
                let fault = gen_fault(s, 1500, 3, panics);
                Op::Save { meshes, prec, d, fault }
            }
            2 if !p.texts.is_empty() => {
                let (text, damaged) = s.pick(&p.texts).clone();
                let d = Delivery::draw_for(s, text.len());
                let fault = gen_fault(s, text.len(), 4, panics).filter(|_| !damaged);
                Op::Import { text, d, fault, one: s.chance(1, 4) }
            }
            3 => {
                let (meshes, _) = s.pick(&p.sets).clone();
                let d = Delivery::draw(s);
                let fault = gen_fault(s, 3000, 4, panics);
                Op::Export { meshes, d, fault, one: s.chance(1, 2) }
            }
            5 => Op::Inspect { meshes: s.pick(&p.sets).0.clone() },
            4 => Op::Optimise { meshes: s.pick(&p.optimisable).clone(), unify: s.chance(1, 2) },
            _ => {
                let (bytes, damaged) = s.pick(&p.files).clone();
                let d = Delivery::draw_for(s, bytes.len());
                let fault = gen_fault(s, bytes.len(), 4, panics).filter(|_| !damaged);
                let api = *s.pick(&[Api::Sync, Api::Async, Api::Sync, Api::Async, Api::SyncOne, Api::AsyncOne]);
                Op::Load { bytes, d, fault, api }
            }
        };
        log!("planned: {}", op.describe());
        op
    })
}
impl Op {
    pub fn describe(&self) -> String {
        let f = |f: &Option<Fault>| f.map(|f| format!(" failing {f:?}")).unwrap_or_default();
        match self {
            Op::Load { bytes, d, fault, api } => format!("{api:?} load of {} bytes, {d:?}{}", bytes.len(), f(fault)),
            Op::Save { meshes, d, fault, .. } => format!("save of {} meshes, {d:?}{}", meshes.len(), f(fault)),
            Op::Import { text, d, fault, .. } => format!("import of {} bytes, {d:?}{}", text.len(), f(fault)),
            Op::Inspect { meshes } => format!("inspect {} meshes", meshes.len()),
            Op::Export { meshes, d, fault, .. } => format!("export of {} meshes, {d:?}{}", meshes.len(), f(fault)),
            Op::Optimise { meshes, unify } => format!("{} {} meshes", if *unify { "unify" } else { "reorder" }, meshes.len()),
        }
    }
}

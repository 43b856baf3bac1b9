//! Meshes as the harness knows them: plain values, a generator, conversion to and from the library's
//! meshes, and the comparisons properties are stated with.
use crate::engine::{calm, cnt, cntn, fail, lib};
use crate::fmt;
use simcore::rng::Rng;
use simcore::src::Src;
use tmf::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Cust {
    Index(Vec<u32>, usize),
    Int(Vec<u32>, usize),
    Float(Vec<f32>, f32),
    Color(Vec<[f32; 4]>, f32),
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct MeshSpec {
    pub name: String,
    pub v: Option<Vec<[f32; 3]>>,
    pub n: Option<Vec<[f32; 3]>>,
    pub uv: Option<Vec<[f32; 2]>>,
    pub t: Option<Vec<([f32; 3], f32)>>,
    /// Vertex, normal, UV, tangent triangles.
    pub tri: [Option<Vec<u32>>; 4],
    pub custom: Vec<(String, Cust)>,
}
fn v3(a: &[f32; 3]) -> Vector3 {
    (a[0], a[1], a[2])
}
pub fn a3(v: &Vector3) -> [f32; 3] {
    [v.0, v.1, v.2]
}
impl Cust {
    pub fn build(&self) -> CustomData {
        match self {
            Cust::Index(v, m) => CustomData::CustomIndex(v.clone().into(), *m),
            Cust::Int(v, m) => CustomData::CustomIntiger(v.clone().into(), *m),
            Cust::Float(v, p) => CustomData::CustomFloat(v.clone().into(), *p),
            Cust::Color(v, p) => CustomData::CustomColorRGBA(v.iter().map(|c| (c[0], c[1], c[2], c[3])).collect(), *p),
        }
    }
    pub fn from_lib(c: &CustomData) -> Cust {
        match c {
            CustomData::CustomIndex(v, m) => Cust::Index(v.to_vec(), *m),
            CustomData::CustomIntiger(v, m) => Cust::Int(v.to_vec(), *m),
            CustomData::CustomFloat(v, p) => Cust::Float(v.to_vec(), *p),
            CustomData::CustomColorRGBA(v, p) => Cust::Color(v.iter().map(|c| [c.0, c.1, c.2, c.3]).collect(), *p),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Cust::Index(v, _) | Cust::Int(v, _) => v.len(),
            Cust::Float(v, _) => v.len(),
            Cust::Color(v, _) => v.len(),
        }
    }
}
impl MeshSpec {
    pub fn build(&self) -> TMFMesh {
        let mut m = TMFMesh::empty();
        if let Some(a) = &self.v {
            m.set_vertices(a.iter().map(v3).collect::<Vec<_>>());
        }
        if let Some(a) = &self.n {
            m.set_normals(a.iter().map(v3).collect::<Vec<_>>());
        }
        if let Some(a) = &self.uv {
            m.set_uvs(a.iter().map(|u| (u[0], u[1])).collect::<Vec<_>>());
        }
        if let Some(a) = &self.t {
            m.set_tangents(a.iter().map(|t| (v3(&t.0), t.1)).collect::<Vec<_>>());
        }
        if let Some(a) = &self.tri[0] {
            m.set_vertex_triangles(a.clone());
        }
        if let Some(a) = &self.tri[1] {
            m.set_normal_triangles(a.clone());
        }
        if let Some(a) = &self.tri[2] {
            m.set_uv_triangles(a.clone());
        }
        if let Some(a) = &self.tri[3] {
            m.set_tangent_triangles(a.clone());
        }
        for (n, c) in &self.custom {
            if m.add_custom_data(c.build(), n).is_err() {
                fail("custom_refused", format!("custom data named {n:?} was refused"));
            }
        }
        m
    }
    pub fn pair(&self) -> (TMFMesh, String) {
        (self.build(), self.name.clone())
    }
    /// What the library's mesh holds. Custom data in its order.
    pub fn from_lib(m: &TMFMesh, name: &str) -> MeshSpec {
        let mut s = MeshSpec {
            name: name.to_string(),
            v: m.get_vertices().map(|a| a.iter().map(a3).collect()),
            n: m.get_normals().map(|a| a.iter().map(a3).collect()),
            uv: m.get_uvs().map(|a| a.iter().map(|u| [u.0, u.1]).collect()),
            t: m.get_tangents().map(|a| a.iter().map(|t| (a3(&t.0), t.1)).collect()),
            tri: [
                m.get_vertex_triangles().map(|a| a.to_vec()),
                m.get_normal_triangles().map(|a| a.to_vec()),
                m.get_uv_triangles().map(|a| a.to_vec()),
                m.get_tangent_triangles().map(|a| a.to_vec()),
            ],
            custom: Vec::new(),
        };
        let names = custom_names(m);
        let mut again = None;
        let mut seen = std::collections::HashSet::new();
        for (k, (n, _)) in names.iter().enumerate() {
            let Some(c) = m.lookup_custom_data(n) else { fail("custom_lost", format!("custom data {n:?} is saved but can't be looked up")) };
            if !seen.insert(n) {
                // Only the first of several with one name can be looked up; the others are read from what is saved.
                let all = again.get_or_insert_with(|| saved_custom(m));
                s.custom.push((n.clone(), all[k].clone()));
            } else {
                s.custom.push((n.clone(), Cust::from_lib(c)));
            }
        }
        s
    }
    pub fn describe(&self) -> String {
        let l = |o: Option<usize>| o.map(|n| n.to_string()).unwrap_or("-".into());
        let mut t = format!(
            "{:?} v{} n{} uv{} t{} tri{}/{}/{}/{}",
            if self.name.len() > 40 { format!("({} bytes)", self.name.len()) } else { self.name.clone() },
            l(self.v.as_ref().map(|a| a.len())),
            l(self.n.as_ref().map(|a| a.len())),
            l(self.uv.as_ref().map(|a| a.len())),
            l(self.t.as_ref().map(|a| a.len())),
            l(self.tri[0].as_ref().map(|a| a.len())),
            l(self.tri[1].as_ref().map(|a| a.len())),
            l(self.tri[2].as_ref().map(|a| a.len())),
            l(self.tri[3].as_ref().map(|a| a.len())),
        );
        if let Some(v) = self.v.as_ref().and_then(|v| v.first()) {
            t += &format!(" first vertex {v:?}");
        }
        for (n, c) in self.custom.iter().take(6) {
            let k = match c {
                Cust::Index(..) => "index",
                Cust::Int(..) => "int",
                Cust::Float(..) => "float",
                Cust::Color(..) => "color",
            };
            t += &format!(" {k}[{}]{:?}", c.len(), if n.len() > 20 { format!("({} bytes)", n.len()) } else { n.clone() });
        }
        if self.custom.len() > 6 {
            t += &format!(" and {} more", self.custom.len() - 6);
        }
        t
    }
}
/// The same mesh with its arrays emptied: what is left is the custom data.
fn emptied(m: &TMFMesh) -> TMFMesh {
    let mut c = m.clone();
    c.set_vertices(vec![]);
    c.set_normals(vec![]);
    c.set_uvs(vec![]);
    c.set_tangents(vec![]);
    c.set_vertex_triangles(vec![]);
    c.set_normal_triangles(vec![]);
    c.set_uv_triangles(vec![]);
    c.set_tangent_triangles(vec![]);
    c
}
/// Bytes the custom data of a mesh is saved as.
pub fn custom_bytes(m: &TMFMesh) -> Result<Vec<u8>, String> {
    let r = lib(|| {
        let mut o = Vec::new();
        emptied(m).write_tmf_one(&mut o, &TMFPrecisionInfo::default(), "c").map(|_| o).map_err(|e| format!("{e:?}"))
    });
    match r {
        Ok(r) => r,
        Err(p) => Err(format!("panic {}", p.msg)),
    }
}
/// The custom data as the reference decoder finds it in what is saved.
fn saved_custom(m: &TMFMesh) -> Vec<Cust> {
    let r = custom_bytes(m).and_then(|b| fmt::parse(&b)).and_then(|f| fmt::decode(&f.meshes[0], false));
    let r = r.unwrap_or_else(|e| fail("format", format!("saved custom data is not well-formed: {e}")));
    let int = |v: Vec<u64>| v.into_iter().map(|x| x as u32).collect::<Vec<_>>();
    let one = |c| match c {
        fmt::RefCust::Index(v) => Cust::Index(int(v), 0),
        fmt::RefCust::Int(v) => Cust::Int(int(v), 0),
        fmt::RefCust::Float(v) => {
            let big = v.iter().fold(0.0f64, |a, b| a.max(b.abs()));
            Cust::Float(v.into_iter().map(|x| x as f32).collect(), (big * 1e-6) as f32)
        }
        fmt::RefCust::Color(v) => Cust::Color(v.into_iter().map(|c| c.map(|x| x as f32)).collect(), 1e-6),
    };
    r.custom.into_iter().map(|(_, c)| one(c)).collect()
}
pub fn custom_names(m: &TMFMesh) -> Vec<(String, u16)> {
    let b = match custom_bytes(m) {
        Ok(b) => b,
        Err(e) => fail("custom_unsavable", format!("custom data can't be saved: {e}")),
    };
    let f = match fmt::parse(&b) {
        Ok(f) => f,
        Err(e) => fail("format", format!("saved custom data is not a well-formed file: {e}")),
    };
    let mut v = Vec::new();
    for s in f.meshes.iter().flat_map(|m| &m.segs) {
        if matches!(s.ty, 15 | 16 | 23 | 24) {
            let l = s.data[0] as usize;
            v.push((String::from_utf8_lossy(&s.data[1..1 + l]).into_owned(), s.ty));
        }
    }
    v
}
/// Exact content of a library mesh, bit for bit.
#[derive(Clone, PartialEq)]
pub struct Snap {
    pub name: String,
    f: [Option<Vec<u32>>; 4],
    tri: [Option<Vec<u32>>; 4],
    custom: Result<Vec<u8>, String>,
    /// Values of the custom data that can be looked up.
    values: Vec<(u32, Vec<u32>)>,
}
fn custom_values(m: &TMFMesh, saved: &Result<Vec<u8>, String>) -> Vec<(u32, Vec<u32>)> {
    let Ok(f) = saved.as_ref().map_err(|_| ()).and_then(|b| fmt::parse(b).map_err(|_| ())) else { return Vec::new() };
    let mut v = Vec::new();
    for s in f.meshes.iter().flat_map(|m| &m.segs) {
        if !matches!(s.ty, 15 | 16 | 23 | 24) || s.data.is_empty() {
            continue;
        }
        let Ok(name) = std::str::from_utf8(&s.data[1..1 + s.data[0] as usize]) else { continue };
        if let Some(c) = m.lookup_custom_data(name) {
            v.push((
                s.ty as u32,
                match c {
                    CustomData::CustomIndex(v, _) | CustomData::CustomIntiger(v, _) => v.to_vec(),
                    CustomData::CustomFloat(v, _) => v.iter().map(|x| x.to_bits()).collect(),
                    CustomData::CustomColorRGBA(v, _) => v.iter().flat_map(|c| [c.0.to_bits(), c.1.to_bits(), c.2.to_bits(), c.3.to_bits()]).collect(),
                },
            ));
        }
    }
    v
}
pub fn snap(m: &TMFMesh, name: &str) -> Snap {
    let b3 = |v: &Vector3| [v.0.to_bits(), v.1.to_bits(), v.2.to_bits()];
    let custom = custom_bytes(m);
    Snap {
        values: custom_values(m, &custom),
        name: name.to_string(),
        f: [
            m.get_vertices().map(|a| a.iter().flat_map(b3).collect()),
            m.get_normals().map(|a| a.iter().flat_map(b3).collect()),
            m.get_uvs().map(|a| a.iter().flat_map(|u| [u.0.to_bits(), u.1.to_bits()]).collect()),
            m.get_tangents().map(|a| a.iter().flat_map(|t| [t.0 .0.to_bits(), t.0 .1.to_bits(), t.0 .2.to_bits(), t.1.to_bits()]).collect()),
        ],
        tri: [
            m.get_vertex_triangles().map(|a| a.to_vec()),
            m.get_normal_triangles().map(|a| a.to_vec()),
            m.get_uv_triangles().map(|a| a.to_vec()),
            m.get_tangent_triangles().map(|a| a.to_vec()),
        ],
        custom,
    }
}
fn first_diff<T: PartialEq + std::fmt::Debug>(what: &str, a: &Option<Vec<T>>, b: &Option<Vec<T>>) -> Option<String> {
    match (a, b) {
        (None, None) => None,
        (Some(a), Some(b)) => {
            if a.len() != b.len() {
                return Some(format!("{what}: {} values, then {}", a.len(), b.len()));
            }
            a.iter().zip(b).position(|(x, y)| x != y).map(|i| format!("{what}[{i}]: {:?}, then {:?}", a[i], b[i]))
        }
        _ => Some(format!("{what}: present {}, then {}", a.is_some(), b.is_some())),
    }
}
impl Snap {
    pub fn diff(&self, o: &Snap) -> Option<String> {
        if self.name != o.name {
            return Some(format!("name {:?}, then {:?}", self.name, o.name));
        }
        for (k, w) in ["vertices", "normals", "uvs", "tangents"].iter().enumerate() {
            if let Some(d) = first_diff(w, &self.f[k], &o.f[k]) {
                return Some(d);
            }
        }
        for (k, w) in ["vertex", "normal", "uv", "tangent"].iter().enumerate() {
            if let Some(d) = first_diff(&format!("{w} triangles"), &self.tri[k], &o.tri[k]) {
                return Some(d);
            }
        }
        if self.custom != o.custom || self.values != o.values {
            return Some("custom data".into());
        }
        None
    }
    /// Names of the custom data, in order.
    pub fn custom_order(&self) -> Option<Vec<Vec<u8>>> {
        let f = fmt::parse(self.custom.as_ref().ok()?).ok()?;
        let segs = f.meshes.iter().flat_map(|m| &m.segs).filter(|g| matches!(g.ty, 15 | 16 | 23 | 24) && !g.data.is_empty());
        segs.map(|g| g.data.get(1..1 + g.data[0] as usize).map(|n| n.to_vec())).collect()
    }
    /// What never changes once a mesh has been through a file: names, UVs, indices, custom data.
    pub fn settled_diff(&self, o: &Snap) -> Option<(&'static str, String)> {
        if self.name != o.name {
            return Some(("name", format!("name {:?}, then {:?}", self.name, o.name)));
        }
        if let Some(d) = first_diff("uvs (bits)", &self.f[2], &o.f[2]) {
            return Some(("uv", d));
        }
        for (k, w) in ["vertex", "normal", "uv", "tangent"].iter().enumerate() {
            if let Some(d) = first_diff(&format!("{w} triangles"), &self.tri[k], &o.tri[k]) {
                return Some(("indices", d));
            }
        }
        if self.custom_order() != o.custom_order() {
            return Some(("custom", "names or order of the custom data".into()));
        }
        if let Some(i) = (0..self.values.len()).find(|i| Some(&self.values[*i]) != o.values.get(*i)) {
            let d = o.values.get(i).and_then(|v| first_diff("values (bits)", &Some(self.values[i].1.clone()), &Some(v.1.clone())));
            return Some(("custom", format!("custom data {i} (type {}): {}", self.values[i].0, d.unwrap_or_default())));
        }
        None
    }
    pub fn hash(&self) -> u64 {
        let mut h = self.name.len() as u64;
        for a in self.f.iter().chain(&self.tri) {
            match a {
                None => h = simcore::rng::mix(h ^ 77),
                Some(a) => {
                    for x in a {
                        h = simcore::rng::mix(h ^ *x as u64);
                    }
                }
            }
        }
        h
    }
}
pub fn snaps(v: &[(TMFMesh, String)]) -> Vec<Snap> {
    v.iter().map(|(m, n)| snap(m, n)).collect()
}
pub fn diff_all(a: &[Snap], b: &[Snap]) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} meshes, then {}", a.len(), b.len()));
    }
    a.iter().zip(b).enumerate().find_map(|(i, (x, y))| x.diff(y).map(|d| format!("mesh {i}: {d}")))
}

/// Save settings.
#[derive(Clone, Debug)]
pub struct PrecSpec {
    pub vertex: f32,
    pub deg: f32,
    pub uv: (f32, f32),
    pub tdeg: f32,
    /// The angles are given to the library in radians.
    pub rad: bool,
}
/// Away from powers of two times 90, so that the number of bits is beyond doubt.
const DEGS: [f32; 9] = [1.0, 5.0, 0.01, 0.1, 30.0, 80.0, 0.3, 0.002, 10.0];
impl PrecSpec {
    pub fn normal() -> PrecSpec {
        PrecSpec { vertex: 0.1, deg: 1.0, uv: (1024.0, 0.1), tdeg: 1.0, rad: false }
    }
    pub fn draw(s: &mut Src) -> PrecSpec {
        // Anything between lo and hi, small and big alike.
        fn any(s: &mut Src, lo: f64, hi: f64) -> f32 {
            (lo * (hi / lo).powf(s.below(100_001) as f64 / 1e5)) as f32
        }
        s.span(|s| match s.weighted(&[2, 1, 1]) {
            0 => Self::normal(),
            1 => PrecSpec {
                vertex: *s.pick(&[0.1, 0.5, 0.9, 0.01, 0.001, 0.00001, 0.25]),
                deg: *s.pick(&DEGS),
                uv: *s.pick(&[(1024.0, 0.1), (100.0, 0.7), (4096.0, 0.01), (8.0, 1.5), (65536.0, 0.3), (10.0, 4.9)]),
                tdeg: *s.pick(&DEGS),
                rad: s.chance(1, 3),
            },
            _ => {
                let res = any(s, 2.0, 65536.0);
                PrecSpec {
                    vertex: any(s, 1e-5, 0.95),
                    deg: any(s, 0.002, 170.0),
                    uv: (res, any(s, 0.005, res as f64 * 0.49)),
                    tdeg: any(s, 0.002, 170.0),
                    rad: s.chance(1, 3),
                }
            }
        })
    }
    pub fn build(&self) -> TMFPrecisionInfo {
        TMFPrecisionInfo {
            vertex_precision: VertexPrecisionMode(self.vertex),
            normal_precision: if self.rad { NormalPrecisionMode::from_rad_dev(self.deg.to_radians()) } else { NormalPrecisionMode::from_deg_dev(self.deg) },
            uv_prec: UvPrecisionMode::form_texture_resolution(self.uv.0, self.uv.1),
            tangent_prec: if self.rad { TangentPrecisionMode::from_rad_dev(self.tdeg.to_radians()) } else { TangentPrecisionMode::from_deg_dev(self.tdeg) },
        }
    }
}
/// Bits of angular precision asked for, as far as that is beyond doubt.
pub fn deg_bits(deg: f32, rad: bool) -> u32 {
    // A deviation of a right angle or more, given in radians, leaves only the signs.
    (((90.0 / deg as f64).log2() - 1e-4).ceil().max(0.0) as u32).max(!rad as u32)
}
/// Length of the shortest edge that is not of length zero; 0.1 if there is none.
pub fn shortest_edge(m: &MeshSpec) -> f64 {
    let (Some(v), Some(t)) = (&m.v, &m.tri[0]) else { return 0.1f32 as f64 };
    let mut best = f64::INFINITY;
    for c in t.chunks_exact(3) {
        for k in 0..3 {
            let (a, b) = (v[c[k] as usize], v[c[(k + 1) % 3] as usize]);
            let d = (0..3).map(|i| (a[i] as f64 - b[i] as f64).powi(2)).sum::<f64>().sqrt();
            if d > 0.0 {
                best = best.min(d);
            }
        }
    }
    if best.is_finite() {
        best
    } else {
        0.1f32 as f64
    }
}
pub fn extent(v: &[[f32; 3]]) -> f64 {
    let mut e = 0.0f64;
    for k in 0..3 {
        let lo = v.iter().map(|a| a[k] as f64).fold(f64::INFINITY, f64::min);
        let hi = v.iter().map(|a| a[k] as f64).fold(f64::NEG_INFINITY, f64::max);
        e = e.max(hi - lo).max(hi.abs()).max(lo.abs());
    }
    e
}
type Broken = (&'static str, String);
/// `b` is close enough to the direction `a` for `bits` bits of angular precision; `steps` of it allowed.
pub fn direction_close(a: [f32; 3], b: [f32; 3], bits: u32, steps: f64) -> Result<(), String> {
    let a = a.map(|x| x as f64);
    let b = b.map(|x| x as f64);
    if b.iter().any(|x| !x.is_finite()) {
        return Err(format!("{a:?} became {b:?}"));
    }
    for k in 0..3 {
        if (a[k] < 0.0 && b[k] > 1e-6) || (a[k] >= 0.0 && b[k] < -1e-6) {
            return Err(format!("sign of component {k} changed: {a:?} became {b:?}"));
        }
    }
    if bits == 0 {
        return Ok(());
    }
    let q = steps / ((1u64 << bits) - 1) as f64;
    if (a[2].abs() - b[2].abs()).abs() > q + 2e-6 {
        return Err(format!("z is off by more than {steps} step: {a:?} became {b:?} with {bits} bits"));
    }
    let len = (b[0] * b[0] + b[1] * b[1] + b[2] * b[2]).sqrt();
    if (len - 1.0).abs() > 1e-4 {
        return Err(format!("length {len}: {a:?} became {b:?}"));
    }
    let am = a[0].hypot(a[1]);
    let bm = b[0].hypot(b[1]);
    if am > 1e-3 && bm > 1e-3 {
        let qa = q * std::f64::consts::FRAC_PI_2;
        let x = a[0].abs().atan2(a[1].abs());
        let y = b[0].abs().atan2(b[1].abs());
        let noise = |t: f64| 2e-6 / bm.min(am).min(1.0) + (3e-7 / t.cos().abs().max(1e-9)).min(8e-4);
        let tol = qa + noise(x) + noise(y);
        let ok = if cfg!(feature = "full") {
            // The fast sine is off by up to 3e-4.
            let lo = (x - tol).max(0.0).sin() - 7e-4;
            let hi = (x + tol).min(std::f64::consts::FRAC_PI_2).sin() + 7e-4;
            (lo..=hi).contains(&y.sin())
        } else {
            (x - y).abs() <= tol
        };
        if !ok {
            return Err(format!("azimuth is off by more than {steps} step: {a:?} became {b:?} with {bits} bits"));
        }
    }
    Ok(())
}
fn len_check<A, B>(what: &str, a: &Option<Vec<A>>, b: &Option<Vec<B>>) -> Result<(), Broken> {
    match (a, b) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) if a.len() == b.len() => Ok(()),
        (Some(a), Some(b)) => Err(("length", format!("{what}: saved {} values, loaded {}", a.len(), b.len()))),
        (Some(a), None) => Err(("array_lost", format!("{what}: saved {} values, loaded none", a.len()))),
        (None, Some(b)) => Err(("array_appeared", format!("{what}: none saved, {} loaded", b.len()))),
    }
}
/// Property C01's closeness of a loaded mesh to the saved one.
pub fn compare_saved(a: &MeshSpec, b: &MeshSpec, p: &PrecSpec) -> Result<(), Broken> {
    if a.name != b.name {
        return Err(("name", format!("saved {:?}, loaded {:?}", a.name, b.name)));
    }
    len_check("vertices", &a.v, &b.v)?;
    len_check("normals", &a.n, &b.n)?;
    len_check("uvs", &a.uv, &b.uv)?;
    len_check("tangents", &a.t, &b.t)?;
    for (k, w) in ["vertex", "normal", "uv", "tangent"].iter().enumerate() {
        len_check(&format!("{w} triangles"), &a.tri[k], &b.tri[k])?;
        if let Some(d) = first_diff(&format!("{w} triangles"), &a.tri[k], &b.tri[k]) {
            return Err(("indices", format!("{d} after saving and loading")));
        }
    }
    if let (Some(x), Some(y)) = (&a.v, &b.v) {
        let edge = shortest_edge(a);
        let tol = p.vertex as f64 * edge * (1.0 + 1e-5) + 6e-7 * if x.is_empty() { 0.0 } else { extent(x) } + 1e-37;
        for (i, (u, w)) in x.iter().zip(y).enumerate() {
            for k in 0..3 {
                let d = (u[k] as f64 - w[k] as f64).abs();
                if !(d <= tol) {
                    return Err(("vertex", format!("vertex {i}: saved {u:?}, loaded {w:?}, off by {d:e} where {tol:e} is allowed (shortest edge {edge:e})")));
                }
            }
        }
    }
    if let (Some(x), Some(y)) = (&a.n, &b.n) {
        for (i, (u, w)) in x.iter().zip(y).enumerate() {
            direction_close(*u, *w, deg_bits(p.deg, p.rad), 1.0).map_err(|e| ("normal", format!("normal {i}: {e}")))?;
        }
    }
    if let (Some(x), Some(y)) = (&a.t, &b.t) {
        for (i, (u, w)) in x.iter().zip(y).enumerate() {
            direction_close(u.0, w.0, deg_bits(p.tdeg, p.rad), 1.0).map_err(|e| ("tangent", format!("tangent {i}: {e}")))?;
            if u.1 != w.1 {
                return Err(("handedness", format!("tangent {i}: saved {u:?}, loaded {w:?}")));
            }
        }
    }
    if let (Some(x), Some(y)) = (&a.uv, &b.uv) {
        let tol = (p.uv.1 / p.uv.0) as f64 + 1e-6;
        for (i, (u, w)) in x.iter().zip(y).enumerate() {
            for k in 0..2 {
                if !((u[k] as f64 - w[k] as f64).abs() <= tol) {
                    return Err(("uv", format!("uv {i}: saved {u:?}, loaded {w:?}, {tol:e} allowed")));
                }
            }
        }
    }
    compare_custom(&a.custom, &b.custom)
}
pub fn compare_custom(a: &[(String, Cust)], b: &[(String, Cust)]) -> Result<(), Broken> {
    let names = |v: &[(String, Cust)]| v.iter().map(|(n, c)| (n.clone(), fmt::kind_of(c))).collect::<Vec<_>>();
    let (na, nb) = (names(a), names(b));
    if na != nb {
        return Err(("custom_order", format!("custom data saved as {na:?}, loaded as {nb:?}")));
    }
    for ((n, x), (_, y)) in a.iter().zip(b) {
        if x.len() != y.len() {
            return Err(("custom_length", format!("custom {n:?}: saved {} values, loaded {}", x.len(), y.len())));
        }
        match (x, y) {
            (Cust::Index(x, _), Cust::Index(y, _)) | (Cust::Int(x, _), Cust::Int(y, _)) => {
                if let Some(i) = (0..x.len()).find(|i| x[*i] != y[*i]) {
                    return Err(("custom_int", format!("custom {n:?}[{i}]: saved {}, loaded {}", x[i], y[i])));
                }
            }
            (Cust::Float(x, p), Cust::Float(y, _)) => {
                let big = x.iter().map(|v| v.abs() as f64).fold(0.0, f64::max);
                let tol = *p as f64 + 4e-7 * big + 1e-37;
                if let Some(i) = (0..x.len()).find(|i| !((x[*i] as f64 - y[*i] as f64).abs() <= tol)) {
                    return Err(("custom_float", format!("custom {n:?}[{i}]: saved {}, loaded {}, {tol:e} allowed", x[i], y[i])));
                }
            }
            (Cust::Color(x, p), Cust::Color(y, _)) => {
                let tol = *p as f64 + 4e-7;
                for i in 0..x.len() {
                    if (0..4).any(|k| !((x[i][k] as f64 - y[i][k] as f64).abs() <= tol)) {
                        return Err(("custom_color", format!("custom {n:?}[{i}]: saved {:?}, loaded {:?}, {tol:e} allowed", x[i], y[i])));
                    }
                }
            }
            _ => unreachable!(),
        }
    }
    Ok(())
}

/// What the generator may produce.
#[derive(Clone)]
pub struct Gen {
    /// Usual largest number of vertices; now and then ten times as many.
    pub size: u64,
    pub big: bool,
    pub custom: bool,
    pub tangents: bool,
    /// Coordinates far outside what single precision represents comfortably.
    pub extreme: bool,
    pub long_names: bool,
    /// One in so many meshes and arrays has more than 65535 elements; 0: none has.
    pub huge: u64,
}
impl Gen {
    pub fn normal() -> Gen {
        Gen { size: 40, big: true, custom: true, tangents: true, extreme: true, long_names: true, huge: 0 }
    }
    pub fn small() -> Gen {
        Gen { size: 12, big: false, custom: true, tangents: true, extreme: false, long_names: false, huge: 0 }
    }
    fn is_huge(&self, s: &mut Src) -> bool {
        let huge = self.huge > 0 && s.chance(1, self.huge);
        if huge {
            cnt("huge_arrays");
        }
        huge
    }
}
fn unit(r: &mut Rng) -> [f32; 3] {
    loop {
        let v = [0; 3].map(|_| r.below(2_000_001) as f64 / 1e6 - 1.0);
        let m = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
        if m > 0.1 && m <= 1.0 {
            return v.map(|x| (x / m) as f32);
        }
    }
}
fn flt(r: &mut Rng) -> f64 {
    r.below(2_000_001) as f64 / 1e6 - 1.0
}
fn gen_vertices(s: &mut Src, g: &Gen, n: usize) -> Vec<[f32; 3]> {
    let style = s.weighted(&[4, 6, 3, 2, 2, 1, 2, 3, 2]);
    let scale = if g.extreme && s.chance(1, 24) {
        *s.pick(&[1e-12, 1e12, 1e-30, 1e18, 1e34])
    } else {
        *s.pick(&[1.0, 10.0, 0.001, 0.1, 100.0, 1e4, 1e6])
    };
    let mut r = Rng::new(s.seed());
    let mut out: Vec<[f32; 3]> = Vec::with_capacity(n);
    let off = [flt(&mut r), flt(&mut r), flt(&mut r)];
    for i in 0..n {
        let p = [flt(&mut r), flt(&mut r), flt(&mut r)];
        let v: [f64; 3] = match style {
            0 => [0; 3].map(|_| r.below(9) as f64 - 4.0),
            1 => p,
            2 => [0, 1, 2].map(|k| off[k] * 50.0 + p[k]),
            3 => [p[0], p[1], off[2]],
            4 => [p[0], off[1], off[2]],
            5 => off,
            6 => {
                if i > 2 && r.chance(1, 2) {
                    out[r.below(i as u64) as usize].map(|x| x as f64 / scale)
                } else {
                    p
                }
            }
            // First a small cloud around the origin, then far away: worth splitting.
            7 => p.map(|x| if i * 4 < n * 3 { x * 0.01 } else { x * 100.0 }),
            _ => p.map(|x| x * 10f64.powi(r.below(6) as i32 - 3)),
        };
        out.push(v.map(|x| (x * scale) as f32));
    }
    out
}
fn gen_indices(s: &mut Src, len: usize, count: usize) -> Vec<u32> {
    let style = s.weighted(&[4, 5, 3, 1, 3, 2, 3]);
    let mut r = Rng::new(s.seed());
    let k = len as u64;
    (0..count as u64)
        .map(|i| match style {
            0 => i % k,
            1 => r.below(k),
            2 => (i / 3 + r.below(5)) % k,
            3 => (k - 1) / 2,
            4 => (i * k / count as u64 + r.below(3)).min(k - 1),
            5 => k - 1 - r.below(k.min(3)),
            // Few low ones first, high ones later: worth splitting.
            _ => {
                if i * 3 < count as u64 * 2 {
                    r.below(k.min(4))
                } else {
                    r.below(k)
                }
            }
        })
        .map(|x| x as u32)
        .collect()
}
/// Nearly the same indices: two of them exchanged, or one changed.
fn near_copy(s: &mut Src, of: &[u32], len: usize) -> Vec<u32> {
    let mut v = of.to_vec();
    if v.len() > 1 && s.chance(1, 4) {
        let n = v.len() as u64;
        let late = s.chance(1, 2);
        let mut at = || if late { n - 1 - s.small(n - 1) } else { s.below(n) } as usize;
        let (i, j) = (at(), at());
        if s.chance(2, 3) {
            v.swap(i, j);
        } else {
            v[i] = s.below(len as u64) as u32;
        }
    }
    v
}
fn gen_uvs(s: &mut Src, n: usize) -> Vec<[f32; 2]> {
    let style = s.weighted(&[6, 2, 2, 2]);
    let mut r = Rng::new(s.seed());
    let mut one = || match style {
        0 => r.below(1_000_001) as f32 / 1e6,
        1 => r.below(2) as f32,
        2 => r.below((1 << 24) + 1) as f32 / (1 << 24) as f32,
        _ => (r.below(1_000_001) as f64 * 10f64.powi(-6 - r.below(14) as i32)) as f32,
    };
    (0..n).map(|_| [one(), one()]).collect()
}
/// A number next to a power of two.
fn around_power(s: &mut Src, bits: u64) -> u64 {
    ((1 << s.range(1, bits)) + s.below(4)).saturating_sub(2)
}
pub fn gen_name(s: &mut Src, long: bool) -> String {
    let i = s.below(1000);
    match s.weighted(&[8, 1, 2, 1]) {
        0 => format!("m{i}"),
        1 => String::new(),
        2 => ["żółw", "a b c", "Suzanne.001", "日本語", "x\ty", "\u{1F600}", "/", "-", " x", "x ", "\0", "x\0", "x\n", "\u{feff}x", "ﬁ", "e\u{301}", "\r", "\"x\"", ".", "TMF"][(i % 20) as usize].to_string(),
        _ => {
            let n = match s.weighted(&[10, 3]) {
                0 if long && s.chance(1, 12) => s.range(300, 65535),
                0 => s.range(30, 300),
                _ => {
                    let bits = if long && s.chance(1, 4) { 16 } else { 9 };
                    around_power(s, bits).min(65535)
                }
            };
            let unit = ["n", "n", " ", "ż", "ab ", "\u{1F600}", "0."][s.below(7) as usize];
            let (most, rest) = (unit.repeat(n as usize / unit.len()), "n".repeat(n as usize % unit.len()));
            if s.chance(1, 2) { most + &rest } else { rest + &most }
        }
    }
}
pub fn gen_custom(s: &mut Src, g: &Gen, i: usize) -> (String, Cust) {
    s.span(|s| {
        let kind = s.below(4);
        let most = if g.big && s.chance(1, 40) { 6000 } else { g.size * 2 };
        let n = match g.is_huge(s) {
            true => s.range(65_530, 70_000),
            false if g.big && s.chance(1, 60) => around_power(s, 13),
            false => s.small(most),
        } as usize;
        let name = match s.weighted(&[12, 2, 2, 1]) {
            0 => format!("c{i}"),
            1 => format!("{i}ł"),
            3 => ["c1", " ", "c1 ", "\0", "C1", "c\n1", "\u{feff}c"][s.below(7) as usize].to_string(),
            _ => {
                let mut t = format!("{i}");
                let want = if s.chance(1, 4) { *s.pick(&[127, 128, 254, 255]) } else { s.range(100, 255) } as usize;
                while t.len() < want {
                    t.push('k');
                }
                t
            }
        };
        let mut r = Rng::new(s.seed());
        let c = match kind {
            0 | 1 => {
                let bits = s.below(33);
                // The biggest value drawn freely, or just below, at or above a power of two.
                let peak = match s.weighted(&[3, 2]) {
                    0 => None,
                    _ => Some(((1u64 << bits) + s.below(3)).saturating_sub(1).min(u32::MAX as u64)),
                };
                let base = if peak.is_none() && bits < 32 && s.chance(1, 3) { r.below((1 << 32) - (1u64 << bits)) } else { 0 };
                let mut v: Vec<u32> = (0..n).map(|_| (base + r.below(peak.map_or(1u64 << bits, |p| p + 1))) as u32).collect();
                if let (Some(p), true) = (peak, n > 0) {
                    // The smallest value is taken off when saving.
                    v[0] = 0;
                    v[r.below(n as u64) as usize] = p as u32;
                }
                let max = v.iter().max().copied().unwrap_or(0) as usize;
                let max = max + if peak.is_none() && s.chance(1, 4) { s.small(1 << 33) as usize } else { 0 };
                if kind == 0 {
                    Cust::Index(v, max)
                } else {
                    Cust::Int(v, max)
                }
            }
            2 => {
                let scale = *s.pick(&[1.0, 100.0, 0.01, 1e5]);
                let off = *s.pick(&[0.0, 5.0, -1000.0]);
                let same = s.chance(1, 8);
                let p = scale * *s.pick(&[0.01, 0.001, 0.3, 1e-5, 3.0]);
                let v = (0..n).map(|i| if same { off as f32 } else { (flt(&mut r) * scale + off + i as f64 * 0.0) as f32 }).collect();
                Cust::Float(v, p as f32)
            }
            _ => {
                let p = *s.pick(&[0.01, 0.001, 0.3, 1e-6, 0.9, 2.0]);
                let edge = s.chance(1, 4);
                let v = (0..n)
                    .map(|_| [0; 4].map(|_| if edge { r.below(2) as f32 } else { (flt(&mut r) * 0.5 + 0.5) as f32 }))
                    .collect();
                Cust::Color(v, p as f32)
            }
        };
        (name, c)
    })
}
pub fn gen_mesh(s: &mut Src, g: &Gen) -> MeshSpec {
    s.span(|s| {
        let mut m = MeshSpec { name: gen_name(s, g.long_names), ..Default::default() };
        let size = if g.big && s.chance(1, 30) { g.size * 120 } else { g.size };
        let huge = g.is_huge(s);
        // How many elements an array may have, and its number of them.
        let some = |s: &mut Src, most: u64| {
            if huge && s.chance(3, 4) {
                s.range(65_530, 66_000)
            } else if g.big && s.chance(1, 60) {
                around_power(s, 13)
            } else {
                s.small(most)
            }
        };
        // What the mesh is: usual, point cloud, only custom data, odd mixture, empty arrays.
        let kind = s.weighted(&[10, 2, 1, 2, 1]);
        match kind {
            0 => {
                let nv = 1 + some(s, size) as usize;
                m.v = Some(gen_vertices(s, g, nv));
                let nt = some(s, size * 2) as usize * 3;
                let vt = gen_indices(s, nv, nt);
                let share = s.weighted(&[4, 3, 2]);
                if s.chance(3, 4) {
                    let nn = if share == 0 { 1 + some(s, size) as usize } else { nv };
                    let mut r = Rng::new(s.seed());
                    let axis = s.chance(1, 5);
                    m.n = Some((0..nn).map(|_| if axis { axis_unit(&mut r) } else { unit(&mut r) }).collect());
                    m.tri[1] = Some(if share == 0 { gen_indices(s, nn, nt) } else { near_copy(s, &vt, nn) });
                }
                if s.chance(3, 4) {
                    let nu = if share == 2 { nv } else { 1 + some(s, size) as usize };
                    m.uv = Some(gen_uvs(s, nu));
                    m.tri[2] = Some(if share == 2 {
                        near_copy(s, &vt, nu)
                    } else if share == 1 && nu == m.n.as_ref().map_or(0, |n| n.len()) && s.chance(1, 2) {
                        m.tri[1].clone().unwrap()
                    } else {
                        gen_indices(s, nu, nt)
                    });
                }
                if g.tangents && s.chance(1, 3) {
                    let nn = if share == 0 { 1 + some(s, size) as usize } else { nv };
                    let mut r = Rng::new(s.seed());
                    m.t = Some((0..nn).map(|_| (unit(&mut r), if r.chance(1, 2) { 1.0 } else { -1.0 })).collect());
                    m.tri[3] = Some(if share == 0 { gen_indices(s, nn, nt) } else { near_copy(s, &vt, nn) });
                }
                m.tri[0] = Some(vt);
                // Values no corner refers to.
                if s.chance(1, 12) {
                    m.tri[s.below(4) as usize] = None;
                }
                // Everything but the positions.
                if s.chance(1, 24) {
                    m.v = None;
                    m.tri[0] = None;
                }
            }
            1 => {
                let nv = some(s, size * 2) as usize;
                m.v = Some(gen_vertices(s, g, nv));
                if s.chance(1, 3) {
                    let mut r = Rng::new(s.seed());
                    m.n = Some((0..nv).map(|_| unit(&mut r)).collect());
                }
            }
            2 => {}
            3 => {
                let mut r = Rng::new(s.seed());
                if s.chance(1, 2) {
                    let n = some(s, size) as usize;
                    m.n = Some((0..n).map(|_| unit(&mut r)).collect());
                }
                if s.chance(1, 2) {
                    let n = some(s, size) as usize;
                    m.uv = Some(gen_uvs(s, n));
                }
                if g.tangents && s.chance(1, 2) {
                    let n = some(s, size) as usize;
                    m.t = Some((0..n).map(|_| (unit(&mut r), if r.chance(1, 2) { 1.0 } else { -1.0 })).collect());
                }
            }
            _ => {
                m.v = Some(vec![]);
                if s.chance(1, 2) {
                    m.tri[0] = Some(vec![]);
                }
                if s.chance(1, 2) {
                    m.n = Some(vec![]);
                    m.tri[1] = Some(vec![]);
                }
                if s.chance(1, 2) {
                    m.uv = Some(vec![]);
                    m.tri[2] = Some(vec![]);
                }
            }
        }
        if g.custom && s.chance(1, 2) {
            let mut i = 0;
            let most = if !g.big { 6 } else { 40 };
            let one = |s: &mut Src| {
                i += 1;
                gen_custom(s, g, i)
            };
            m.custom = if g.big && s.chance(1, 150) {
                let tiny = Gen { size: 1, big: false, huge: 0, ..g.clone() };
                (0..s.range(250, 300)).map(|i| gen_custom(s, &tiny, i as usize)).collect()
            } else {
                s.list(2, most, one)
            };
        }
        cntn("meshes", 1);
        cntn("custom_arrays", m.custom.len() as u64);
        m
    })
}
fn axis_unit(r: &mut Rng) -> [f32; 3] {
    let mut v = [0.0; 3];
    let k = r.below(3) as usize;
    v[k] = if r.chance(1, 2) { 1.0 } else { -1.0 };
    if r.chance(1, 4) {
        v[(k + 1) % 3] = -0.0;
    }
    if r.chance(1, 3) {
        let j = (k + 1) % 3;
        v[k] *= std::f32::consts::FRAC_1_SQRT_2;
        v[j] = v[k];
    }
    v
}
/// Whether it has indices to unify or reorder by.
pub fn optimisable(m: &MeshSpec) -> bool {
    let data = [m.v.is_some(), m.n.is_some(), m.uv.is_some(), m.t.is_some()];
    (0..4).any(|k| data[k] && m.tri[k].is_some())
}
thread_local! {
    /// Meshes of this run worth a near copy.
    static PAST: std::cell::RefCell<Vec<(MeshSpec, bool)>> = const { std::cell::RefCell::new(Vec::new()) };
}
fn elements(m: &MeshSpec) -> usize {
    let l = |n: Option<usize>| n.unwrap_or(0);
    let data = l(m.v.as_ref().map(|a| a.len())) + l(m.n.as_ref().map(|a| a.len())) + l(m.uv.as_ref().map(|a| a.len())) + l(m.t.as_ref().map(|a| a.len()));
    data + m.tri.iter().flatten().map(|a| a.len()).sum::<usize>() + m.custom.iter().map(|c| c.1.len() + 1).sum::<usize>()
}
/// The mesh with its name, or one value somewhere, changed: what tells meshes apart by a glance at their
/// sizes, names, first or last values takes it for the same.
pub fn near_mesh(s: &mut Src, of: &MeshSpec) -> MeshSpec {
    s.span(|s| {
        cnt("near_meshes");
        let mut m = of.clone();
        let at = |s: &mut Src, n: usize| if s.chance(1, 2) { n / 2 } else { s.below(n as u64) as usize };
        match s.below(8) {
            0 => m.name = gen_name(s, false),
            1 | 2 if m.v.as_ref().is_some_and(|a| !a.is_empty()) => {
                let a = m.v.as_mut().unwrap();
                let (i, j) = (at(s, a.len()), at(s, a.len()));
                let k = s.below(3) as usize;
                a[i][k] = if s.chance(1, 2) { a[j][(k + 1) % 3] } else { -a[i][k] };
            }
            3 if m.n.as_ref().is_some_and(|a| !a.is_empty()) => {
                let a = m.n.as_mut().unwrap();
                let i = at(s, a.len());
                a[i] = [-a[i][0], a[i][2], a[i][1]];
            }
            4 if m.uv.as_ref().is_some_and(|a| !a.is_empty()) => {
                let a = m.uv.as_mut().unwrap();
                let i = at(s, a.len());
                a[i] = [a[i][1], 1.0 - a[i][0]];
            }
            5 if m.t.as_ref().is_some_and(|a| !a.is_empty()) => {
                let a = m.t.as_mut().unwrap();
                let i = at(s, a.len());
                a[i].1 = -a[i].1;
            }
            6 if !m.custom.is_empty() => {
                let i = s.below(m.custom.len() as u64) as usize;
                match &mut m.custom[i].1 {
                    Cust::Index(v, _) | Cust::Int(v, _) if v.len() > 1 => {
                        let (i, j) = (at(s, v.len()), at(s, v.len()));
                        v.swap(i, j);
                    }
                    Cust::Float(v, _) if v.len() > 1 => {
                        let (i, j) = (at(s, v.len()), at(s, v.len()));
                        v.swap(i, j);
                    }
                    Cust::Color(v, _) if !v.is_empty() => {
                        let i = at(s, v.len());
                        v[i].rotate_left(1);
                    }
                    _ => m.custom[i].0.push('~'),
                }
                if m.custom[i].0.len() > 255 {
                    m.custom = of.custom.clone();
                }
            }
            _ => {
                let k = s.below(4) as usize;
                if let Some(t) = m.tri[k].as_mut().filter(|t| t.len() > 1) {
                    let (i, j) = (at(s, t.len()), at(s, t.len()));
                    if s.chance(1, 2) {
                        t.swap(i, j);
                    } else {
                        t[i] = t[j];
                    }
                }
            }
        }
        m
    })
}
/// Now and then a near copy of a mesh that was there before.
fn gen_next(s: &mut Src, g: &Gen) -> MeshSpec {
    let past = PAST.with(|p| p.borrow().len());
    if past > 0 && s.chance(1, 5) {
        let k = s.below(past as u64) as usize;
        let (mut m, extreme) = PAST.with(|p| p.borrow()[k].clone());
        if elements(&m) as u64 <= 20 * g.size && (g.extreme || !extreme) {
            m = near_mesh(s, &m);
            if !g.custom {
                m.custom.clear();
            }
            if !g.tangents {
                m.t = None;
                m.tri[3] = None;
            }
            return m;
        }
    }
    let m = gen_mesh(s, g);
    if past < 6 && m.name.len() < 400 && elements(&m) <= 2000 {
        PAST.with(|p| p.borrow_mut().push((m.clone(), g.extreme)));
    }
    m
}
/// A set of meshes to save in one file.
pub fn gen_set(s: &mut Src, g: &Gen, max: usize) -> Vec<MeshSpec> {
    s.span(|s| {
        let mut v = vec![gen_next(s, g)];
        let many = g.big && s.chance(1, 60);
        let more = if many { s.range(200, 400) as usize } else { s.small(max as u64 - 1) as usize };
        for _ in 0..more {
            let small = Gen { big: false, size: if many { 2 } else { g.size }, custom: g.custom && !many, huge: 0, ..g.clone() };
            v.push(gen_next(s, &small));
        }
        for m in &v {
            simcore::log!("mesh {}", m.describe());
        }
        v
    })
}
pub fn build_all(v: &[MeshSpec]) -> Vec<(TMFMesh, String)> {
    calm("building meshes", || v.iter().map(|m| m.pair()).collect())
}

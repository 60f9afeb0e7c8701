//! What a node says about its place and its contents is right, whatever others do.
use crate::gen::*;
use crate::model;
use crate::props::c13::{at, link_in};
use crate::run::*;
use crate::world::*;
use serde_json::{json, Value};
use simstd::sim::{self, Rng};
use std::sync::Arc;
use wz_reader::util::node_util::resolve_childs_parent;
use wz_reader::util::walk_node;
use wz_reader::{WzNode, WzNodeArc, WzObjectType};

pub fn plan(p: &mut Plan, rng: &mut Rng) {
    world_knobs(p, rng, 2);
    p.set("big", *rng.pick(&[30, 60, 300]));
    p.set("depth", *rng.pick(&[0, 1, 2, 3]));
    p.set("side", 4);
    p.set("ownnames", rng.chance(1, 3) as i64);
    p.set("links", rng.chance(2, 3) as i64);
    p.set("base", rng.below(3) as i64);
    // clients ask while they hold the node, or ask a copy of it (holding nodes in both directions does not mix, see C03)
    p.set("direct", rng.below(2) as i64);
    let nt = *rng.pick(&[1, 2, 2, 3, 3, 4]);
    let files = p.knob("files") as u64;
    for _ in 0..nt {
        let n = if nt == 1 { 4 + rng.below(12) } else { 3 + rng.below(7) };
        p.threads.push(
            (0..n)
                .map(|_| {
                    let k = match rng.below(24) {
                        0..=4 => "paths",
                        5 | 6 => "above",
                        7..=9 => "near",
                        10..=13 => "simple",
                        14..=16 => "full",
                        17 => "back",
                        18 | 19 => "parse",
                        20 | 21 => "unparse",
                        22 => "walk",
                        _ => "fwalk",
                    };
                    op(k, rng.below(files), rng.next() >> 32, rng.next() >> 32)
                })
                .collect(),
        );
    }
}
struct F {
    w: FileW,
    root: WzNodeArc,
    /// every node as loaded at first
    h: Handles,
    /// paths without links in them
    all: Vec<String>,
    cont: Vec<String>,
}
struct Ctx {
    fs: Vec<F>,
    single: bool,
    direct: bool,
}
/// the node as it is now, held by nobody
fn copy(n: &WzNodeArc) -> WzNode {
    rd(n, |g| WzNode { name: g.name.clone(), object_type: g.object_type.clone(), parent: g.parent.clone(), children: g.children.clone() })
}
fn segs(p: &str) -> Vec<&str> {
    p.split('/').filter(|s| !s.is_empty()).collect()
}
fn container(v: &V) -> bool {
    matches!(v, V::Dir | V::Img)
}
fn image_of(f: &FileW, path: &str) -> Option<String> {
    let mut img = (f.root.v == V::Img).then(String::new);
    let mut here = String::new();
    for s in segs(path) {
        here = join(&here, s);
        if at(f, &here).v == V::Img {
            img = Some(here.clone());
        }
    }
    img
}
fn leaf(v: &V) -> Value {
    let num = |x: f64| serde_json::Number::from_f64(x).map_or(Value::Null, Value::Number);
    match v {
        V::Short(x) => json!(x),
        V::Int(x) => json!(x),
        V::Long(x) => json!(x),
        V::Float(x) => num(*x as f64),
        V::Double(x) => num(*x),
        V::Str(s) | V::Uol(s) => json!(s),
        V::Vec2(x, y) => json!({"x": x, "y": y}),
        V::Canvas(c) => json!({"width": c.w, "height": c.h}),
        V::Sound(s) => json!({"duration": s.dur as u32, "sound_type": format!("{:?}", sound_type(s))}),
        _ => Value::Null,
    }
}
fn cut(v: &Value) -> String {
    v.to_string().chars().take(80).collect()
}
/// where a listed child really is
fn target(f: &FileW, path: &str) -> String {
    if let (V::Uol(_), Some(img)) = (&at(f, path).v, image_of(f, path)) {
        let inner = if img.is_empty() { path } else { &path[img.len() + 1..] };
        if let Some(t) = model::uol_target(f.model_at(&img), inner) {
            return join(&img, &t);
        }
    }
    path.to_string()
}
fn simple(v: &Value, f: &FileW, path: &str, lazy: bool) -> Result<(), String> {
    let m = at(f, path);
    if m.kids.is_empty() || lazy && container(&m.v) && v.is_null() {
        let want = leaf(&m.v);
        return if *v == want { Ok(()) } else { Err(format!("{path:?} ({}) prints as {} and not as {}", model_kind(&m.v), cut(v), cut(&want))) };
    }
    let Value::Object(o) = v else { return Err(format!("{path:?} ({}) with {} children prints as {}", model_kind(&m.v), m.kids.len(), cut(v))) };
    let mut extra = leaf(&m.v).as_object().cloned().unwrap_or_default();
    if !matches!(m.v, V::Canvas(_) | V::Sound(_)) {
        extra.clear();
    }
    for k in &m.kids {
        extra.remove(&k.name);
        let p = join(path, &k.name);
        match o.get(&k.name) {
            Some(x) => simple(x, f, &target(f, &p), lazy)?,
            None => return Err(format!("{path:?} ({}) prints without its child {:?}", model_kind(&m.v), k.name)),
        }
    }
    for (k, x) in &extra {
        if o.get(k) != Some(x) {
            return Err(format!("{path:?}: {k} prints as {:?} and not as {x}", o.get(k)));
        }
    }
    if o.len() != m.kids.len() + extra.len() {
        return Err(format!("{path:?} prints with {} entries and not {}", o.len(), m.kids.len() + extra.len()));
    }
    Ok(())
}
fn full(v: &Value, f: &FileW, path: &str, lazy: bool) -> Result<(), String> {
    let m = at(f, path);
    let bad = |what: &str, got: Option<&Value>, want: String| Err(format!("{path:?} ({}) prints with {what} {} and not {want}", model_kind(&m.v), cut(got.unwrap_or(&Value::Null))));
    let Value::Object(o) = v else { return Err(format!("{path:?} prints as {}", cut(v))) };
    if o.get("name") != Some(&json!(m.name)) {
        return bad("the name", o.get("name"), format!("{:?}", m.name));
    }
    let types: &[&str] = match &m.v {
        V::Dir if path.is_empty() && f.kind == Kind::Ms => &["MsFile"],
        V::Dir if path.is_empty() => &["File"],
        V::Dir => &["Directory"],
        V::Img => &["Image", "MsImage"],
        V::Null => &["Null"],
        V::Short(_) => &["Short"],
        V::Int(_) => &["Int"],
        V::Long(_) => &["Long"],
        V::Float(_) => &["Float"],
        V::Double(_) => &["Double"],
        V::Str(_) => &["String"],
        V::Vec2(..) => &["Vector"],
        V::Uol(_) => &["UOL"],
        V::Prop => &["Property"],
        V::Canvas(_) => &["PNG"],
        V::Convex => &["Convex"],
        V::Sound(_) => &["Sound"],
        _ => return Err(format!("{path:?} ({}) can't be printed but is", model_kind(&m.v))),
    };
    let ty = o.get("type").and_then(|t| t.as_str()).unwrap_or("");
    if !types.contains(&ty) {
        return bad("the type", o.get("type"), format!("{types:?}"));
    }
    let want = match &m.v {
        V::Vec2(x, y) => json!([x, y]),
        V::Dir | V::Img => o.get("data").cloned().unwrap_or_default(),
        v => leaf(v),
    };
    if o.get("data").unwrap_or(&Value::Null) != &want {
        return bad("the value", o.get("data"), cut(&want));
    }
    if path.is_empty() && f.kind == Kind::Wz {
        let ver = match f.pack {
            Some(Pack::Pkg1 { ver, enc: true }) => json!(ver),
            _ => want["patch_version"].clone(),
        };
        // (before it was parsed the version is not known)
        let known = o.get("children").and_then(|k| k.as_object()).is_some_and(|k| !k.is_empty());
        if want["path"] != json!(f.path) || known && want["patch_version"] != ver {
            return bad("the description", Some(&want), format!("{} version {ver}", f.path));
        }
    }
    let Some(Value::Object(kids)) = o.get("children") else { return bad("the children", o.get("children"), "an object".into()) };
    if lazy && container(&m.v) && kids.is_empty() {
        return Ok(());
    }
    for k in &m.kids {
        match kids.get(&k.name) {
            Some(x) => full(x, f, &target(f, &join(path, &k.name)), lazy)?,
            None => return Err(format!("{path:?} ({}) prints without its child {:?}", model_kind(&m.v), k.name)),
        }
    }
    if kids.len() != m.kids.len() {
        return Err(format!("{path:?} prints with {} children and not {}", kids.len(), m.kids.len()));
    }
    Ok(())
}
/// is there something below that is not what `ok` allows?
fn any(f: &FileW, path: &str, bad: &dyn Fn(&V) -> bool) -> bool {
    let path = target(f, path);
    let m = at(f, &path);
    bad(&m.v) || m.kids.iter().any(|k| any(f, &join(&path, &k.name), bad))
}
fn unprintable(v: &V) -> bool {
    matches!(v, V::Raw(_) | V::Text(_) | V::Video(_) | V::Lua(_))
}
fn endless(v: &V) -> bool {
    matches!(v, V::Float(x) if !x.is_finite()) || matches!(v, V::Double(x) if !x.is_finite())
}
impl F {
    /// the node and all that are above it, the root first; nothing when it was unloaded meanwhile
    fn chain(&self, path: &str) -> Option<Vec<WzNodeArc>> {
        let mut v = vec![self.root.clone()];
        for s in segs(path) {
            let n = v.last().unwrap().clone();
            let x = match rd(&n, |g| g.at(s)) {
                Some(x) => x,
                None => {
                    if let Err(e) = parse(&n) {
                        violate("parse", &format!("{}: loading a part of {path:?} fails: {e}", self.w.path));
                    }
                    rd(&n, |g| g.at(s))?
                }
            };
            v.push(x);
        }
        Some(v)
    }
    fn pinned(&self, path: &str) -> Vec<WzNodeArc> {
        let mut here = String::new();
        let mut v = vec![self.h[""].clone()];
        for s in segs(path) {
            here = join(&here, s);
            v.push(self.h[&here].clone());
        }
        v
    }
    fn load_all(&self) {
        let mut todo = vec![self.root.clone()];
        while let Some(n) = todo.pop() {
            if let Err(e) = parse(&n) {
                violate("parse", &format!("{}: loading fails: {e}", self.w.path));
            }
            todo.extend(snap(&n).kids.into_iter().map(|k| k.1).filter(|k| parsed_flag(&snap(k).obj).is_some()));
        }
    }
}
fn same(what: &str, got: &Option<WzNodeArc>, want: Option<&WzNodeArc>) {
    let ok = match (got, want) {
        (Some(a), Some(b)) => Arc::ptr_eq(a, b),
        (None, None) => true,
        _ => false,
    };
    if !ok {
        let name = |n: &WzNodeArc| format!("{:?} ({})", snap(n).name, kind_name(&snap(n).obj));
        violate("above", &format!("{what} is {} and not {}", got.as_ref().map_or("missing".into(), name), want.map_or("missing".into(), name)));
    }
    count(C_OKCHECK);
}
pub fn run(p: &Plan) {
    let mut w = World::make(p);
    if p.knob("base") != 0 {
        // one of them is the data root
        let s = shape_of(p);
        let mut rng = Rng::new(p.knob("wseed") as u64 ^ 0xBA5E);
        let form = [0, 0, 1, 2, 4, 3][rng.below(6) as usize];
        w.files[0] = make_file("", "Base", form, REGIONS[p.knob("region0") as usize % 3], &s, p.knob("depth") as u64, 3, &mut rng);
        w.files[0].write();
    }
    let fs = w
        .files
        .iter()
        .map(|f| {
            let root = f.open_arc();
            let h = must_match("load", &f.path, &root, &f.root, LOAD);
            let mut cont = vec![String::new()];
            if f.kind != Kind::Img {
                cont.extend(f.root.paths_where(|m| container(&m.v)));
            }
            let mut all = f.root.paths_where(|_| true);
            all.push(String::new());
            all.retain(|x| !link_in(f, x));
            F { w: f.clone(), root, h, all, cont }
        })
        .collect();
    let c = Arc::new(Ctx { fs, single: p.threads.len() == 1, direct: p.knob("direct") != 0 });
    let c2 = c.clone();
    threads(p, move |_, o| {
        let c = &c2;
        let f = &c.fs[o.a as usize % c.fs.len()];
        let w = &f.w;
        let path = &f.all[o.b as usize % f.all.len()];
        let chain = || if o.c % 2 == 0 { f.chain(path) } else { Some(f.pinned(path)) };
        let names = || -> Vec<String> { std::iter::once(w.root.name.clone()).chain(segs(path).iter().map(|s| s.to_string())).collect() };
        let ask = |n: &WzNodeArc, q: &dyn Fn(&WzNode) -> String| if c.direct { rd(n, |g| q(g)) } else { q(&copy(n)) };
        let look = |n: &WzNodeArc, q: &dyn Fn(&WzNode) -> Option<WzNodeArc>| if c.direct { rd(n, |g| q(g)) } else { q(&copy(n)) };
        match o.k.as_str() {
            "paths" => {
                let Some(ch) = chain() else { return };
                let n = ch.last().unwrap();
                let names = names();
                count(C_LOOKUP);
                let img = segs(path).iter().scan(String::new(), |h, s| { *h = join(h, s); Some(h.clone()) }).collect::<Vec<_>>();
                // the nearest image above it
                let mut above: Option<usize> = (w.root.v == V::Img && !path.is_empty()).then_some(0);
                for (i, p) in img.iter().enumerate() {
                    if at(w, p).v == V::Img && i + 1 < img.len() {
                        above = Some(i + 1);
                    }
                }
                let want = [
                    ("full path", names.join("/")),
                    ("path from the root", path.clone()),
                    ("path from its image", above.map_or(String::new(), |i| names[i + 1..].join("/"))),
                ];
                let got = [ask(n, &|g| g.get_full_path()), ask(n, &|g| g.get_path_from_root()), ask(n, &|g| g.get_path_from_image())];
                for (g, (what, want)) in got.iter().zip(&want) {
                    if g != want {
                        violate("path", &format!("{}: the {what} of {path:?} is given as {g:?} and not {want:?}", w.path));
                    }
                }
                count(C_OKCHECK);
            }
            "above" => {
                let Some(ch) = chain() else { return };
                let n = ch.last().unwrap();
                let up = &ch[..ch.len() - 1];
                count(C_LOOKUP);
                let kind = |x: &&WzNodeArc, k: &str| kind_name(&snap(x).obj) == k;
                let img = up.iter().rev().find(|x| kind(x, "image"));
                same(&format!("{}: the image of {path:?}", w.path), &look(n, &|g| g.get_parent_wz_image()), img);
                let base = up.first().filter(|x| kind(x, "file") && w.root.name == "Base");
                same(&format!("{}: the data root of {path:?}", w.path), &look(n, &|g| g.get_base_wz_file()), base);
                let names = names();
                let name = match o.c >> 8 & 3 {
                    0 => "nobody".to_string(),
                    _ => names[(o.c >> 10) as usize % names.len()].clone(),
                };
                let want = names[..names.len() - 1].iter().rposition(|x| *x == name).map(|i| &ch[i]);
                same(&format!("{}: the ancestor {name:?} of {path:?}", w.path), &look(n, &|g| g.filter_parent(|x| x.name.as_str() == name)), want);
            }
            "near" => {
                let loaded = c.single && o.c & 6 == 0;
                if loaded {
                    f.load_all();
                }
                let Some(ch) = (if loaded { f.chain(path) } else { chain() }) else { return };
                let first = o.c % 2 != 0 && !loaded;
                let n = ch.last().unwrap();
                let mut g = Rng::new(o.c);
                let (mut here, mut way) = (path.clone(), vec![]);
                // is it still among the nodes held? is there such a node at all?
                let (mut exact, mut exists) = (true, true);
                for i in 0..1 + g.below(5) {
                    let m = at(w, &here);
                    let kids: Vec<&M> = m.kids.iter().filter(|k| !matches!(k.v, V::Uol(_))).collect();
                    if g.chance(1, 12) && i > 0 {
                        way.push("no such node".to_string());
                        exists = false;
                        // (nothing comes back from there)
                        if g.chance(1, 2) {
                            way.push("..".to_string());
                            if let Some(k) = kids.first().filter(|_| g.chance(1, 2)) {
                                way.push(k.name.clone());
                            }
                        }
                        break;
                    }
                    if kids.is_empty() || g.chance(2, 5) {
                        way.push("..".to_string());
                        if here.is_empty() {
                            exists = false;
                            break;
                        }
                        here = here.rsplit_once('/').map_or(String::new(), |x| x.0.to_string());
                    } else {
                        let k = *g.pick(&kids);
                        exact &= !container(&m.v);
                        here = join(&here, &k.name);
                        way.push(k.name.clone());
                    }
                }
                let way = way.join("/");
                count(C_LOOKUP);
                let got = copy(n).at_path_relative(&way);
                let what = format!("{}: {way:?} from {path:?}", w.path);
                match got {
                    Some(x) if !exists => violate("near", &format!("{what} does not exist, found {:?}", snap(&x).name)),
                    None if exists && (exact || loaded) => violate("near", &format!("{what} is {here:?} and is not found")),
                    Some(x) => {
                        if exact && first && !Arc::ptr_eq(&x, &f.h[&here]) {
                            violate("near", &format!("{what} is another node than {here:?}"));
                        }
                        if snap(&x).name != at(w, &here).name {
                            violate("near", &format!("{what} is {here:?}, found {:?}", snap(&x).name));
                        }
                        if let Err(e) = check_value(&snap(&x).obj, at(w, &here)) {
                            violate("near", &format!("{what} is {here:?}: {e}"));
                        }
                    }
                    None => count(C_OKCHECK),
                }
            }
            "simple" | "full" | "back" => {
                let loaded = c.single && o.c & 6 == 0;
                if loaded {
                    f.load_all();
                }
                let Some(ch) = (if loaded { f.chain(path) } else { chain() }) else { return };
                let n = ch.last().unwrap();
                count(C_JSON);
                // (values may link upwards, so nothing is held)
                let node = copy(n);
                let what = format!("{}: {path:?}", w.path);
                if o.k == "simple" {
                    match node.to_simple_json() {
                        Ok(v) => {
                            if let Err(e) = simple(&v, w, path, !loaded) {
                                violate("json", &format!("{what} as simple JSON: {e}"));
                            }
                        }
                        Err(e) => violate("json", &format!("{what} as simple JSON: {e}")),
                    }
                    count(C_OKCHECK);
                    return;
                }
                let v = match node.to_json() {
                    Ok(v) => v,
                    Err(e) => {
                        if !any(w, path, &unprintable) {
                            violate("json", &format!("{what} as JSON: {e}"));
                        }
                        return;
                    }
                };
                if let Err(e) = full(&v, w, path, !loaded) {
                    violate("json", &format!("{what} as JSON: {e}"));
                }
                count(C_OKCHECK);
                if o.k == "back" && !any(w, path, &endless) {
                    let back = match serde_json::from_value::<WzNode>(v.clone()) {
                        Ok(n) => n.into_lock(),
                        Err(e) => violate("back", &format!("{what}: its JSON can't be read back: {e}: {}", cut(&v))),
                    };
                    resolve_childs_parent(&back);
                    let mut todo = vec![back.clone()];
                    while let Some(n) = todo.pop() {
                        for (k, x) in snap(&n).kids {
                            let up = snap(&x).parent;
                            if !up.is_some_and(|u| Arc::ptr_eq(&u, &n)) {
                                violate("back", &format!("{what}: in what was read from its JSON the parent of {k:?} is not the node listing it"));
                            }
                            todo.push(x);
                        }
                    }
                    match copy(&back).to_json() {
                        Ok(again) => differ(&what, &again, &v, ""),
                        Err(e) => violate("back", &format!("{what}: what was read from its JSON can't be printed: {e}")),
                    }
                    count(C_OKCHECK);
                }
            }
            "parse" => {
                let p = &f.cont[o.b as usize % f.cont.len()];
                let n = if o.c % 2 == 0 { f.h[p].clone() } else { f.chain(p).map_or(f.root.clone(), |c| c.last().unwrap().clone()) };
                if let Err(e) = parse(&n) {
                    violate("parse", &format!("{}: loading {p:?} fails: {e}", w.path));
                }
            }
            "unparse" => {
                let p = &f.cont[o.b as usize % f.cont.len()];
                let n = if o.c % 2 == 0 { f.h[p].clone() } else { f.chain(p).map_or(f.root.clone(), |c| c.last().unwrap().clone()) };
                unparse(&n);
            }
            k => {
                let p = &f.cont[o.b as usize % f.cont.len()];
                count(C_WALK);
                walk_node(&f.h[p], k == "fwalk", &|x| {
                    if o.c % 3 == 0 {
                        sim::client(|| drop(x.read()));
                    }
                });
            }
        }
    });
    for f in &c.fs {
        if let WzObjectType::MsFile(_) | WzObjectType::File(_) | WzObjectType::Image(_) = snap(&f.root).obj {
            must_match("final-tree", &f.w.path, &f.root, &f.w.root, FULL);
        }
    }
}
fn differ(what: &str, got: &Value, want: &Value, at: &str) {
    if got == want {
        return;
    }
    if let (Value::Object(a), Value::Object(b)) = (got, want) {
        for (k, x) in b {
            match a.get(k) {
                Some(y) => differ(what, y, x, &join(at, k)),
                None => violate("back", &format!("{what}: read from its JSON, {at:?} has no {k:?}")),
            }
        }
    }
    violate("back", &format!("{what}: read from its JSON, {at:?} is {} and not {}", cut(got), cut(want)));
}

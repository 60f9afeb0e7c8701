//! A failed load leaves no trace and succeeds once the fault is gone.
use crate::damage;
use crate::disk::{self, Hit};
use crate::gen::*;
use crate::props::c13::{at, link_in};
use crate::run::*;
use crate::world::*;
use simstd::sim::Rng;
use std::sync::{Arc, Mutex};
use wz_reader::util::node_util::get_node_without_parse;
use wz_reader::{WzNodeArc, WzObjectType};

pub fn plan(p: &mut Plan, rng: &mut Rng) {
    world_knobs(p, rng, 2);
    p.set("big", *rng.pick(&[30, 60, 300]));
    p.set("depth", *rng.pick(&[0, 1, 2]));
    p.set("side", *rng.pick(&[4, 9]));
    p.set("long", 0);
    let nf = 1 + rng.below(4);
    for _ in 0..nf {
        p.faults.push(damage::draw(rng));
    }
    let files = p.knob("files") as u64;
    if rng.chance(1, 5) {
        // damaged or failing from the start
        p.set("early", 1);
        let n = 1 + rng.below(4);
        p.threads.push((0..n).map(|_| op(*rng.pick(&["parse", "open", "iofail", "iofail"]), rng.below(files), rng.next() >> 32, rng.next() >> 32)).collect());
        return;
    }
    let nt = *rng.pick(&[1, 1, 1, 2, 3]);
    for t in 0..nt {
        let n = if nt == 1 { 5 + rng.below(16) } else { 3 + rng.below(9) };
        let mut ops: Vec<Op> = (0..n)
            .map(|_| {
                let k = match rng.below(24) {
                    0..=2 => "hurt",
                    3 | 4 => "heal",
                    5..=11 => "parse",
                    12 | 13 => "unparse",
                    14 | 15 => "look",
                    16 | 17 => "keep",
                    18 | 19 => "read",
                    20 => "walk",
                    21 => "scene",
                    22 => *rng.pick(&["retry", "scene"]),
                    _ => *rng.pick(&["iofail", "memfail"]),
                };
                op(k, rng.below(files), rng.next() >> 32, rng.next() >> 32)
            })
            .collect();
        if t == 0 {
            ops.insert(rng.below(3) as usize, op("hurt", rng.below(files), rng.next() >> 32, 0));
        }
        p.threads.push(ops);
    }
}
struct St {
    root: WzNodeArc,
    /// what the disk holds now
    cur: Vec<u8>,
    hurt: bool,
    epoch: u64,
    /// loaded successfully from damaged data
    taint: Vec<WzNodeArc>,
    kept: Vec<(String, WzNodeArc)>,
}
struct F {
    w: FileW,
    cont: Vec<String>,
    all: Vec<String>,
    st: Mutex<St>,
}
impl F {
    fn root(&self) -> WzNodeArc {
        self.st.lock().unwrap().root.clone()
    }
    /// (damaged now, number of changes so far)
    fn now(&self) -> (bool, u64) {
        let s = self.st.lock().unwrap();
        (s.hurt, s.epoch)
    }
    fn healthy_since(&self, e: (bool, u64)) -> bool {
        !e.0 && self.now() == e
    }
    fn store(&self, b: Vec<u8>) {
        let mut s = self.st.lock().unwrap();
        let mut i = 0;
        while i < b.len() {
            if b[i] != s.cur[i] {
                let j = (i..b.len()).find(|j| b[*j] == s.cur[*j]).unwrap_or(b.len());
                disk::poke(&self.w.path, i, &b[i..j]);
                i = j;
            } else {
                i += 1;
            }
        }
        s.hurt = b != self.w.bytes;
        s.cur = b;
        s.epoch += 1;
    }
    fn heal(&self) {
        if self.now().0 {
            count(C_HEAL);
            self.store(self.w.bytes.clone());
        }
    }
    /// is the node, or one it is in, loaded from damaged data?
    fn tainted(&self, n: &WzNodeArc) -> bool {
        let t = self.st.lock().unwrap().taint.clone();
        let mut up = Some(n.clone());
        while let Some(x) = up {
            if t.iter().any(|y| Arc::ptr_eq(y, &x)) {
                return true;
            }
            up = snap(&x).parent;
            if up.is_none() && !Arc::ptr_eq(&x, &self.root()) {
                // unloaded since: where it came from is not known any more
                return true;
            }
        }
        false
    }
    fn taint(&self, n: &WzNodeArc) {
        self.st.lock().unwrap().taint.push(n.clone());
    }
    fn nav(&self, p: &str) -> Option<WzNodeArc> {
        let mut n = self.root();
        for s in p.split('/').filter(|s| !s.is_empty()) {
            n = rd(&n, |g| g.at(s))?;
        }
        Some(n)
    }
    /// forget what came from damaged data
    fn untaint(&self) {
        let t = std::mem::take(&mut self.st.lock().unwrap().taint);
        for n in t.iter().rev() {
            // the version found in damaged data stays with the file, the data read stays with an .ms image
            if matches!(snap(n).obj, WzObjectType::File(_)) || self.w.kind == Kind::Ms {
                let r = self.w.open_arc();
                let mut s = self.st.lock().unwrap();
                s.root = r;
                s.kept.clear();
            } else {
                unparse(n);
            }
        }
    }
    fn load(&self, n: &WzNodeArc, path: &str, single: bool) {
        self.load_under(n, path, single, vec![])
    }
    /// load while the given calls fail
    fn load_under(&self, n: &WzNodeArc, path: &str, single: bool, hits: Vec<Hit>) {
        let before = snap(n);
        let e = self.now();
        // other threads see what is loaded before this one can tell from what
        self.taint(n);
        let held = disk::held();
        disk::mine(hits);
        let r = parse(n);
        let struck = !disk::mine_done().1.is_empty();
        if single && r.is_err() && disk::held() != held {
            violate("trace", &format!("{}: a failed parse of {path:?} leaves (descriptors, mappings) {:?}, before {held:?}", self.w.path, disk::held()));
        }
        let fine = self.healthy_since(e) && !struck;
        let suspect = r.is_ok() && !fine && (!single || parsed_flag(&before.obj) == Some(false));
        if !suspect {
            let mut s = self.st.lock().unwrap();
            if let Some(i) = s.taint.iter().rposition(|t| Arc::ptr_eq(t, n)) {
                s.taint.remove(i);
            }
        }
        match r {
            Ok(()) => {}
            Err(x) => {
                if fine && !self.tainted(n) {
                    violate("retry", &format!("{}: parsing {path:?} from healthy storage fails: {x}", self.w.path));
                }
                if single {
                    untouched(&before, n, path);
                }
            }
        }
    }
}
fn untouched(before: &Snap, n: &WzNodeArc, path: &str) {
    let after = snap(n);
    let say = |t: String| violate("trace", &format!("{path:?} ({}) after a failed parse: {t}", kind_name(&before.obj)));
    if parsed_flag(&after.obj) != parsed_flag(&before.obj) {
        say(format!("parsed flag {:?}, was {:?}", parsed_flag(&after.obj), parsed_flag(&before.obj)));
    }
    if std::mem::discriminant(&after.obj) != std::mem::discriminant(&before.obj) {
        say(format!("is a {} now", kind_name(&after.obj)));
    }
    if after.kids.len() != before.kids.len() {
        say(format!("{} children, had {}", after.kids.len(), before.kids.len()));
    }
    for (a, b) in after.kids.iter().zip(&before.kids) {
        if a.0 != b.0 || !Arc::ptr_eq(&a.1, &b.1) {
            say(format!("child {:?} was {:?} or another node", a.0, b.0));
        }
    }
    count(C_OKCHECK);
}
fn io_faults(b: u64, c: u64) -> Vec<Hit> {
    let call = [disk::OPEN, disk::MMAP, disk::STAT][(b % 3) as usize];
    let errno = [libc::EIO, libc::ENOMEM, libc::EMFILE, libc::EACCES, libc::EINTR][(c % 5) as usize];
    (0..1 + (b >> 4) % 2).map(|i| Hit { call, nth: i, errno, ..Default::default() }).collect()
}
/// opening under failing calls, then again
fn open_failing(f: &F, o: &Op) {
    let held = disk::held();
    disk::arm(io_faults(o.b, o.c));
    let r = f.w.open(None);
    let (_, fired) = disk::disarm();
    match r {
        Ok(n) => drop(n),
        Err(e) => {
            count(C_ERR);
            let _ = e.to_string();
            if fired.is_empty() && f.now() == (false, f.now().1) {
                violate("retry", &format!("{}: opening fails without any fault: {e}", f.w.path));
            }
            if disk::held() != held {
                violate("trace", &format!("{}: a failed open leaves (descriptors, mappings) {:?}, before {held:?}", f.w.path, disk::held()));
            }
        }
    }
    if !f.now().0 {
        count(C_RETRY);
        let n = f.w.open_arc();
        must_match("retry", "opened again after a failed call", &n, &f.w.root, LOAD);
    }
}
pub fn run(p: &Plan) {
    let early = p.knob("early") != 0;
    let w = World::make(p);
    let mut rng = Rng::new(p.seed ^ 0x7777);
    if early {
        // the storage is damaged when the file is opened
        for (i, f) in w.files.iter().enumerate() {
            let mut b = f.bytes.clone();
            for o in p.faults.iter().skip(i) {
                damage::apply(f, &mut b, o, &w.files[0].bytes);
            }
            disk::put(&f.path, &b);
        }
    }
    let fs: Vec<F> = w
        .files
        .iter()
        .map(|f| {
            let mut cont = vec![String::new()];
            if f.kind != Kind::Img {
                cont.extend(f.root.paths_where(|m| matches!(m.v, V::Dir | V::Img)));
            }
            let dummy = wz_reader::WzNode::from_str("x", 1, None).into_lock();
            F {
                w: f.clone(),
                cont,
                all: f.root.paths_where(|_| true),
                st: Mutex::new(St { root: if early { dummy } else { f.open_arc() }, cur: f.bytes.clone(), hurt: early, epoch: 0, taint: vec![], kept: vec![] }),
            }
        })
        .collect();
    let c = Arc::new(fs);
    if early {
        let c2 = c.clone();
        threads(p, move |_, o| {
            let f = &c2[(o.a % c2.len() as u64) as usize];
            match o.k.as_str() {
                "iofail" => open_failing(f, o),
                _ => match f.w.open(None) {
                    Err(e) => {
                        count(C_ERR);
                        let _ = (e.to_string(), format!("{e:?}"));
                    }
                    Ok(n) => {
                        let n = n.into_lock();
                        for _ in 0..1 + o.b % 3 {
                            let before = snap(&n);
                            if parse(&n).is_err() {
                                untouched(&before, &n, "");
                            }
                        }
                        if o.k == "parse" {
                            let kids = snap(&n).kids;
                            for (k, x) in kids.iter().take(6) {
                                let before = snap(x);
                                if parse(x).is_err() {
                                    untouched(&before, x, k);
                                }
                            }
                        }
                    }
                },
            }
        });
        for f in c.iter() {
            count(C_HEAL);
            disk::put(&f.w.path, &f.w.bytes);
        }
        for f in c.iter() {
            count(C_RETRY);
            let n = f.w.open_arc();
            must_match("retry", &format!("{} opened again", f.w.path), &n, &f.w.root, FULL);
        }
        return;
    }
    let single = p.threads.len() == 1;
    let c2 = c.clone();
    let faults = p.faults.clone();
    let foreign = w.files[0].bytes.clone();
    threads(p, move |_, o| {
        let f = &c2[(o.a % c2.len() as u64) as usize];
        let pick = |v: &[String]| if v.is_empty() { String::new() } else { v[o.b as usize % v.len()].clone() };
        match o.k.as_str() {
            "hurt" => {
                let cur = f.st.lock().unwrap().cur.clone();
                let mut b = cur.clone();
                damage::apply(&f.w, &mut b, &faults[o.b as usize % faults.len()], &foreign);
                // an open file does not change its length
                if b.len() < cur.len() {
                    let n = b.len();
                    b.resize(cur.len(), 0);
                    count(C_DAMAGE);
                    if n + 1 >= cur.len() {
                        return;
                    }
                }
                f.store(b);
            }
            "scene" => {
                // one container is unloaded, damaged where it is stored, loaded in vain, healed and loaded again
                let dirs: Vec<String> = f.w.lay.dirs.iter().map(|d| d.0.clone()).collect();
                let path = if o.c & 1 == 0 { pick(&dirs) } else { pick(&f.cont) };
                let Some((_, at_, len)) = f.w.lay.dirs.iter().chain(&f.w.lay.images).find(|x| x.0 == path) else { return };
                let Some(n) = f.nav(&path) else { return };
                if single {
                    f.heal();
                }
                unparse(&n);
                let mut r = Rng::new(o.b ^ o.c);
                let mut b = f.st.lock().unwrap().cur.clone();
                for _ in 0..1 + r.below(2) {
                    let q = at_ + if r.chance(1, 2) { r.below(8.min(*len as u64).max(1)) } else { r.below((*len as u64).max(1)) } as usize;
                    damage::value(&mut b, q.min(at_ + len.saturating_sub(1)), &mut r);
                }
                f.store(b);
                for _ in 0..1 + r.below(2) {
                    f.load(&n, &path, single);
                }
                f.heal();
                f.load(&n, &path, single);
                if single && !f.tainted(&n) {
                    count(C_RETRY);
                    must_match("retry", &format!("{}: {path:?} loaded after a failure", f.w.path), &n, at(&f.w, &path), LOAD);
                }
            }
            "heal" => f.heal(),
            "parse" => {
                let path = pick(&f.cont);
                if let Some(n) = f.nav(&path) {
                    f.load(&n, &path, single);
                }
            }
            "memfail" => {
                // only images of .ms files are mapped when they are loaded
                let f = c2.iter().find(|f| f.w.kind == Kind::Ms).unwrap_or(f);
                let waiting: Vec<String> = f.w.image_paths().into_iter().filter(|p| f.nav(p).is_some_and(|n| matches!(snap(&n).obj, WzObjectType::MsImage(_)))).collect();
                let path = if waiting.is_empty() { f.cont[o.b as usize % f.cont.len()].clone() } else { pick(&waiting) };
                let Some(n) = f.nav(&path) else { return };
                let call = if o.c % 3 == 0 { disk::PROT } else { disk::MEM };
                let hits = || vec![Hit { call, nth: (o.c >> 4) % 2 * ((o.c >> 5) % 2), errno: libc::ENOMEM, on: o.c % 2 == 0, ..Default::default() }];
                if o.b % 3 == 0 {
                    // a lookup that has to make the image for itself may not find it
                    disk::mine(hits());
                    let x = get_node_without_parse(&f.root(), &format!("{path}/{}", o.b % 7));
                    drop(x);
                    disk::mine_done();
                }
                f.load_under(&n, &path, single, hits());
                // and again without the fault
                f.load(&n, &path, single);
                // the node itself may never have been unloaded: what is below it must be sound, too
                if single && !f.now().0 && f.st.lock().unwrap().taint.is_empty() {
                    count(C_RETRY);
                    must_match("retry", &format!("{}: {path:?} loaded after a failure", f.w.path), &n, at(&f.w, &path), LISTING);
                }
            }
            "unparse" => {
                if let Some(n) = f.nav(&pick(&f.cont)) {
                    unparse(&n);
                }
            }
            "look" => {
                let path = pick(&f.all);
                if path.is_empty() || link_in(&f.w, &path) {
                    return;
                }
                // the image the path is in
                let Some(ip) = f.w.image_paths().into_iter().find(|i| i.is_empty() || path.starts_with(&format!("{i}/"))) else { return };
                let inner = if ip.is_empty() { path.as_str() } else { &path[ip.len() + 1..] };
                let Some(n) = f.nav(&ip) else { return };
                let o = snap(&n).obj;
                let e = f.now();
                count(C_LOOKUP);
                let r = match o {
                    WzObjectType::Image(i) => i.at_path(inner),
                    WzObjectType::MsImage(i) => i.to_wz_image().at_path(inner),
                    _ => return,
                };
                if !f.healthy_since(e) || f.tainted(&n) {
                    return;
                }
                match r {
                    Err(x) => violate("retry", &format!("{}: {path:?} is not found in healthy storage: {x}", f.w.path)),
                    Ok(x) => {
                        if let Err(t) = check_value(&snap(&x).obj, at(&f.w, &path)) {
                            if f.healthy_since(e) {
                                violate("retry", &format!("{}: looked up {path:?}: {t}", f.w.path));
                            }
                        }
                    }
                }
            }
            "keep" | "read" => {
                let path = pick(&f.all);
                if path.is_empty() || link_in(&f.w, &path) {
                    return;
                }
                let Some(n) = f.nav(&path) else { return };
                let e = f.now();
                let r = check_value(&snap(&n).obj, at(&f.w, &path));
                if let Err(t) = r {
                    if f.healthy_since(e) && !f.tainted(&n) {
                        violate("retry", &format!("{}: {path:?} read from healthy storage: {t}", f.w.path));
                    }
                }
                if o.k == "keep" && !f.tainted(&n) {
                    f.st.lock().unwrap().kept.push((path, n));
                }
            }
            "walk" => {
                let r = f.root();
                let e = f.now();
                if e.0 || !single {
                    // nodes loaded on the way are not told apart, so only through this harness
                    for path in &f.cont {
                        if let Some(n) = f.nav(path) {
                            f.load(&n, path, single);
                        }
                    }
                } else {
                    wz_reader::util::walk_node(&r, true, &|_| ());
                }
            }
            "retry" if single => {
                f.heal();
                f.untaint();
                count(C_RETRY);
                must_match("retry", &format!("{} loaded from healed storage", f.w.path), &f.root(), &f.w.root, FULL);
            }
            "retry" => {
                let n = f.root();
                f.load(&n, "", single);
            }
            "iofail" if single => open_failing(f, o),
            _ => {}
        }
    });
    let _ = rng.next();
    for f in c.iter() {
        f.heal();
        // half of the time what could be loaded is unloaded first
        f.untaint();
        if p.seed & 2 == 0 {
            unparse(&f.root());
        }
        count(C_RETRY);
        must_match("retry", &format!("{} loaded from healed storage", f.w.path), &f.root(), &f.w.root, FULL);
        let kept = std::mem::take(&mut f.st.lock().unwrap().kept);
        for (path, n) in kept {
            let m = at(&f.w, &path);
            if matches!(m.v, V::Dir | V::Img) {
                continue;
            }
            if let Err(e) = check_value(&snap(&n).obj, m) {
                violate("handle", &format!("{}: {path:?} kept over a failure: {e}", f.w.path));
            }
        }
    }
}

//! Bounded check of the sweep with curves: runs the crate's sweep on random scenes of line segments, circles and arcs in
//! general position, against crossings computed here.
//! curves <threads> <seed> <task>...   task: rnd:KINDS:GRID:LO:HI:COUNT (COUNT scenes of LO to HI curves; KINDS of s, o, a, j if
//! curves may start at, end at or pass through an end of another, and r if there is a rectangle with rounded corners as well; GRID is the number of possible
//! coordinates per unit, 0 for any) | The last line of stdout is JSON.
use rcgal::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;
use rcgal::kernel::{arc_segment_2::ArcSegment2, circle_segment_2::CircleSegment2, line_segment_2::LineSegment2, point_2::Point2};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

type P = (f64, f64);
#[derive(Clone, Copy, Debug)]
enum C { S(P, P), O(P, f64), A(P, f64, f64, f64) }
const M: f64 = 0.02;
const TAU: f64 = 2.0 * std::f64::consts::PI;
fn d(a: P, b: P) -> f64 { ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt() }
fn ends(c: &C) -> Vec<P> { match *c { C::S(a, b) => vec![a, b], C::O(..) => vec![], C::A(o, r, s, t) => vec![at(o, r, s), at(o, r, t)] } }
fn at(o: P, r: f64, a: f64) -> P { (o.0 + r * a.cos(), o.1 + r * a.sin()) }
fn circ(c: &C) -> Option<(P, f64)> { match *c { C::S(..) => None, C::O(o, r) => Some((o, r)), C::A(o, r, _, _) => Some((o, r)) } }
/// the points of the supporting line or circles; None: too close to call
fn support(a: &C, b: &C) -> Option<Vec<P>> {
    match (circ(a), circ(b)) {
        (None, None) => {
            if let (C::S(p, q), C::S(u, v)) = (a, b) {
                let e = (q.0 - p.0, q.1 - p.1); let f = (v.0 - u.0, v.1 - u.1);
                let x = e.0 * f.1 - e.1 * f.0;
                if x.abs() < 1e-9 && ((u.0 - p.0) * e.1 - (u.1 - p.1) * e.0).abs() > M * d(*p, *q) { return Some(vec![]); }
                if x.abs() < 0.05 * d(*p, *q) * d(*u, *v) { return None; }
                let t = ((u.0 - p.0) * f.1 - (u.1 - p.1) * f.0) / x;
                return Some(vec![(p.0 + t * e.0, p.1 + t * e.1)]);
            }
            unreachable!()
        }
        (None, Some((o, r))) => {
            if let C::S(p, q) = a {
                let l = d(*p, *q); let e = ((q.0 - p.0) / l, (q.1 - p.1) / l);
                let t = (o.0 - p.0) * e.0 + (o.1 - p.1) * e.1;
                let f = (p.0 + t * e.0, p.1 + t * e.1);
                let h = d(o, f);
                if (h - r).abs() < M { return None; }
                if h > r { return Some(vec![]); }
                let w = (r * r - h * h).sqrt();
                return Some(vec![(f.0 - w * e.0, f.1 - w * e.1), (f.0 + w * e.0, f.1 + w * e.1)]);
            }
            unreachable!()
        }
        (Some(_), None) => support(b, a),
        (Some((o, r)), Some((p, s))) => {
            let l = d(o, p);
            if l < M && (r - s).abs() < M { return None; }
            if (l - r - s).abs() < M || (l - (r - s).abs()).abs() < M { return None; }
            if l > r + s || l < (r - s).abs() { return Some(vec![]); }
            let x = (l * l + r * r - s * s) / (2.0 * l); let y = (r * r - x * x).sqrt();
            let e = ((p.0 - o.0) / l, (p.1 - o.1) / l);
            Some(vec![(o.0 + x * e.0 - y * e.1, o.1 + x * e.1 + y * e.0), (o.0 + x * e.0 + y * e.1, o.1 + x * e.1 - y * e.0)])
        }
    }
}
fn on(c: &C, p: P) -> bool {
    if ends(c).iter().any(|e| d(*e, p) < 1e-9) { return true; }
    match *c {
        C::S(a, b) => (p.0 - a.0) * (b.0 - a.0) + (p.1 - a.1) * (b.1 - a.1) > 0.0 && (p.0 - b.0) * (a.0 - b.0) + (p.1 - b.1) * (a.1 - b.1) > 0.0,
        C::O(..) => true,
        C::A(o, _, s, t) => { let a = ((p.1 - o.1).atan2(p.0 - o.0) - s).rem_euclid(TAU); a < t - s }
    }
}
/// the end at which a segment goes over into an arc with the same tangent
fn smooth(a: &C, b: &C) -> Option<P> {
    if let (C::A(o, r, ..), C::S(p, q)) = (a, b) {
        for e in [*p, *q] {
            let along = ((e.0 - o.0) * (q.0 - p.0) + (e.1 - o.1) * (q.1 - p.1)) / (r * d(*p, *q));
            if ends(a).iter().any(|x| d(*x, e) < 1e-9) && along.abs() < 1e-9 { return Some(e); }
        }
    }
    None
}
fn want(v: &[C]) -> Option<Vec<P>> {
    let mut special: Vec<P> = Vec::new();
    for c in v {
        if let C::S(a, b) = c {
            let dx = (a.0 - b.0).abs();
            if dx > 0.0 && dx < M {
                return None;
            }
        }
        special.extend(ends(c));
        if let Some((o, r)) = circ(c) { for p in [(o.0 + r, o.1), (o.0 - r, o.1), (o.0, o.1 + r), (o.0, o.1 - r)] { if ends(c).iter().any(|e| d(*e, p) < 1e-9) { continue; } if on(c, p) { special.push(p) } } }
    }
    let mut out = Vec::new();
    for i in 0..v.len() { for j in 0..i {
        if let Some(e) = smooth(&v[i], &v[j]).or(smooth(&v[j], &v[i])) { out.push(e); continue; }
        for p in support(&v[i], &v[j])? {
            for c in [&v[i], &v[j]] { if ends(c).iter().any(|e| d(*e, p) < M && d(*e, p) > 1e-9) { return None; } }
            if on(&v[i], p) && on(&v[j], p) {
                for c in v { if let Some((o, r)) = circ(c) { for q in [(o.0 + r, o.1), (o.0 - r, o.1), (o.0, o.1 + r), (o.0, o.1 - r)] { if d(p, q) < M { return None; } } } }
                special.push(p); out.push(p);
            }
        }
    } }
    for i in 0..special.len() { for j in 0..i { let x = d(special[i], special[j]); if x < M && x > 1e-9 { return None; } } }
    Some(out)
}

/// None: not in general position; Some(None): fine; Some(Some(text)): a violation
fn check(v: &[C]) -> Option<Option<String>> {
    let want = want(v)?;
    let v: Vec<C> = v.to_vec();
    let r = std::panic::catch_unwind(move || {
        let mut sw = SweepSegment2Intersection::new();
        for c in &v {
            match *c {
                C::S(a, b) => sw.push_segment(&LineSegment2::new(Point2::new(a.0, a.1), Point2::new(b.0, b.1))),
                C::O(o, r) => sw.push_segment(&CircleSegment2::new(Point2::new(o.0, o.1), r)),
                C::A(o, r, s, t) => sw.push_segment(&ArcSegment2::new(CircleSegment2::new(Point2::new(o.0, o.1), r), s, t)),
            }
        }
        sw.intersection()
    });
    let got: Vec<P> = match r {
        Err(_) => return Some(Some("the sweep panics".to_string())),
        Ok(g) => g.iter().map(|p| (p.x(), p.y())).collect(),
    };
    for p in &want {
        if !got.iter().any(|q| d(*p, *q) < 1e-6) {
            return Some(Some(format!("the meeting point ({}, {}) is not reported", p.0, p.1)));
        }
    }
    Some(None)
}

fn curve(u: &mut impl FnMut() -> f64, kinds: &[u8], grid: f64) -> C {
    let kind = kinds[(u() * kinds.len() as f64) as usize];
    let mut q = |x: f64| if grid > 0.0 { (u() * x * grid).floor() / grid } else { u() * x };
    loop {
        let p = (q(10.0), q(10.0));
        if kind == b's' {
            let r = (q(10.0), q(10.0));
            if d(p, r) > 0.4 {
                return C::S(p, r);
            }
            continue;
        }
        let r = 0.5 + q(4.0);
        if kind == b'o' {
            return C::O(p, r);
        }
        let (s, t) = if grid > 0.0 {
            let s = q(8.0).floor();
            (s * TAU / 8.0, (s + 1.0 + q(7.0).floor()) * TAU / 8.0)
        } else {
            let s = q(1.0) * TAU;
            (s, s + 0.3 + q(1.0) * (TAU - 0.6))
        };
        return C::A(p, r, s, t);
    }
}

struct Shared {
    stop: AtomicBool,
    done: AtomicU64,
    skipped: AtomicU64,
    found: Mutex<Option<(Vec<C>, String)>>,
    /// what every worker is at, and since when
    now: Mutex<Vec<(Vec<C>, std::time::Instant)>>,
}

impl Shared {
    fn run(&self, me: usize, scene: &[C]) {
        self.now.lock().unwrap()[me] = (scene.to_vec(), std::time::Instant::now());
        match check(scene) {
            None => {
                self.skipped.fetch_add(1, Ordering::Relaxed);
            }
            Some(None) => {
                self.done.fetch_add(1, Ordering::Relaxed);
            }
            Some(Some(t)) => {
                let mut f = self.found.lock().unwrap();
                if f.is_none() {
                    *f = Some((scene.to_vec(), t));
                }
                self.stop.store(true, Ordering::Relaxed);
            }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let threads: usize = args[1].parse().unwrap();
    let seed: u64 = args[2].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let sh = Arc::new(Shared {
        stop: AtomicBool::new(false),
        done: AtomicU64::new(0),
        skipped: AtomicU64::new(0),
        found: Mutex::new(None),
        now: Mutex::new(vec![(Vec::new(), std::time::Instant::now()); threads]),
    });
    let mut report = Vec::new();
    for task in &args[3..] {
        let p: Vec<String> = task.split(':').map(|x| x.to_string()).collect();
        let t0 = std::time::Instant::now();
        let (d0, s0) = (sh.done.load(Ordering::Relaxed), sh.skipped.load(Ordering::Relaxed));
        let next = Arc::new(AtomicU64::new(0));
        let finished = Arc::new(AtomicU64::new(0));
        for me in 0..threads {
            let (sh, p, next, finished) = (sh.clone(), p.clone(), next.clone(), finished.clone());
            std::thread::spawn(move || {
                let n = |i: usize| p[i].parse::<i64>().unwrap();
                let mut s = (seed * 1000003 + me as u64 * 7919 + n(2) as u64 * 104729 + p[1].len() as u64 * 31 + 1).wrapping_mul(0x9E3779B97F4A7C15) | 1;
                let mut u = move || {
                    s ^= s << 13;
                    s ^= s >> 7;
                    s ^= s << 17;
                    (s >> 11) as f64 / (1u64 << 53) as f64
                };
                while (next.fetch_add(1, Ordering::Relaxed) as i64) < n(5) && !sh.stop.load(Ordering::Relaxed) {
                    let k = n(3) + (u() * (n(4) - n(3) + 1) as f64) as i64;
                    let mut scene: Vec<C> = Vec::new();
                    if p[1].contains('r') {
                        let (x, y, w, h, r) = (u() * 5.0, u() * 5.0, 3.0 + u() * 5.0, 3.0 + u() * 5.0, 0.3 + u() * 1.1);
                        let t = if u() < 0.3 { 0.0 } else { u() * TAU };
                        let q = |a: f64, b: f64| (x + a * t.cos() - b * t.sin(), y + a * t.sin() + b * t.cos());
                        for (i, (a, b)) in [(w - r, h - r), (r, h - r), (r, r), (w - r, r)].iter().enumerate() {
                            let f = t + i as f64 * TAU / 4.0;
                            let f = if f >= TAU { f - TAU } else { f };
                            scene.push(C::A(q(*a, *b), r, f, f + TAU / 4.0));
                        }
                        for (a, b, c, d) in [(r, 0.0, w - r, 0.0), (w, r, w, h - r), (w - r, h, r, h), (0.0, h - r, 0.0, r)] { scene.push(C::S(q(a, b), q(c, d))); }
                    }
                    for _ in 0..k {
                        let kinds: Vec<u8> = p[1].bytes().filter(|c| b"soa".contains(c)).collect();
                        let c = curve(&mut u, &kinds, n(2) as f64);
                        let es: Vec<P> = scene.iter().flat_map(|c| ends(c)).collect();
                        if !p[1].contains('j') || es.is_empty() || u() < 0.4 { scene.push(c); continue; }
                        let e = es[(u() * es.len() as f64) as usize];
                        scene.push(match c {
                            C::S(a, b) if u() < 0.5 => C::S(e, if d(e, a) > 0.4 { a } else { b }),
                            C::S(a, b) => { let (x, y) = ((b.0 - a.0) / 2.0, (b.1 - a.1) / 2.0); C::S((e.0 - x, e.1 - y), (e.0 + x, e.1 + y)) }
                            C::O(_, r) => { let t = u() * TAU; C::O(at(e, r, t), r) }
                            C::A(_, r, s, t) => {
                                let w = if u() < 0.5 { s } else if u() < 0.5 { t } else { s + (t - s) * u() };
                                C::A((e.0 - r * w.cos(), e.1 - r * w.sin()), r, s, t)
                            }
                        });
                    }
                    sh.run(me, &scene);
                }
                finished.fetch_add(1, Ordering::Relaxed);
                sh.now.lock().unwrap()[me].0.clear();
            });
        }
        let mut hang = None;
        while (finished.load(Ordering::Relaxed) as usize) < threads && hang.is_none() && !sh.stop.load(Ordering::Relaxed) {
            std::thread::sleep(std::time::Duration::from_millis(20));
            for (s, t) in sh.now.lock().unwrap().iter() {
                if !s.is_empty() && t.elapsed().as_secs() >= 20 {
                    hang = Some(s.clone());
                }
            }
        }
        if let Some(s) = hang {
            let mut f = sh.found.lock().unwrap();
            if f.is_none() {
                *f = Some((s, "the sweep does not return within 20 s".to_string()));
            }
            sh.stop.store(true, Ordering::Relaxed);
        }
        report.push(format!(
            "{{\"task\": \"{}\", \"scenes\": {}, \"not_in_general_position_skipped\": {}, \"seconds\": {:.2}}}",
            task,
            sh.done.load(Ordering::Relaxed) - d0,
            sh.skipped.load(Ordering::Relaxed) - s0,
            t0.elapsed().as_secs_f64()
        ));
        if sh.stop.load(Ordering::Relaxed) {
            break;
        }
    }
    let f = sh.found.lock().unwrap();
    let bad = match &*f {
        None => "null".to_string(),
        Some((s, t)) => {
            let list: Vec<String> = s
                .iter()
                .map(|c| match *c {
                    C::S(a, b) => format!("[\"segment\", {}, {}, {}, {}]", a.0, a.1, b.0, b.1),
                    C::O(o, r) => format!("[\"circle\", {}, {}, {}]", o.0, o.1, r),
                    C::A(o, r, s, t) => format!("[\"arc\", {}, {}, {}, {}, {}]", o.0, o.1, r, s, t),
                })
                .collect();
            format!("{{\"curves\": [{}], \"what\": \"{}\"}}", list.join(", "), t)
        }
    };
    println!("{{\"tasks\": [{}], \"violation\": {}}}", report.join(", "), bad);
    std::process::exit(0);
}

//! Bounded check of polygon simplicity and of the triangulation: runs the crate on every small polygon and on random larger
//! ones, against exact integer geometry.
//! polygons <simple|earcut> <threads> <seed> <task>...   task: all:G:N (all N-vertex polygons on a G x G grid) |
//! rnd:G:LO:HI:COUNT (random vertices) | star:G:LO:HI:COUNT (sorted around the middle) | untangled:G:LO:HI:COUNT (crossings undone)
//! The last line of stdout is JSON.
use rcgal::algorithm::triangulation::earcut_2::earcut_2;
use rcgal::kernel::{point_2::Point2, polygon_2::Polygon2};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

type Q = (i64, i64);

fn turn(a: Q, b: Q, c: Q) -> i64 {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}

fn on(p: Q, a: Q, b: Q) -> bool {
    turn(a, b, p) == 0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1)
}

fn meet(a: Q, b: Q, c: Q, d: Q) -> bool {
    on(c, a, b)
        || on(d, a, b)
        || on(a, c, d)
        || on(b, c, d)
        || turn(a, b, c).signum() * turn(a, b, d).signum() < 0 && turn(c, d, a).signum() * turn(c, d, b).signum() < 0
}

/// consecutive edges share just their common vertex, other edges share nothing
fn simple(v: &[Q]) -> bool {
    let n = v.len();
    for i in 0..n {
        let (a, b) = (v[i], v[(i + 1) % n]);
        if a == b {
            return false;
        }
        for j in 0..n {
            let (c, d) = (v[j], v[(j + 1) % n]);
            if i == j || (j + 1) % n == i {
                continue;
            }
            if (i + 1) % n == j {
                if on(d, a, b) || on(a, c, d) {
                    return false;
                }
            } else if meet(a, b, c, d) {
                return false;
            }
        }
    }
    true
}

/// where a polygon lies in the plane, and how large it is
#[derive(Clone, Copy, PartialEq)]
struct Place(f64, f64, f64);

const HERE: Place = Place(1.0, 0.0, 0.0);

impl Place {
    fn of(&self, q: &Q) -> (f64, f64) {
        (q.0 as f64 * self.0 + self.1, q.1 as f64 * self.0 + self.2)
    }
}

fn polygon(v: &[Q], at: Place) -> Polygon2<f64> {
    Polygon2::new(v.iter().map(|q| at.of(q)).map(|q| Point2::new(q.0, q.1)).collect())
}

fn check(mode: &str, v: &[Q], at: Place) -> Option<Option<String>> {
    let want = simple(v);
    let w: Vec<Q> = v.to_vec();
    if mode == "simple" {
        return Some(match std::panic::catch_unwind(move || polygon(&w, at).is_simple()) {
            Err(_) => Some("the test for simplicity panics".to_string()),
            Ok(g) if g == want => None,
            Ok(true) => Some("the boundary touches itself, but the polygon is called simple".to_string()),
            Ok(false) => Some("the polygon is simple, but it is not called so".to_string()),
        });
    }
    if !want {
        return Some(std::panic::catch_unwind(move || earcut_2(polygon(&w, at))).ok().map(|t| format!("the polygon is not simple, but it is cut up all the same (triangles {:?})", t)));
    }
    let t = match std::panic::catch_unwind(move || earcut_2(polygon(&w, at))) {
        Err(_) => return Some(Some("triangulating panics".to_string())),
        Ok(t) => t,
    };
    let n = v.len();
    let bad = |s: String| Some(Some(format!("{} (triangles {:?})", s, t)));
    if t.len() != n - 2 {
        return bad(format!("{} triangles for {} vertices", t.len(), n));
    }
    let area: i64 = (0..n).map(|i| v[i].0 * v[(i + 1) % n].1 - v[i].1 * v[(i + 1) % n].0).sum();
    let mut sum = 0;
    let mut sides: HashMap<(usize, usize), i32> = HashMap::new();
    for x in &t {
        if x.len() != 3 || x.iter().any(|i| *i >= n) {
            return bad("not three vertices of the polygon".to_string());
        }
        // in the order of the boundary, so turning like the polygon
        let mut y = x.clone();
        y.sort();
        let a = turn(v[y[0]], v[y[1]], v[y[2]]);
        if a == 0 || a.signum() != area.signum() {
            return bad(format!("triangle {:?} is flat or turned over", x));
        }
        sum += a;
        for (i, j) in [(y[0], y[1]), (y[1], y[2]), (y[0], y[2])] {
            *sides.entry((i, j)).or_insert(0) += 1;
        }
    }
    if sum != area {
        return bad("the areas do not add up to that of the polygon".to_string());
    }
    for ((i, j), k) in &sides {
        let edge = i + 1 == *j || *i == 0 && *j == n - 1;
        if *k != if edge { 1 } else { 2 } {
            return bad(format!("side {:?} belongs to {} triangles", (i, j), k));
        }
    }
    Some(None)
}

struct Shared {
    mode: String,
    stop: AtomicBool,
    done: AtomicU64,
    skipped: AtomicU64,
    simple: AtomicU64,
    found: Mutex<Option<(Vec<Q>, Place, String)>>,
    now: Mutex<Vec<(Vec<Q>, Place, std::time::Instant)>>,
}

impl Shared {
    fn run(&self, me: usize, v: &[Q], at: Place) {
        self.now.lock().unwrap()[me] = (v.to_vec(), at, std::time::Instant::now());
        if simple(v) {
            self.simple.fetch_add(1, Ordering::Relaxed);
        }
        match check(&self.mode, v, at) {
            None => {
                self.skipped.fetch_add(1, Ordering::Relaxed);
            }
            Some(None) => {
                self.done.fetch_add(1, Ordering::Relaxed);
            }
            Some(Some(t)) => {
                let mut f = self.found.lock().unwrap();
                if f.is_none() {
                    *f = Some((v.to_vec(), at, t));
                }
                self.stop.store(true, Ordering::Relaxed);
            }
        }
    }
}

fn words(sh: &Shared, me: usize, pts: &[Q], left: usize, cur: &mut Vec<Q>) {
    if sh.stop.load(Ordering::Relaxed) {
        return;
    }
    if left == 0 {
        return sh.run(me, cur, HERE);
    }
    for p in pts {
        cur.push(*p);
        words(sh, me, pts, left - 1, cur);
        cur.pop();
    }
}

fn untangle(v: &mut Vec<Q>) {
    let n = v.len();
    for _ in 0..60 {
        let mut again = false;
        for i in 0..n {
            for j in i + 2..n {
                if (j + 1) % n != i && meet(v[i], v[i + 1], v[j], v[(j + 1) % n]) {
                    v[i + 1..=j].reverse();
                    again = true;
                }
            }
        }
        if !again {
            return;
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let threads: usize = args[2].parse().unwrap();
    let seed: u64 = args[3].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let sh = Arc::new(Shared {
        mode: args[1].clone(),
        stop: AtomicBool::new(false),
        done: AtomicU64::new(0),
        skipped: AtomicU64::new(0),
        simple: AtomicU64::new(0),
        found: Mutex::new(None),
        now: Mutex::new(vec![(Vec::new(), HERE, std::time::Instant::now()); threads]),
    });
    let mut report = Vec::new();
    for task in &args[4..] {
        let p: Vec<String> = task.split(':').map(|x| x.to_string()).collect();
        let t0 = std::time::Instant::now();
        let before: Vec<u64> = [&sh.done, &sh.skipped, &sh.simple].iter().map(|x| x.load(Ordering::Relaxed)).collect();
        let next = Arc::new(AtomicU64::new(0));
        let finished = Arc::new(AtomicU64::new(0));
        for me in 0..threads {
            let (sh, p, next, finished) = (sh.clone(), p.clone(), next.clone(), finished.clone());
            std::thread::spawn(move || {
                let n = |i: usize| p[i].parse::<i64>().unwrap();
                if p[0] == "all" {
                    let g = n(1);
                    let pts: Vec<Q> = (0..g).flat_map(|x| (0..g).map(move |y| (x, y))).collect();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                        if i >= pts.len() * pts.len() || sh.stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let mut cur = vec![pts[i / pts.len()], pts[i % pts.len()]];
                        words(&sh, me, &pts, n(2) as usize - 2, &mut cur);
                    }
                } else {
                    let mut s = (seed * 1000003 + me as u64 * 7919 + n(1) as u64 * 104729 + 1) * 0x9E3779B97F4A7C15 | 1;
                    let mut r = move || {
                        s ^= s << 13;
                        s ^= s >> 7;
                        s ^= s << 17;
                        (s >> 11) as i64
                    };
                    while (next.fetch_add(1, Ordering::Relaxed) as i64) < n(4) && !sh.stop.load(Ordering::Relaxed) {
                        let k = n(2) + r() % (n(3) - n(2) + 1);
                        let mut v: Vec<Q> = (0..k).map(|_| (r() % n(1), r() % n(1))).collect();
                        if p[0] == "star" {
                            let c = n(1) as f64 / 2.0 - 0.3;
                            let at = |q: &Q| (q.1 as f64 - c).atan2(q.0 as f64 - c);
                            v.sort_by(|a, b| at(a).partial_cmp(&at(b)).unwrap());
                        } else if p[0] == "untangled" {
                            untangle(&mut v);
                        }
                        if r() % 2 == 0 {
                            v.reverse();
                        }
                        let at = (r() % k) as usize;
                        v.rotate_left(at);
                        let place = if r() % 2 == 0 {
                            HERE
                        } else {
                            Place([0.25, 0.5, 1.0, 3.0][(r() % 4) as usize], [0.0, -5.0, 20.0][(r() % 3) as usize], [0.0, -5.0, 20.0][(r() % 3) as usize])
                        };
                        sh.run(me, &v, place);
                    }
                }
                finished.fetch_add(1, Ordering::Relaxed);
                sh.now.lock().unwrap()[me].0.clear();
            });
        }
        let mut hang = None;
        while (finished.load(Ordering::Relaxed) as usize) < threads && hang.is_none() && !sh.stop.load(Ordering::Relaxed) {
            std::thread::sleep(std::time::Duration::from_millis(20));
            for (s, at, t) in sh.now.lock().unwrap().iter() {
                if !s.is_empty() && t.elapsed().as_secs() >= 20 {
                    hang = Some((s.clone(), *at));
                }
            }
        }
        if let Some((s, at)) = hang {
            let mut f = sh.found.lock().unwrap();
            if f.is_none() {
                *f = Some((s, at, "does not return within 20 s".to_string()));
            }
            sh.stop.store(true, Ordering::Relaxed);
        }
        report.push(format!(
            "{{\"task\": \"{}\", \"polygons\": {}, \"of these simple\": {}, \"not_simple_skipped\": {}, \"seconds\": {:.2}}}",
            task,
            sh.done.load(Ordering::Relaxed) - before[0],
            sh.simple.load(Ordering::Relaxed) - before[2],
            sh.skipped.load(Ordering::Relaxed) - before[1],
            t0.elapsed().as_secs_f64()
        ));
        if sh.stop.load(Ordering::Relaxed) {
            break;
        }
    }
    let f = sh.found.lock().unwrap();
    let bad = match &*f {
        None => "null".to_string(),
        Some((s, at, t)) => format!(
            "{{\"vertices\": [{}], \"what\": \"{}\"}}",
            s.iter().map(|q| at.of(q)).map(|q| format!("[{:?}, {:?}]", q.0, q.1)).collect::<Vec<_>>().join(", "),
            t
        ),
    };
    println!("{{\"tasks\": [{}], \"violation\": {}}}", report.join(", "), bad);
    std::process::exit(0);
}

//! Bounded check of the sweep's completeness: runs the crate's sweep on every small scene of line segments and on
//! random larger ones, against exact integer geometry.
//! scenes <threads> <seed> <task>...   task: all:G:N (all N-segment scenes on a G x G grid) | rnd:G:LO:HI:COUNT
//! The last line of stdout is JSON.
use rcgal::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;
use rcgal::kernel::{line_segment_2::LineSegment2, point_2::Point2};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

type S = [i64; 4];

fn turn(a: (i64, i64), b: (i64, i64), c: (i64, i64)) -> i64 {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}

enum Meet {
    No,
    At(f64, f64),
    Overlap,
}

fn within(a: (i64, i64), b: (i64, i64), p: (i64, i64)) -> bool {
    p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1)
}

fn meet(s: &S, t: &S) -> Meet {
    let (a, b, c, d) = ((s[0], s[1]), (s[2], s[3]), (t[0], t[1]), (t[2], t[3]));
    let (o1, o2, o3, o4) = (turn(a, b, c), turn(a, b, d), turn(c, d, a), turn(c, d, b));
    if o1 == 0 && o2 == 0 {
        let mut common: Vec<(i64, i64)> = Vec::new();
        for (p, u, v) in [(a, c, d), (b, c, d), (c, a, b), (d, a, b)] {
            if within(u, v, p) && !common.contains(&p) {
                common.push(p);
            }
        }
        return match common.len() {
            0 => Meet::No,
            1 => Meet::At(common[0].0 as f64, common[0].1 as f64),
            _ => Meet::Overlap,
        };
    }
    if o1.signum() * o2.signum() > 0 || o3.signum() * o4.signum() > 0 {
        return Meet::No;
    }
    // c + (d - c) * o1 / (o1 - o2)
    let n = (o1 - o2) as f64;
    Meet::At(
        (c.0 * (o1 - o2) + (d.0 - c.0) * o1) as f64 / n,
        (c.1 * (o1 - o2) + (d.1 - c.1) * o1) as f64 / n,
    )
}

/// where a scene lies in the plane, and how large it is
#[derive(Clone, Copy, PartialEq)]
struct Place(f64, f64, f64);

const HERE: Place = Place(1.0, 0.0, 0.0);

impl Place {
    fn of(&self, x: f64, y: f64) -> (f64, f64) {
        (x * self.0 + self.1, y * self.0 + self.2)
    }
}

/// None: not in the claim; Some(None): fine; Some(Some(text)): a violation
fn check(scene: &[S], place: Place) -> Option<Option<String>> {
    let mut want: Vec<(f64, f64)> = Vec::new();
    for i in 0..scene.len() {
        for j in 0..i {
            match meet(&scene[i], &scene[j]) {
                Meet::No => {}
                Meet::Overlap => return None,
                Meet::At(x, y) => want.push(place.of(x, y)),
            }
        }
    }
    let v: Vec<S> = scene.to_vec();
    let r = std::panic::catch_unwind(move || {
        let mut w = SweepSegment2Intersection::new();
        for s in &v {
            let ((a, b), (c, d)) = (place.of(s[0] as f64, s[1] as f64), place.of(s[2] as f64, s[3] as f64));
            w.push_segment(&LineSegment2::new(Point2::new(a, b), Point2::new(c, d)));
        }
        w.intersection()
    });
    let got: Vec<(f64, f64)> = match r {
        Err(_) => return Some(Some("the sweep panics".to_string())),
        Ok(g) => g.iter().map(|p| (p.x(), p.y())).collect(),
    };
    for p in &want {
        if !got.iter().any(|q| (q.0 - p.0).abs() < 1e-6 && (q.1 - p.1).abs() < 1e-6) {
            return Some(Some(format!("the meeting point ({}, {}) is not reported", p.0, p.1)));
        }
    }
    Some(None)
}

struct Shared {
    stop: AtomicBool,
    done: AtomicU64,
    skipped: AtomicU64,
    found: Mutex<Option<(Vec<S>, Place, String)>>,
    /// what every worker is at, and since when
    now: Mutex<Vec<(Vec<S>, Place, std::time::Instant)>>,
}

impl Shared {
    fn run(&self, me: usize, scene: &[S], place: Place) {
        self.now.lock().unwrap()[me] = (scene.to_vec(), place, std::time::Instant::now());
        match check(scene, place) {
            None => {
                self.skipped.fetch_add(1, Ordering::Relaxed);
            }
            Some(None) => {
                self.done.fetch_add(1, Ordering::Relaxed);
            }
            Some(Some(t)) => {
                let mut f = self.found.lock().unwrap();
                if f.is_none() {
                    *f = Some((scene.to_vec(), place, t));
                }
                self.stop.store(true, Ordering::Relaxed);
            }
        }
    }
}

fn segs(g: i64) -> Vec<S> {
    let pts: Vec<(i64, i64)> = (0..g).flat_map(|x| (0..g).map(move |y| (x, y))).collect();
    let mut out = Vec::new();
    for i in 0..pts.len() {
        for j in 0..i {
            // either direction, so that the direction matters somewhere
            let (a, b) = if (i + j) % 2 == 0 { (pts[i], pts[j]) } else { (pts[j], pts[i]) };
            out.push([a.0, a.1, b.0, b.1]);
        }
    }
    out
}

fn combos(sh: &Shared, me: usize, all: &[S], from: usize, left: usize, cur: &mut Vec<S>) {
    if sh.stop.load(Ordering::Relaxed) {
        return;
    }
    if left == 0 {
        return sh.run(me, cur, HERE);
    }
    for i in from..all.len() {
        cur.push(all[i]);
        combos(sh, me, all, i + 1, left - 1, cur);
        cur.pop();
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let threads: usize = args[1].parse().unwrap();
    let seed: u64 = args[2].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let sh = Arc::new(Shared {
        stop: AtomicBool::new(false),
        done: AtomicU64::new(0),
        skipped: AtomicU64::new(0),
        found: Mutex::new(None),
        now: Mutex::new(vec![(Vec::new(), HERE, std::time::Instant::now()); threads]),
    });
    let mut report = Vec::new();
    for task in &args[3..] {
        let p: Vec<String> = task.split(':').map(|x| x.to_string()).collect();
        let t0 = std::time::Instant::now();
        let (d0, s0) = (sh.done.load(Ordering::Relaxed), sh.skipped.load(Ordering::Relaxed));
        let next = Arc::new(AtomicU64::new(0));
        let finished = Arc::new(AtomicU64::new(0));
        for me in 0..threads {
            let (sh, p, next, finished) = (sh.clone(), p.clone(), next.clone(), finished.clone());
            std::thread::spawn(move || {
                let n = |i: usize| p[i].parse::<i64>().unwrap();
                if p[0] == "all" {
                    let all = segs(n(1));
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                        if i >= all.len() || sh.stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let mut cur = vec![all[i]];
                        combos(&sh, me, &all, i + 1, n(2) as usize - 1, &mut cur);
                    }
                } else {
                    let mut s = (seed * 1000003 + me as u64 * 7919 + n(1) as u64 * 104729 + 1) * 0x9E3779B97F4A7C15 | 1;
                    let mut r = move || {
                        s ^= s << 13;
                        s ^= s >> 7;
                        s ^= s << 17;
                        (s >> 11) as i64
                    };
                    while (next.fetch_add(1, Ordering::Relaxed) as i64) < n(4) && !sh.stop.load(Ordering::Relaxed) {
                        let k = n(2) + r() % (n(3) - n(2) + 1);
                        let mut cur: Vec<S> = Vec::new();
                        while (cur.len() as i64) < k {
                            let c = [r() % n(1), r() % n(1), r() % n(1), r() % n(1)];
                            if (c[0], c[1]) != (c[2], c[3]) {
                                cur.push(c);
                            }
                        }
                        let place = if r() % 2 == 0 {
                            HERE
                        } else {
                            Place([0.25, 0.5, 1.0, 3.0][(r() % 4) as usize], [0.0, -5.0, 20.0][(r() % 3) as usize], [0.0, -5.0, 20.0][(r() % 3) as usize])
                        };
                        sh.run(me, &cur, place);
                    }
                }
                finished.fetch_add(1, Ordering::Relaxed);
                sh.now.lock().unwrap()[me].0.clear();
            });
        }
        let mut hang = None;
        while (finished.load(Ordering::Relaxed) as usize) < threads && hang.is_none() && !sh.stop.load(Ordering::Relaxed) {
            std::thread::sleep(std::time::Duration::from_millis(20));
            for (s, at, t) in sh.now.lock().unwrap().iter() {
                if !s.is_empty() && t.elapsed().as_secs() >= 20 {
                    hang = Some((s.clone(), *at));
                }
            }
        }
        if let Some((s, at)) = hang {
            let mut f = sh.found.lock().unwrap();
            if f.is_none() {
                *f = Some((s, at, "the sweep does not return within 20 s".to_string()));
            }
            sh.stop.store(true, Ordering::Relaxed);
        }
        report.push(format!(
            "{{\"task\": \"{}\", \"scenes\": {}, \"overlapping_skipped\": {}, \"seconds\": {:.2}}}",
            task,
            sh.done.load(Ordering::Relaxed) - d0,
            sh.skipped.load(Ordering::Relaxed) - s0,
            t0.elapsed().as_secs_f64()
        ));
        if sh.stop.load(Ordering::Relaxed) {
            break;
        }
    }
    let f = sh.found.lock().unwrap();
    let bad = match &*f {
        None => "null".to_string(),
        Some((s, at, t)) => {
            let ends: Vec<[f64; 4]> = s
                .iter()
                .map(|s| {
                    let ((a, b), (c, d)) = (at.of(s[0] as f64, s[1] as f64), at.of(s[2] as f64, s[3] as f64));
                    [a, b, c, d]
                })
                .collect();
            format!("{{\"segments\": {:?}, \"what\": \"{}\"}}", ends, t)
        }
    };
    println!("{{\"tasks\": [{}], \"violation\": {}}}", report.join(", "), bad);
    std::process::exit(0);
}

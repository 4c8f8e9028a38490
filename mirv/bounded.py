"""Bounded checks that stand in where no contract is within reach: labelled bounded, never counted as proved."""
import json
import os
import subprocess

import conc

HERE = os.path.dirname(os.path.abspath(__file__))


def run(binary, args, tasks, deeper, tier, seed, cores, limit):
    """build one of the exhaustive testers in /verif/replay/src/bin against /repo and run its tasks"""
    d = conc.Replay.dir
    src = os.path.join(d, binary + '-crate')
    conc.copy_crate(src)
    target = os.path.join(d, 'target-' + binary)
    env = dict(os.environ, CARGO_TARGET_DIR=target, RUSTFLAGS='--cfg rcgal_verif', CARGO_NET_OFFLINE='true')
    r = subprocess.run(['cargo', 'build', '--offline', '--release', '--bin', binary], cwd=src, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=300)
    if r.returncode:
        raise RuntimeError('the bounded check does not build: ' + r.stdout[-1500:])
    if tier == 'thorough':
        tasks = tasks + deeper
    try:
        r = subprocess.run([os.path.join(target, 'release', binary)] + args + [str(cores), str(seed)] + tasks, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=limit or (1500 if tier == 'thorough' else 400))
    except subprocess.TimeoutExpired:
        if limit is None:
            raise
        return {'violation': None, 'tasks': 'stopped after %d s: nothing found' % limit}
    if r.returncode:
        raise RuntimeError('the bounded check ends with %d: %s' % (r.returncode, r.stderr[-1500:]))
    return json.loads(r.stdout.strip().split('\n')[-1])


def scenes(tier, seed, cores, limit=None):
    """the sweep on every small scene of line segments, and on random larger ones (replay/src/bin/scenes.rs)"""
    out = run('scenes', [], ['all:3:%d' % n for n in (1, 2, 3, 4, 5)] + ['all:4:2', 'all:4:3', 'rnd:5:4:8:200000', 'rnd:9:4:10:200000', 'rnd:33:4:12:200000'],
              ['all:3:6', 'all:4:4', 'all:5:3', 'rnd:5:4:12:2000000', 'rnd:17:4:16:1000000', 'rnd:65:4:20:1000000'], tier, seed, cores, limit)
    v = out['violation']
    stats = {'bound': 'all:G:N is every scene of N segments between points of a G x G grid; rnd:G:LO:HI:COUNT is COUNT random scenes '
                      'of LO to HI segments on a G x G grid; scenes in which two segments overlap are outside the claim and skipped',
             'oracle': 'exact integer geometry', 'label': 'bounded', 'runs': out['tasks'],
             'not_reported_within': '1e-6'}
    return (v and {'obligation': 'bounded: every point where two pushed line segments meet is reported: ' + v['what'],
                   'inputs': v['segments'], 'how': 'push these line segments (x1, y1, x2, y2) in this order, then call intersection'}), stats


def curves(tier, seed, cores, limit=None):
    """the sweep on random scenes of line segments, circles and arcs in general position (replay/src/bin/curves.rs)"""
    out = run('curves', [], ['rnd:o:0:2:6:100000', 'rnd:a:0:2:6:100000', 'rnd:soa:0:2:8:200000', 'rnd:o:1:2:5:100000', 'rnd:soa:1:2:4:100000',
                             'rnd:soa:2:3:7:100000', 'rnd:a:4:2:6:100000',
                             'rnd:soj:0:2:6:100000', 'rnd:soaj:0:2:8:200000', 'rnd:aj:0:2:6:100000', 'rnd:soaj:1:2:6:100000', 'rnd:soaj:4:3:9:100000',
                             'rnd:sr:0:1:1:50000', 'rnd:soajr:0:1:4:100000'],
              ['rnd:%s:%d:%d:12:1000000' % (c, g, 3 if g else 2) for c in ('o', 'a', 'soa', 'soaj', 'soajr') for g in (0, 1, 2, 8)], tier, seed, cores, limit)
    v = out['violation']
    stats = {'bound': 'rnd:KINDS:GRID:LO:HI:COUNT is COUNT random scenes of LO to HI curves (s line segment, o circle, a arc; with j, curves that start at, end at or pass through an end of another; with r, a rectangle with rounded corners, axis-parallel or not, among them) in a 10 x 10 square, with coordinates '
                      'that are multiples of 1/GRID and angles that are multiples of 45 degrees (GRID 0: any); scenes not in general position (two of the ends, '
                      'crossings, leftmost, rightmost, top and bottom points closer than 0.02, other than ends and crossings in the same place, nearly touching curves, or nearly vertical segments) are outside the claim and skipped',
             'oracle': 'crossings of the supporting lines and circles in f64, far from every borderline', 'label': 'bounded', 'runs': out['tasks'],
             'not_reported_within': '1e-6'}
    return (v and {'obligation': 'bounded: every point where two pushed curves meet is reported: ' + v['what'], 'inputs': v['curves'],
                   'how': 'push these (segment x1 y1 x2 y2, circle x y radius, arc x y radius from-angle to-angle) in this order, then call intersection'}), stats


def polygons(mode, what, how):
    def f(tier, seed, cores, limit=None):
        out = run('polygons', [mode], ['all:3:%d' % n for n in (3, 4, 5, 6)] + ['all:4:4', 'all:4:5', 'rnd:5:3:7:300000', 'star:9:6:12:100000', 'star:40:6:20:50000',
                                       'untangled:6:5:12:100000', 'untangled:15:6:16:50000', 'untangled:50:6:24:30000'],
                  ['all:3:7', 'all:3:8', 'all:4:6', 'all:5:5', 'rnd:6:4:8:5000000', 'star:100:6:40:500000', 'untangled:6:8:20:1000000',
                   'untangled:30:10:40:300000', 'untangled:200:20:80:50000'], tier, seed, cores, limit)
        v = out['violation']
        stats = {'bound': 'all:G:N is every polygon of N vertices on a G x G grid; the others are COUNT random polygons of LO to HI vertices on a '
                          'G x G grid: rnd random vertices, star sorted by angle around the middle, untangled with crossings undone until simple; half of these are scaled by 0.25 to 3 and moved',
                 'oracle': 'exact integer geometry', 'label': 'bounded', 'runs': out['tasks']}
        return (v and {'obligation': 'bounded: ' + what + ': ' + v['what'], 'inputs': v['vertices'], 'how': how}), stats
    return f


CHECKS = {
    'C26': [('the sweep on all small scenes', scenes)],
    'C32': [('the sweep on scenes of curves in general position', curves)],
    'C27': [('simplicity of all small polygons', polygons('simple', 'a polygon is simple exactly when its boundary does not touch itself',
                                                          'build a Polygon2 with these vertices (x, y), then call is_simple'))],
    'C28': [('triangulation of all small simple polygons', polygons('earcut', 'ear clipping tiles a simple polygon with triangles',
                                                                    'build a Polygon2 with these vertices (x, y), then call earcut_2'))],
}

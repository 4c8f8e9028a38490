"""check.py <property> : decides one property on /repo's current tree."""
import importlib
import json
import multiprocessing as mp
import os
import pickle
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import expr
import engine
import models
import program
import prover
import ctx
import bounded
import conc
from values import Unsupported, RustPanic

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
BUDGET = 700 if TIER == 'quick' else 3000
CORES = int(os.environ.get('MIRV_CORES', '8'))


def left():
    return BUDGET - (time.time() - T0)


def search_secs(u):
    return max(5, min(left() - 60, u.opt.get('search', 45 if TIER == 'quick' else 180)))


def srch_nan(bad):
    return any(o.name.startswith('defined:') for o in bad)


# ------------------------------------------------------------------ one unit, in a child process
def run_unit(unit, prog, inline=(), unroll=None, workers=1, search=True, limit=None):
    t0 = time.time()
    res = {'unit': unit.name, 'key': unit.key, 'inline': sorted(inline), 'unroll': unroll}
    try:
        ex = engine.Explorer(prog, ctx.CONTRACTS, ctx.LOOPS, inline=inline, toplevel=unit.key, unroll=unroll, name=unit.name,
                             time_limit=min(unit.opt.get('time', 300), (limit or 600) / 2, max(20, left() * 0.6)),
                             max_paths=unit.opt.get('paths', 4000), feas_timeout=unit.opt.get('feas', 400))
        ex.sort_perm = unit.opt.get('sort') == 'perm'
        body = unit.prove
        ex.explore(body, ctx.Sym)
        obs = ex.obs
        res.update(paths=ex.paths, finished=ex.finished, covered=ex.covered, unsupported=ex.unsupported, bounded=ex.bounded,
                   touched=sorted(ex.touched), contracts=sorted(ex.used_contracts), inlined=sorted(ex.inlined_uses),
                   names=dict(ex.ob_names), total=ex.ob_total, syntactic=ex.syntactic, explore_s=round(ex.time, 2),
                   loops={'%s bb%d %s' % k: v for k, v in ex.loophits.items()}, models=sorted(models.USED))
        if ex.unsupported:
            res['status'] = 'unsupported'
            res['obs'] = []
            if unroll is None:
                return res
        srch = None

        def hunt(bad):
            # what the first provers leave open may simply be false: look for a failing input meanwhile
            nonlocal srch
            if search and srch is None and not unit.opt.get('proof_only'):
                srch = conc.Searcher(unit, prog, search_secs(unit), SEED, srch_nan(bad))
            return srch and (lambda: srch.poll() is not None)
        try:
            prover.prove_all(obs, workers=workers, stop_after_fail=6, deadline=min(T0 + BUDGET - 150, t0 + (limit or 9999)), on_open=hunt)
            bad = [o for o in obs if o.status != 'unsat']
            res['models'] = []
            w = None
            if bad:
                bad.sort(key=lambda o: (o.status != 'sat', len(o.pc)))
                stop = hunt(bad)
                if search:
                    end = time.time() + 40
                    for o in bad[:6]:
                        if time.time() > end or (stop and stop()):
                            break
                        try:
                            m = prover.model_of(o, timeout=4)
                        except Exception:
                            m = None
                        if m is not None:
                            res['models'].append((o.name, [float(x) if not isinstance(x, (bool, int, list)) else x for x in m]))
                if srch:
                    w = srch.poll()
                    if w is None and res['models']:
                        w, st = conc.search(unit, prog, [m for _, m in res['models']], 5, SEED, srch_nan(bad))
                    if w is None:
                        w = srch.wait()
                    res['search'] = srch.stats
            res['witness'] = w
        finally:
            if srch:
                srch.stop()
        res['obs'] = [(o.name, o.status, o.solver, round(o.time, 3)) for o in obs]
        res['solver_s'] = round(sum(o.time for o in obs), 2)
        res['solvers'] = {}
        for o in obs:
            for h in (o.solver or '').split('+'):
                res['solvers'][h] = res['solvers'].get(h, 0) + 1
        if ex.unsupported:
            pass
        elif bad:
            res['status'] = 'failed'
        elif ex.covered == 0:
            res['status'] = 'vacuous'
        else:
            res['status'] = 'proved'
        res['failed_names'] = []
        for o in bad:
            if o.name not in res['failed_names']:
                res['failed_names'].append(o.name)
        if bad:
            b = bad[0]
            res['failed_detail'] = {'obligation': b.name, 'solver': '%s: %s' % (b.solver, b.status),
                                    'goal': expr.show(b.goal)[:2000], 'path_condition': [expr.show(f)[:400] for f in b.pc[:60]]}
    except Unsupported as e:
        res.update(status='unsupported', unsupported=str(e), obs=[], names={}, total=0, syntactic=0)
    except Exception as e:
        res.update(status='error', unsupported='%s: %s' % (type(e).__name__, e), obs=[], names={}, total=0, syntactic=0,
                   trace=traceback.format_exc()[-1500:])
    res['wall_s'] = round(time.time() - t0, 2)
    return res


def run_parallel(jobs, own=()):
    """jobs: [(unit, kwargs)] -> results in order; forked children; a failing input for a unit of `own` ends the whole run"""
    c = mp.get_context('fork')
    out = [None] * len(jobs)
    pending = list(range(len(jobs)))
    live = {}
    while pending or live:
        while pending and len(live) < CORES:
            i = pending.pop(0)
            fd, path = tempfile.mkstemp(prefix='mirv')
            os.close(fd)
            unit, prog, kw = jobs[i]
            w = max(1, CORES // max(1, min(CORES, len(jobs))))
            w = max(w, unit.opt.get("workers", 4))
            kw = dict(kw, workers=w)

            def child(path=path, unit=unit, prog=prog, kw=kw):
                r = run_unit(unit, prog, **kw)
                with open(path, 'wb') as f:
                    pickle.dump(r, f)
            p = c.Process(target=child)
            p.start()
            live[i] = (p, path, time.time())
        for i in list(live):
            if i not in live:
                continue
            p, path, st = live[i]
            if not p.is_alive() or left() < 60:
                if p.is_alive():
                    p.kill()
                p.join()
                try:
                    with open(path, 'rb') as f:
                        out[i] = pickle.load(f)
                except Exception:
                    u = jobs[i][0]
                    out[i] = {'unit': u.name, 'key': u.key, 'status': 'error', 'unsupported': 'no result (time or memory)', 'obs': [],
                              'names': {}, 'total': 0, 'syntactic': 0, 'inline': [], 'contracts': []}
                os.unlink(path)
                del live[i]
                if out[i].get('witness') and jobs[i][0].name in own:
                    pending = []
                    for j in list(live):
                        kill_tree(live[j][0].pid)
                        live[j][0].join()
                        if os.path.exists(live[j][1]):
                            os.unlink(live[j][1])
                        del live[j]
        time.sleep(0.01)
    for i, r in enumerate(out):
        if r is None:
            u = jobs[i][0]
            out[i] = {'unit': u.name, 'key': u.key, 'status': 'stopped', 'unsupported': 'stopped: a failing input was found elsewhere',
                      'obs': [], 'names': {}, 'total': 0, 'syntactic': 0, 'inline': [], 'contracts': []}
    return out


def kill_tree(pid):
    """a process this check started, with what it started"""
    try:
        kids = subprocess.run(['pgrep', '-P', str(pid)], stdout=subprocess.PIPE, text=True).stdout.split()
    except OSError:
        kids = []
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    for k in kids:
        kill_tree(int(k))


# ------------------------------------------------------------------ whole property
class Check:
    def __init__(self, prop):
        self.prop = prop
        self.results = {}
        self.units = {}
        self.progs = {}
        self.searches = {}
        self.reports = []
        self.hunted = False
        self.standins = {}

    def prog(self, unit):
        target = unit.opt.get('target')
        if target not in self.progs:
            text = program.dump_mir(target)
            self.progs[target] = program.Program(text, wasm=bool(target)) if target else program.Program(text)
        return self.progs[target]

    def prove_closure(self, units):
        """proves the units and, transitively, every contract they rely on"""
        todo = list(units)
        while todo:
            self.put(todo, [{'search': u.name in self.own} for u in todo])
            if self.witnessed():
                return
            need = set()
            for r in self.results.values():
                for k in r.get('contracts', []):
                    c = ctx.CONTRACTS[k]
                    if c.name not in self.results:
                        need.add(k)
            todo = [ctx.CONTRACTS[k] for k in sorted(need)]

    def put(self, units, kws):
        jobs = [(u, self.prog(u), kw) for u, kw in zip(units, kws)]
        for u, r in zip(units, run_parallel(jobs, self.own)):
            self.units[u.name] = u
            self.results[u.name] = r

    def witnessed(self):
        return [n for n in self.own if n in self.results and self.results[n].get('witness')]

    def deps(self, name, seen=None):
        seen = set() if seen is None else seen
        for k in self.results[name].get('contracts', []):
            n = ctx.CONTRACTS[k].name
            if n not in seen:
                seen.add(n)
                if n in self.results:
                    self.deps(n, seen)
        return seen

    def stop(self):
        """failing inputs settle the property"""
        for n in self.witnessed():
            w = self.results[n]['witness']
            self.report(n, w['obligation'], w, self.results[n])
        return bool(self.reports)

    def run(self):
        units = [c for c in ctx.CONTRACTS.values() if c.prop == self.prop or self.prop in c.opt.get('also', ())]
        units += [l for l in ctx.LEMMAS if l.prop == self.prop or self.prop in l.opt.get('also', ())]
        own = [u.name for u in units]
        self.own = own
        assert units or self.prop in bounded.CHECKS, 'no units for ' + self.prop
        for name, f in bounded.CHECKS.get(self.prop, ()):
            w, self.standins[name] = f(TIER, SEED, CORES)
            if w:
                return self.report(name, w['obligation'], w, None)
        self.prove_closure(units)
        if self.stop():
            return
        handled = set()
        own = [n for n in own if not self.units[n].opt.get('advisory')]
        loose = [n for n in self.own if n not in own and self.results[n]['status'] != 'proved']
        if loose and TIER != 'thorough':
            # contracts on private functions: how they share the work is no part of the property
            for name, f in bounded.CHECKS.get(self.prop, ()):
                w, self.standins[name + ', deeper'] = f('thorough', SEED, CORES, max(60, min(180, left() - 200)))
                if w:
                    w['failed contracts'] = {n: self.results[n].get('failed_names') for n in loose}
                    return self.report(name, w['obligation'], w, None)
        for _ in range(5):
            # units that fail on contracts which all hold
            broken = {n for n, r in self.results.items() if r['status'] != 'proved' and r.get('key') and n.startswith('contract ')}
            for n in own:
                r = self.results[n]
                if n in handled or r['status'] == 'proved' or self.bad_deps(n, broken):
                    continue
                handled.add(n)
                if r['status'] == 'failed':
                    self.report_failed(n, r)
                else:
                    self.fallback(n)
            if self.reports:
                return
            # a unit whose contracts are not all established is proved again with the callees' bodies
            again = []
            for n in own:
                bad = self.bad_deps(n, broken)
                if bad:
                    again.append((n, bad | set(self.results[n].get('inline', []))))
            if not again:
                break
            for n, _ in again:
                handled.discard(n)
            self.put([self.units[n] for n, _ in again], [{'inline': b} for n, b in again])
            if self.stop():
                return
            need = {k for n in own for k in self.results[n].get('contracts', []) if ctx.CONTRACTS[k].name not in self.results}
            if need:
                self.prove_closure([ctx.CONTRACTS[k] for k in sorted(need)])
        for n in own:
            if n not in handled and self.results[n]['status'] != 'proved':
                (self.report_failed if self.results[n]['status'] == 'failed' else lambda n, r: self.fallback(n))(n, self.results[n])

    def bad_deps(self, n, broken):
        bad = {ctx.CONTRACTS[self.results[d]['key']].key for d in (self.deps(n) & broken) if d != n}
        return bad - set(self.results[n].get('inline', []))

    # -------------------------------------------------------------- outside the verifier's reach: labelled bounded
    def fallback(self, n):
        u, r = self.units[n], self.results[n]
        w, r['search'] = self.search(u, r)
        if w is not None:
            return self.report(n, w['obligation'], w, None)
        b = self.bounded(n) if left() > 150 else None
        if b and b.get('witness'):
            return self.report(n, b['witness']['obligation'], b['witness'], b)
        if b and b['status'] == 'failed' and any(s == 'sat' for _, s, _, _ in b['obs']) and not u.opt.get('bounded_loose') and not self.hunt_all():
            self.report(n, b['failed_names'][0], None, b)

    def bounded(self, n):
        """the unit again, loops unrolled up to a bound"""
        u, r = self.units[n], self.results[n]
        b = run_parallel([(u, self.prog(u), {'unroll': u.opt.get('unroll', 4), 'inline': set(r.get('inline', [])),
                                                'limit': 240})])[0]
        r['bounded_run'] = {k: b.get(k) for k in ('status', 'total', 'paths', 'unsupported', 'failed_names', 'unroll')}
        return b

    def search(self, u, r):
        if u.opt.get('proof_only'):
            return None, {'note': 'no concrete replay for this unit'}
        s = conc.Searcher(u, self.prog(u), search_secs(u), SEED, any(x.startswith('defined:') for x in r.get('failed_names', [])), 6)
        try:
            return s.wait(), s.stats
        finally:
            s.stop()

    def report_failed(self, n, r):
        u = self.units[n]
        w = r.get('witness')
        if w is None and r.get('loops') and left() > 100:
            # the invariant may simply not fit a rewritten loop: the unrolled (bounded) proof tells a broken
            # property from a proof that no longer applies; a clean one is recorded as not proved, not as a violation
            b = self.bounded(n)
            w = b.get('witness')
            clean = b['status'] in ('proved', 'vacuous') or (
                b['status'] == 'failed' and w is None and (u.opt.get('bounded_loose') or all(x[1] != 'sat' for x in b['obs'])))
            if clean and not b.get('unsupported'):
                return
        if w is None and not r.get('search'):
            w, r['search'] = self.search(u, r)
        if w is None and self.hunt_all():
            return
        self.report(n, w['obligation'] if w else r['failed_names'][0], w, r)

    def hunt_all(self):
        """a failing input for any unit of the property"""
        if self.hunted:
            return False
        self.hunted = True
        us = [self.units[n] for n in self.own if not self.units[n].opt.get('proof_only')]
        secs = max(5, min(left() - 60, 25 * (1 + len(us) // 8)))
        ss = [(u, conc.Searcher(u, self.prog(u), secs, SEED + 77, False, 1)) for u in us]
        found = False
        try:
            while not found and not all(s.done() for _, s in ss):
                time.sleep(0.05)
                for u, s in ss:
                    w = s.poll()
                    if w is not None:
                        self.report(u.name, w['obligation'], w, self.results[u.name])
                        found = True
                        break
        finally:
            for _, s in ss:
                s.stop()
        return found

    def report(self, n, ob, w, r):
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (self.prop, re.sub(r'[^A-Za-z0-9_]+', '_', n)[:60]))
        doc = {'property': self.prop, 'unit': n, 'failed_obligation': ob, 'witness': w}
        if r is not None:
            doc['verifier'] = {k: r.get(k) for k in ('failed_names', 'failed_detail', 'models', 'solvers')}
            doc['undischarged'] = [o for o in r.get('obs', []) if o[1] != 'unsat'][:20]
        with open(path, 'w') as f:
            json.dump(doc, f, indent=1, default=str)
        self.reports.append((n, ob, path, w is not None))


TRUSTED = [
    'rustc: the MIR dumped from /repo (-Zunpretty=mir, same source, optimisation off) is the program that runs',
    "mirv's MIR semantics and its models of the standard library (listed per run under std_models)",
    'z3 5.3.2 / z3 4.8.12 / cvc5 1.1.2: an unsat answer is correct',
    'machine arithmetic of the generic number type T is treated as real arithmetic (no rounding, overflow, NaN); integers are mathematical with overflow checked',
    'the tolerance T::default_eps() is any real number with 0 < eps <= 1e-6; T::pi() is a real between 3.14159 and 3.1416',
    'sqrt(x) is the non-negative root for x >= 0; sin/cos satisfy sin^2+cos^2=1, oddness/evenness and pi-shifts; atan2 satisfies its quadrant bounds',
]


def main():
    prop = sys.argv[1]
    importlib.import_module('specs')
    conc.Replay.setup()
    ck = Check(prop)
    conc.Replay.wasm = any(u.prop == prop and u.opt.get('target') for u in ctx.LEMMAS)
    code = 0
    try:
        ck.run()
    finally:
        conc.Replay.cleanup()
    findings = importlib.import_module('findings')
    known = findings.run(prop, ck)
    own = set(ck.own)
    tot = sum(r.get('total', 0) for r in ck.results.values())
    bad = sum(len([1 for o in r.get('obs', []) if o[1] != 'unsat']) for r in ck.results.values())
    proved_units = [n for n, r in ck.results.items() if r['status'] == 'proved']
    unproved = {n: (r['status'], r.get('unsupported') or r.get('failed_names')) for n, r in ck.results.items() if r['status'] != 'proved'}
    # obligations of units that were not completed do not count as discharged
    disch = sum(r.get('total', 0) for n, r in ck.results.items() if r['status'] == 'proved')
    touched = sorted({t for r in ck.results.values() for t in r.get('touched', [])})
    solvers = {}
    for r in ck.results.values():
        for k, v in (r.get('solvers') or {}).items():
            solvers[k] = solvers.get(k, 0) + v
    syn = sum(r.get('syntactic', 0) for r in ck.results.values())
    ev = {
        'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED,
        'level': 'proof',
        'coverage': {
            'obligations': tot, 'discharged': disch,
            'checker_cmd': 'python3-vt mirv/check.py ' + prop,
            'trusted_base': TRUSTED + ['std models: ' + ', '.join(sorted({m for r in ck.results.values() if isinstance(r.get('models'), list)
                                                                  for m in r['models'] if isinstance(m, str)} | models.USED)[:400])],
            'units': {n: {'status': r['status'], 'obligations': r.get('total'), 'paths': r.get('paths'), 'syntactic': r.get('syntactic'),
                          'contracts_used': r.get('contracts'), 'explore_s': r.get('explore_s'), 'solver_s': r.get('solver_s'),
                          'own': n in own, 'loops_cut': r.get('loops')} for n, r in ck.results.items()},
            'functions_under_contract': sorted({ctx.CONTRACTS[k].key for k in ctx.CONTRACTS if ctx.CONTRACTS[k].name in ck.results}),
            'functions_executed_inline': touched,
            'back_ends': dict(solvers, **{'syntactic (path facts)': syn}),
            'solver_s': round(sum(r.get('solver_s') or 0 for r in ck.results.values()), 2),
            'obligation_names': sorted({k for r in ck.results.values() for k in r.get('names', {})})[:200],
            'not_proved': unproved,
            'bounded_checks': ck.standins,
            'bounded': {n: r.get('bounded_run') for n, r in ck.results.items() if r.get('bounded_run')},
            'searches': {n: r.get('search') for n, r in ck.results.items() if r.get('search')},
        },
        'assumptions': TRUSTED[3:] + sorted({a for u in ck.units.values() for a in u.opt.get('assumes', ())}),
        'wall_s': round(time.time() - T0, 2),
        'violations': len(ck.reports),
    }
    if unproved and any(n in own for n in unproved):
        ev['level'] = 'other'
        ev['coverage']['explanation'] = ('some units of this property were not proved on this tree (see not_proved); '
                                         'they were checked by bounded symbolic execution and concrete search only')
    if ck.standins:
        ev['level'] = 'other'
        ev['coverage']['explanation'] = ((ev['coverage'].get('explanation', '') + '; ').lstrip('; ') +
            'the property as a whole rests on the bounded checks (see bounded_checks), which are not counted as proved; '
            'the units are contracts on the functions it depends on, discharged for all inputs')
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for n, ob, path, wit in ck.reports:
        print('# %s: obligation failed: %s' % (n, ob))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if wit else ' no-failing-input-found'))
        code = 1
    print('# %s: %d units, %d obligations, %d discharged, %.1f s' % (prop, len(ck.results), tot, disch, time.time() - T0))
    if os.environ.get('MIRV_VERBOSE'):
        for n, r in ck.results.items():
            print('#   %-60s %s paths=%s obs=%s syn=%s explore=%ss solve=%ss %s' % (
                n[:60], r['status'], r.get('paths'), r.get('total'), r.get('syntactic'), r.get('explore_s'), r.get('solver_s'),
                r.get('unsupported') or r.get('failed_names') or ''))
            if r.get('trace'):
                print(r['trace'])
    sys.exit(code)


if __name__ == '__main__':
    main()

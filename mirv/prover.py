"""Discharging obligations: linear abstraction, then exact nonlinear z3, then an SMT-LIB portfolio (z3 4.8, z3 5.x, cvc5)."""
import ctypes
import os
import subprocess
import tempfile
import time
import multiprocessing as mp
from fractions import Fraction

import z3
import expr
from expr import *
import smt
import engine

OBS = []


def varids(e, memo={}):
    r = memo.get(e.id)
    if r is None:
        r = frozenset(free_vars(e))
        memo[e.id] = r
    return r


def relevant(pc, goal, hops):
    if not varids(goal):
        return list(pc)
    vs = set(varids(goal))
    left = list(pc)
    out = []
    for _ in range(hops):
        take = [f for f in left if varids(f) & vs]
        if not take:
            break
        ids = {id(f) for f in take}
        left = [f for f in left if id(f) not in ids]
        out += take
        for f in take:
            vs |= varids(f)
    return out


def z3_check(pc, goal, timeout, tactic=None):
    s = z3.Solver() if tactic is None else z3.SolverFor(tactic)
    s.set('timeout', int(timeout * 1000))
    for f in pc:
        s.add(smt.full(f))
    s.add(z3.Not(smt.full(goal)))
    return s.check(), s


def lin_check(pc, goal, timeout):
    s = smt.LinSolver(int(timeout * 1000))
    for f in pc:
        s.add(f)
    return s.check(Not(goal))


def tosmt(pc, goal):
    s = z3.Solver()
    for f in pc:
        s.add(smt.full(f))
    s.add(z3.Not(smt.full(goal)))
    t = s.to_smt2()
    return '(set-logic ALL)\n' + t


def die_with_parent():
    try:
        ctypes.CDLL(None).prctl(1, 9)
    except Exception:
        pass


def external(pc, goal, timeout, deadline=None):
    """run the portfolio; first definite answer wins"""
    txt = tosmt(pc, goal)
    fd, path = tempfile.mkstemp(suffix='.smt2')
    with os.fdopen(fd, 'w') as f:
        f.write(txt)
    cmds = [('cvc5', ['cvc5', '--tlimit=%d' % int(timeout * 1000), path]),
            ('z3-4.8', ['z3', '-T:%d' % int(timeout), path]),
            ('z3-5.3-nlsat', ['z3-new', '-T:%d' % int(timeout), 'tactic.default_tactic=qfnra-nlsat', path]),
            ('z3-5.3-arith2', ['z3-new', '-T:%d' % int(timeout), 'smt.arith.solver=2', path])]
    procs = []
    for n, c in cmds:
        try:
            procs.append((n, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, preexec_fn=die_with_parent)))
        except OSError:
            pass
    t0 = time.time()
    res = ('unknown', '')
    live = dict((n, p) for n, p in procs)
    try:
        while live and time.time() - t0 < timeout + 5:
            for n in list(live):
                p = live[n]
                if p.poll() is not None:
                    del live[n]
                    out = p.stdout.read().strip().split('\n')
                    if 'unsat' in out:
                        res = ('unsat', n)
                        live_kill(live)
                        return res
                    if 'sat' in out:
                        res = ('sat', n)
                        live_kill(live)
                        return res
            time.sleep(0.02)
    finally:
        live_kill(dict(procs))
        os.unlink(path)
    return res


def live_kill(d):
    for p in d.values():
        if p.poll() is None:
            try:
                p.kill()
            except OSError:
                pass
        try:
            p.wait(2)
        except Exception:
            pass


def prove_one(i, ext=True):
    o = OBS[i]
    t0 = time.time()
    st, how = 'unknown', ''
    try:
        st, how = _prove(o.pc, o.goal, ext)
    except Exception as e:
        st, how = 'unknown', 'error: %s: %s' % (type(e).__name__, e)
    return i, st, how, time.time() - t0


CFG = {'t_lin': 2.0, 't_full': 4.0, 't_ext': 60.0}


def _prove(pc, goal, ext=True):
    # goals that are conjunctions are split
    if goal.op == 'and':
        hows = set()
        for g in goal.args:
            st, how = _prove(pc, g, ext)
            if st != 'unsat':
                return st, how
            hows.add(how)
        return 'unsat', '+'.join(sorted(hows))
    r = lin_check(pc, goal, CFG['t_lin'])
    if r == z3.unsat:
        return 'unsat', 'z3-linear'
    if ext:
        # everything in-process has been tried
        rel = relevant(pc, goal, 50)
        if len(rel) < len(pc):
            r, _ = z3_check(rel, goal, CFG['t_full'])
            if r == z3.unsat:
                return 'unsat', 'z3-nra'
            if r == z3.sat:
                rel = pc
        return external(rel, goal, CFG['t_ext'])
    try:
        el = elim(relevant(pc, goal, 50), goal)
    except RecursionError:
        el = None
    if el is not None:
        epc, egoal = el
        if egoal is TRUE or epc == [FALSE]:
            return 'unsat', 'substitution'
        r = lin_check(epc, egoal, CFG['t_lin'])
        if r == z3.unsat:
            return 'unsat', 'substitution+z3-linear'
        rel = relevant(epc, egoal, 50)
        r, _ = z3_check(rel, egoal, CFG['t_full'] / 2)
        if r == z3.unsat:
            return 'unsat', 'substitution+z3-nra'
        if no_uf(rel):
            r, _ = z3_check(rel, egoal, CFG['t_full'] / 2, 'QF_NRA')
            if r == z3.unsat:
                return 'unsat', 'substitution+z3-nlsat'
    rel1 = relevant(pc, goal, 1)
    sat = False
    if len(rel1) < len(pc):
        r, _ = z3_check(rel1, goal, CFG['t_full'] / 4)
        if r == z3.unsat:
            return 'unsat', 'z3-nra'
    rel = relevant(pc, goal, 50)
    rel2 = relevant(pc, goal, 2)
    if len(rel1) < len(rel2) < len(rel):
        r, _ = z3_check(rel2, goal, CFG['t_full'] / 2)
        if r == z3.unsat:
            return 'unsat', 'z3-nra'
    r, _ = z3_check(rel, goal, CFG['t_full'])
    if r == z3.unsat:
        return 'unsat', 'z3-nra'
    if r == z3.sat and len(rel) == len(pc):
        return 'sat', 'z3-nra'
    if r != z3.sat:
        r, _ = z3_check(rel, goal, CFG['t_full'], 'QF_NRA') if no_uf(rel) else (r, 0)
        if r == z3.unsat:
            return 'unsat', 'z3-nlsat'
        if r == z3.sat and len(rel) == len(pc):
            return 'sat', 'z3-nlsat'
    if len(rel) < len(pc):
        # the path condition may be contradictory away from the goal
        r2, _ = z3_check(pc, goal, CFG['t_full'])
        if r2 == z3.unsat:
            return 'unsat', 'z3-nra'
        if r2 == z3.sat:
            return 'sat', 'z3-nra'
        if r == z3.sat:
            rel = pc
    return 'unknown', 'hard'


def elim(pc, goal, limit=40):
    """solve equations for variables that occur alone and linearly, and substitute"""
    pc = list(pc)
    changed = False
    for _ in range(limit):
        best = None
        for i, f in enumerate(pc):
            p = atom_parts(f)
            if not p or p[0] != '=' or p[1].sort != 'R':
                continue
            d = poly(sub(p[1], p[2]))
            if d is None or len(d) > 12:
                continue
            for k, c in d.items():
                if len(k) == 1 and k[0][1] == 1:
                    v = expr._byid[k[0][0]]
                    if v.op != 'v' or v is engine.EPS or v is engine.PI:
                        continue
                    if any(x[0] == v.id for k2 in d if k2 != k for x in k2):
                        continue
                    rest = {k2: Fraction(-c2) / c for k2, c2 in d.items() if k2 != k}
                    if any(v.id in free_vars(expr._byid[x[0]]) for k2 in rest for x in k2):
                        continue
                    deg = max([sum(x[1] for x in k2) for k2 in rest] or [0])
                    w = (deg, len(rest))
                    if best is None or w < best[0]:
                        best = (w, i, v, rest)
        if best is None:
            break
        w, i, v, rest = best
        t = from_poly(rest, 'R')
        m = {v.id: t}
        memo = {}
        del pc[i]
        npc = []
        for f in pc:
            g = subst(f, m, memo) if v.id in varids(f) else f
            if g is FALSE:
                return [FALSE], goal
            if g is not TRUE:
                npc.append(g)
        pc = npc
        goal = subst(goal, m, memo)
        changed = True
        if goal is TRUE:
            return pc, goal
        if any(len(poly(x) or ()) > 400 for f in pc[:0] for x in f.args):
            break
    return (pc, goal) if changed else None


def no_uf(fs):
    return all(all(isinstance(v, E) and v.sort == 'R' for v in free_vars(f).values()) for f in fs)


def prove_all(obs, workers=8, stop_after_fail=None, deadline=None, on_open=None):
    """fills status/solver/time of the obligations: everything with the in-process provers first, what is left with the portfolio"""
    global OBS
    OBS = obs
    if not obs:
        return
    run_pool(list(range(len(obs))), workers, False, 3, deadline)
    hard = [i for i, o in enumerate(obs) if o.solver == 'hard' or o.status is None]
    if hard and not any(o.status == 'sat' for o in obs):
        stop = on_open([obs[i] for i in hard]) if on_open else None
        if deadline:
            deadline = min(deadline, time.time() + 90 + CFG['t_ext'])
        run_pool(hard, workers, True, stop_after_fail and 2, deadline, stop)
    for o in obs:
        if o.status is None:
            o.status, o.solver = 'unknown', 'no answer'


def run_pool(idx, workers, ext, stop_after_fail, deadline, stop=None):
    obs = OBS
    n = min(workers, len(idx))
    fails = 0
    if n == 1 and stop is None:
        for i in idx:
            _, st, how, t = prove_one(i, ext)
            obs[i].status, obs[i].solver, obs[i].time = st, how, obs[i].time + t
        return
    # a pool of forked workers over a shared queue
    ctx = mp.get_context('fork')
    nxt = ctx.Value('i', 0)
    q = ctx.SimpleQueue()

    def work():
        while True:
            with nxt.get_lock():
                k = nxt.value
                nxt.value += 1
            if k >= len(idx):
                q.put(None)
                return
            i = idx[k]
            if deadline and time.time() > deadline:
                q.put((i, 'unknown', 'time budget', 0.0))
                continue
            q.put(prove_one(i, ext))
    ps = [ctx.Process(target=work) for _ in range(n)]
    for p in ps:
        p.start()
    done = 0
    got = 0
    while done < n and got < len(idx) + n:
        if q.empty():
            if not any(p.is_alive() for p in ps) and q.empty():
                break
            if stop and stop():
                fails = 1
                nxt.value = len(idx)
                break
            time.sleep(0.005)
            continue
        r = q.get()
        if r is None:
            done += 1
            continue
        got += 1
        i, st, how, t = r
        obs[i].status, obs[i].solver, obs[i].time = st, how, obs[i].time + t
        if st == 'sat' or (ext and st != 'unsat'):
            fails += 1
            if stop_after_fail and fails >= stop_after_fail:
                nxt.value = len(idx)
                if ext:
                    break
    for p in ps:
        p.join(0.2 if fails else 5)
        if p.is_alive():
            p.kill()


def model_of(o, timeout=8, eps=Fraction(1, 10 ** 10), bound=50, block=()):
    """numbers for the inputs violating the obligation on this path (candidate only); None if none found"""
    extra = []
    fs = [smt.full(f) for f in o.pc] + [z3.Not(smt.full(o.goal))]
    base = []
    for v, g in o.inputs:
        if isinstance(v, E) and v.sort == 'R':
            x = smt.full(v)
            base.append(z3.And(x >= -bound, x <= bound))
    epsz = smt.full(engine.EPS)
    for with_eps, with_bound in ((True, True), (True, False)):
        s = z3.Solver()
        s.set('timeout', int(timeout * 1000))
        s.add(*fs)
        if with_eps:
            s.add(epsz == z3.RealVal(str(eps)))
        if with_bound:
            s.add(*base)
        for b in block:
            s.add(b)
        r = s.check()
        if r == z3.sat:
            m = s.model()
            out = []
            for v, g in o.inputs:
                if isinstance(v, tuple) and v and v[0] == 'pts':
                    cnt = zval(m.eval(smt.full(I(v[1])), model_completion=True))
                    if cnt > 24:
                        return None
                    out.append([tuple(float(zval(m.eval(smt.full(app(fs, i)), model_completion=True))) for fs in v[2:]) for i in range(int(cnt))])
                    continue
                if not isinstance(v, E):
                    out.append(v)
                    continue
                out.append(zval(m.eval(smt.full(v), model_completion=True)))
            return out
        if r == z3.unsat and with_bound is False:
            return None
    return None


def zval(x):
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_algebraic_value(x):
        a = x.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return Fraction(0)

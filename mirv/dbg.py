"""dbg.py <unit name substring> [maxfail]: proves one unit and prints models of what failed (development aid)."""
import sys
import check, ctx, specs, engine, prover, program, smt, expr, z3


WIDTH = 700


def main():
    name = sys.argv[1]
    units = [u for u in list(ctx.CONTRACTS.values()) + ctx.LEMMAS if name in u.name]
    for u in units[:1]:
        print(u.name)
        prog = check.Check('X').prog(u)
        ex = engine.Explorer(prog, ctx.CONTRACTS, ctx.LOOPS, toplevel=u.key, name=u.name, time_limit=300,
                             max_paths=u.opt.get('paths', 4000), feas_timeout=u.opt.get('feas', 400))
        ex.sort_perm = u.opt.get('sort') == 'perm'
        ex.explore(u.prove, ctx.Sym)
        print('paths', ex.paths, 'unsupported', ex.unsupported, 'inlined', ex.inlined_uses)
        prover.prove_all(ex.obs, workers=8)
        for o in sorted(ex.obs, key=lambda o: -o.time)[:6]:
            if o.time > 3:
                print('slow %.1f %s %s' % (o.time, o.solver, o.name))
        n = 0
        for o in ex.obs:
            if o.status == 'unsat':
                continue
            n += 1
            if n > int(sys.argv[2]) if len(sys.argv) > 2 else n > 1:
                break
            print('FAILED', o.name, o.status, o.solver)
            for f in o.pc:
                t = expr.show(f)
                print('   ', t[:WIDTH])
            print('  goal', expr.show(o.goal)[:1500])
            s = z3.Solver()
            s.set('timeout', 20000)
            s.add(*[smt.full(f) for f in o.pc])
            s.add(z3.Not(smt.full(o.goal)))
            r = s.check()
            print(r)
            if r == z3.sat:
                print(s.model())


main()

"""trysearch.py <unit substring> [seconds] : random search only, on /repo's present tree (development aid)"""
import sys, time
sys.path.insert(0, '/verif/mirv')
import check, ctx, specs, conc
conc.Replay.setup()
conc.Replay.wasm = sys.argv[1] in ("C30",) or sys.argv[1].startswith("wasm")
try:
    for u in list(ctx.CONTRACTS.values()) + ctx.LEMMAS:
        if sys.argv[1] in u.name or sys.argv[1] == u.prop:
            s = conc.Searcher(u, check.Check('X').prog(u), float(sys.argv[2]), 1, n=2)
            t = time.time(); w = s.wait(); s.stop()
            print(u.name[:70], 'FOUND %s %s' % (w['obligation'], str(w)[:3000]) if w else '-', round(time.time() - t, 1), s.stats)
finally:
    conc.Replay.cleanup()

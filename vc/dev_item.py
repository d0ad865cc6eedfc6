"""development: verify one item and show failures"""
import sys, vc, items, jobs
T = sys.argv[1]
mods, nb = items.item_modules(T)
ex = vc.extract(mods)
g, res = jobs.verify("item:" + T, mods, ex, rlimit=60, threads=8, extra=["--verify-root"] + sys.argv[2:], render=lambda m, e: vc.render(m, e, nb))
vc.show(g, res)
print("aside", g.aside)

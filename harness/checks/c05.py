"""C05: the sensitivity handed to every observed density update against
finite differences of an independent model of the whole chain."""
import numpy as np
import gen
import ref
from replay import Replay

RULE = "distinct (optimizer, interpolation, mesh kind and cells, load cases, iteration parameters) at which the sensitivity was judged"
ASSUMPTIONS = ["spatial filter, no sensitivity filter (the Helmholtz gradient is a known finding of C07)"]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"component": 150, "direction": 50}


def judge(m, r, R, s):
    rng = m.rng("dir", r.dst[-1:], s.iter, len(s.before))
    n = len(s.before)
    J0 = R.objective(s.before, s.iter)
    scale = np.max(np.abs(s.dC))
    h = 1e-5

    def fd(d):
        a = R.objective(s.before + h * d, s.iter)
        b = R.objective(s.before - h * d, s.iter)
        a2 = R.objective(s.before + 2 * h * d, s.iter)
        b2 = R.objective(s.before - 2 * h * d, s.iter)
        return (8 * (a - b) - (a2 - b2)) / (12 * h)
    noise = 1e-11 * abs(J0) / h
    for e in rng.permutation(n)[:m.pick(3, 6)]:
        d = np.zeros(n)
        d[e] = 1.0
        m.close(s.dC[e], fd(d), "component", rtol=1e-5, scale=scale, atol=noise, iter=s.iter, element=int(R.des[e]))
    for _ in range(m.pick(1, 2)):
        d = rng.choice([-1.0, 1.0], n)
        m.close(s.dC @ d, fd(d), "direction", rtol=1e-5, scale=np.abs(s.dC).sum(), atol=noise, iter=s.iter)
    m.ok(np.all(s.dC <= 1e-12 * scale), "compliance-never-grows-with-material", iter=s.iter, max=s.dC.max())
    m.seen(r.kind, r.cfg.interpolation, r.info.get("cells"), r.task.n_tasks,
           round(float(r.value("p", s.iter)), 6), round(float(r.value("beta", s.iter)), 6))
    m.sample(iter=s.iter, J=J0, max_dC=scale, n_design=n)


def run(m):
    for i in range(m.pick(40, 500)):
        if not m.mine(i) or m.out_of_time():
            continue
        rng = m.rng("run", i)
        over = {"interpolation": ["SIMP", "RAMP"][m.nth(i, 2, "1")], "E_min_coeff": float(10 ** rng.uniform(-4, -1.5))}
        if m.nth(i, 5, "2") == 1:
            over["design_dirichlet"] = True
        if m.nth(i, 3, "3") == 0:
            over["record_times"] = 1
        r = gen.Run(m, rng, kind=["oc", "logmoc", "oc"][m.nth(i, 3, "4")], physics="elastic", filter_type="spacial",
                    iters=int(rng.integers(2, 5)), max_elems=m.pick(50, 110), loads=[1, 2, 3][m.nth(i, 3, "5")],
                    E=[None, None, float(10 ** rng.uniform(-7, -4)), float(10 ** rng.uniform(-4, 12))][m.nth(i, 4, "6")], **over)
        with m.case(f"run-{i}", **r.info):
            r.opt.optimize()
            R = Replay(r)
            for s in r.steps:
                if not R.ambiguous(s.iter) and not m.out_of_time():
                    judge(m, r, R, s)
        r.close()

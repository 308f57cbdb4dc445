"""C14: histories against a recording of what was fed, over random
collections, export/import round trips and whole runs."""
import os
import numpy as np
import gen
import tracer
from tracer import same_entry

RULE = "distinct (collection shape, lengths, round trips) and (run kind, iteration count, partition) histories judged"
ASSUMPTIONS = ["names do not end in '_header' (reserved by the file format)", "a quantity is fed either scalars or arrays throughout"]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"entry-is-what-was-fed": 2000, "round-trip": 400, "fresh-import": 300, "one-entry-per-iteration": 300,
           "run-entry": 300, "file-equals-recorder": 15, "latest": 300}


def stats(x, kind):
    x = np.asarray(x, float)
    s = [x.min(), x.mean(), x.max()]
    return s + [x.std()] if kind == "min-max-mean-std" else s


def value(rng, arrays):
    if not arrays:
        k = int(rng.integers(5))
        v = float(rng.choice([rng.normal(), 0.0, 1e300, -1e-300, np.nan, np.inf]))
        return [v, np.float64(v), np.array(v), float(v), np.float64(v)][k]
    shape = [(1,), (7,), (3, 4), (50,), (2,)][int(rng.integers(5))]
    x = rng.normal(size=shape) * 10 ** rng.uniform(-3, 6)
    if rng.random() < 0.2:
        x = np.round(x)
    if rng.random() < 0.1:
        return x[::-1]
    return x


def matches(got, want):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return False
    with np.errstate(all="ignore"):
        return bool(np.all((got == want) | (np.isnan(got) & np.isnan(want)) | (np.abs(got - want) <= 1e-12 * np.max(np.abs(want)))))


def collection(m, i):
    from sktopt import tools
    rng = m.rng("collection", i)
    d = m.scratch("hist")
    n = int(rng.integers(1, 9))
    spec = {}
    names = ["rho", "-dC", "u_max", "a b", "λ", "x.y", "h1", "h2", "h3", "vol_error"]
    with m.case(f"collection-{i}", series=n):
        H = tools.HistoryCollection(d)
        for k in rng.permutation(len(names))[:n]:
            kind = str(rng.choice(["value", "min-max-mean", "min-max-mean-std"]))
            spec[names[k]] = (kind, bool(rng.random() < 0.5), [])
            H.add(names[k], plot_type=kind, ylog=bool(rng.random() < 0.5))
        empty = set(nm for nm in spec if rng.random() < 0.15)
        for rnd in range(int(rng.integers(1, 5))):
            for _ in range(int(rng.choice([0, 1, 2, 5, 12, 3, 4]))):
                for nm, (kind, arrays, want) in spec.items():
                    if nm in empty or (rng.random() < 0.05):
                        continue
                    x = value(rng, arrays)
                    x0 = np.array(x, copy=True)
                    H.feed_data(nm, x)
                    m.ok(same_entry(x, x0), "input-unchanged")
                    want.append(stats(x0, kind) if arrays else float(x0))
                    m.ok(matches(H.histories[nm].latest(), want[-1]), "latest", name=nm, got=H.histories[nm].latest(), want=want[-1])
                    m.ok(matches(H.latest(nm), want[-1]), "latest", name=nm)
                    if arrays:
                        x = np.asarray(x)
                        x += 1000.0      # the entry must not follow the array
            act = int(rng.integers(3))
            if act == 0:
                H.export_histories()
            elif act == 1 and any(w for _, _, w in spec.values()):
                H.export_histories(fname="other.npz")
                H.import_histories(fname="other.npz")
            judge(m, H, spec, "round-trip" if act < 2 else "entry-is-what-was-fed")
        H.export_histories()
        judge(m, H, spec, "round-trip")
        if any(w for _, _, w in spec.values()):
            fresh = tools.HistoryCollection(d)
            fresh.import_histories()
            some = {k: v for k, v in spec.items() if v[2]}
            judge(m, fresh, some, "fresh-import", exact_names=True)
            from sktopt.tools.history import compare_histories_data_and_plot_type as same
            m.ok(same(fresh.histories, {k: H.histories[k] for k in some}), "compare-equal")
            obj = fresh.as_object()
            for nm, (_, _, want) in some.items():
                m.ok(matches(getattr(obj, nm), want), "as-object", name=nm)
            last = fresh.as_object_latest()
            for nm, (_, _, want) in some.items():
                m.ok(matches(getattr(last, nm), want[-1]), "as-object", name=nm)
            # a changed copy must not compare equal
            k = list(some)[int(rng.integers(len(some)))]
            if np.all(np.abs(np.asarray(some[k][2], float)) < 1e6):
                up = lambda x: x + 1e7       # noqa: E731
                e = fresh.histories[k].data[-1]
                fresh.histories[k].data[-1] = [up(e[0])] + list(e[1:]) if isinstance(e, (list, tuple)) else up(e)
                m.ok(not same(fresh.histories, {q: H.histories[q] for q in some}), "compare-differs", name=k)
            leftovers = [f for f in os.listdir(d) if f not in ("histories.npz", "other.npz")]
            m.ok(not leftovers, "no-leftover-files", files=leftovers)
        m.seen(n, len(empty), sorted(len(w) for _, _, w in spec.values()))
    m.drop(d)


def judge(m, H, spec, rule, exact_names=False):
    m.ok(set(H.histories) == set(spec), "names", got=sorted(H.histories), want=sorted(spec))
    for nm, (kind, arrays, want) in spec.items():
        h = H.histories[nm]
        m.ok(h.exists() == bool(want), "exists", name=nm)
        m.ok(len(h.data) == len(want), rule, name=nm, got=len(h.data), want=len(want))
        m.ok(h.plot_type == kind, "plot-type", name=nm, got=h.plot_type)
        for k, (a, b) in enumerate(zip(h.data, want)):
            m.ok(matches(a, b), "entry-is-what-was-fed", name=nm, entry=k, got=a, want=b)
        if want:
            m.ok(matches(h.data_np_array, want), "array", name=nm)
        m.count(rule)


def a_run(m, i):
    rng = m.rng("run", i)
    iters = gen.iterations(rng, 1, 8)
    rec = int(rng.choice([1, 2, iters, iters + 3]))
    kind = ["oc", "logmoc"][i % 2]
    r = gen.Run(m, rng, iters=iters, record_times=rec, physics=["elastic", "elastic", "heat"][i % 3],
                kind=kind, **(gen.spice(rng, kind) if m.nth(i, 3, "spice") == 0 else {}), max_elems=40)
    with m.case(f"run-{i}", **r.info, record_times=rec):
        parts = []
        if rng.random() < 0.5:
            while sum(parts) < iters:
                parts.append(int(rng.integers(1, 4)))
                r.opt.optimize_steps(parts[-1])
                done = len(r.steps)
                for nm, h in r.opt.recorder.histories.items():
                    m.ok(len(h.data) == done, "one-entry-per-iteration", name=nm, got=len(h.data), want=done, parts=parts)
        else:
            r.opt.optimize()
        m.ok(len(r.steps) == iters and [s.iter for s in r.steps] == list(range(1, iters + 1)), "iterations-run",
             got=[s.iter for s in r.steps])
        H = tracer.history(r.opt)
        for nm, d in H.items():
            m.ok(len(d) == iters, "one-entry-per-iteration", name=nm, got=len(d), want=iters)
        des = np.asarray(r.task.design_elements)
        for k, s in enumerate(r.steps):
            want = {
                "rho_change_max": np.max(np.abs(s.after - s.before)),
                "rho_projected": stats(s.projected[des], "min-max-mean-std"),
                "neumann_scale": r.value("neumann_scale", s.iter),
            }
            if s.energy is not None:
                want["energy"] = stats(s.energy, "min-max-mean-std")
            if s.scaling is not None:
                want["scaling_rate"] = stats(s.scaling, "min-max-mean-std")
            if s.u is not None:
                um = np.abs(s.u).max(axis=0)
                want["u_max"] = um[0] if um.size == 1 else stats(um, "min-max-mean-std")
            for nm, w in want.items():
                if nm in H and k < len(H[nm]):
                    m.ok(matches(H[nm][k], w), "run-entry", name=nm, iter=s.iter, got=H[nm][k], want=w)
                else:
                    m.ok(False, "run-entry", name=nm, missing=True)
            if k < len(H.get("-dC", [])):
                got = np.asarray(H["-dC"][k])
                # recorded scaled by a positive factor
                x = stats(-s.dC, "min-max-mean-std")
                f = got[2] / x[2] if x[2] else 1.0
                m.ok(f > 0 and np.allclose(got, np.array(x) * f, rtol=1e-7, atol=1e-9 * abs(got).max()) or r.kind == "logmoc",
                     "recorded-sensitivity", iter=s.iter, got=got, want=x)
        from sktopt import tools
        back = tools.HistoryCollection(str(r.dst))
        back.import_histories()
        diff = tracer.history_diff(tracer_data(back), H)
        m.ok(diff is None, "file-equals-recorder", diff=diff)
        m.seen("run", r.kind, r.physics, iters, rec, parts)
        m.sample(names=sorted(H), iters=iters, parts=parts)
    r.close()


def tracer_data(coll):
    return {k: list(h.data) for k, h in coll.histories.items()}


def run(m):
    for i in range(m.pick(160, 6000)):
        if m.mine(i) and not m.out_of_time():
            collection(m, i)
    for i in range(m.pick(40, 700)):
        if m.mine(i) and not m.out_of_time():
            a_run(m, i)

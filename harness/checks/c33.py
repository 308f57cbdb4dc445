"""C33: figures, images and animations against the data they are to show. The
figures are real matplotlib figures, read at the moment they are saved."""
import contextlib
import glob
import io
import os
import re
import sys
import types
import warnings
import numpy as np
import gen
import ref
import tracer

RULE = "distinct (figure kind, number of pages, history kinds, run kind, saved iterations / frames, skip, scale / mesh kind, cells, physics) figures and animations judged"
ASSUMPTIONS = ["pyvista cannot open a display here: a stand-in records what it is asked to draw, so rendering itself is not judged",
               "figures are judged by the data of their axes, not by their pixels"]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"history-shown": 60, "run-progress-shown": 8, "schedule-shown": 40, "final-histogram": 4, "image-of-iteration": 20,
           "frames-in-order": 20, "distances": 40, "volumes-shown": 20, "without-display-the-run-goes-on": 4, "no-images-unasked": 4}


# ------------------------------------------------------------- figures
class Figures:
    """Collects the data of every figure when it is saved."""

    def __init__(self):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.figure as mf
        tracer._stubbed = True          # keep real figures in this check
        self.saved = []
        self._mf = mf
        self._save, self._tight = mf.Figure.savefig, mf.Figure.tight_layout
        me = self

        def savefig(fig, fname, *a, **k):
            me.saved.append((os.path.realpath(str(fname)), me.read(fig)))
            with open(fname, "wb") as f:
                f.write(b"figure")
        mf.Figure.savefig = savefig
        mf.Figure.tight_layout = lambda *a, **k: None

    @staticmethod
    def read(fig):
        out = []
        for ax in fig.axes:
            bands = []
            for c in ax.collections:
                for path in c.get_paths():
                    bands.append(np.array(path.vertices))
            out.append(dict(
                lines=[(np.array(l.get_xdata(), float), np.array(l.get_ydata(), float)) for l in ax.lines],
                bands=bands, ylabel=ax.get_ylabel(), xlabel=ax.get_xlabel(), title=ax.get_title(), yscale=ax.get_yscale(),
                bars=[(p.get_x(), p.get_width(), p.get_height()) for p in ax.patches if hasattr(p, "get_width")],
                labels=[t.get_text() for t in ax.get_xticklabels()], shown=bool(ax.axison)))
        return out

    def take(self):
        out, self.saved = self.saved, []
        return out


def judge_histories(m, axes, hist, rule, **d):
    """hist: name -> (entries, plot_type, ylog). Every history with data on
    one set of axes of its own, showing exactly its data."""
    for name, (data, kind, ylog) in hist.items():
        mine = [a for a in axes if a["ylabel"] == name]
        if not data:
            m.ok(all(not a["lines"] for a in mine), rule, what="drawn without data", name=name, **d)
            continue
        if not m.ok(len(mine) == 1, rule, what="axes", name=name, found=len(mine), **d):
            continue
        a = mine[0]
        arr = np.array(data, float)
        want = [arr] if arr.ndim == 1 else [arr[:, j] for j in range(3)]
        got = [y for _, y in a["lines"]]
        m.ok(len(got) == len(want) and all(g.shape == w.shape and np.array_equal(g, w, equal_nan=True) for g, w in zip(got, want)), rule,
             what="values", name=name, got=[g.tolist()[:4] for g in got], want=[w.tolist()[:4] for w in want], **d)
        m.ok(all(np.array_equal(np.diff(x), np.ones(len(x) - 1)) for x, _ in a["lines"]), rule, what="one step per entry", name=name, **d)
        m.ok(a["yscale"] == ("log" if ylog else "linear"), rule, what="scale", name=name, got=a["yscale"], **d)
        if arr.ndim == 2 and kind == "min-max-mean-std" and not ylog:
            v = np.concatenate(a["bands"]) if a["bands"] else np.zeros((0, 2))
            good = len(v) > 0
            for x, mean, std in zip(a["lines"][0][0], arr[:, 1], arr[:, 3]):
                ys = v[np.isclose(v[:, 0], x), 1] if good else []
                good = good and len(ys) and np.isclose(max(ys), mean + std, rtol=1e-9, atol=1e-12) and np.isclose(min(ys), mean - std, rtol=1e-9, atol=1e-12)
            m.ok(good, rule, what="band", name=name, **d)


def collections(m, F, i):
    """Histories of every kind and number, saved as pages."""
    from sktopt.tools import HistoryCollection
    rng = m.rng("collections", i)
    n = [1, 2, 4, 5, 8, 9, 16, 17][i % 8] if i < 8 else int(rng.integers(1, 26))
    dst = m.scratch("fig")
    h = HistoryCollection(dst)
    kinds = {}
    with m.case(f"collections-{i}", histories=n):
        for j in range(n):
            name = f"h{j}-{'abc'[int(rng.integers(3))]}"
            kind = ["value", "min-max-mean", "min-max-mean-std"][int(rng.integers(3))]
            ylog = bool(rng.random() < 0.3)
            h.add(name, plot_type=kind, ylog=ylog)
            kinds[name] = (kind, ylog)
        steps = int(rng.integers(1, 40))
        for name, (kind, _) in kinds.items():
            if rng.random() < 0.12:
                continue
            for s in range(steps):
                v = rng.uniform(0.1, 5, int(rng.integers(2, 9))) * 10 ** rng.uniform(-3, 3)
                h.feed_data(name, float(v[0]) if kind == "value" else v)
        fname = None if rng.random() < 0.5 else "other.png"
        F.take()
        h.export_progress(fname) if fname else h.export_progress()
        pages = F.take()
        fname = fname or "progress.jpg"
        m.ok(len(pages) >= 1 and len({p for p, _ in pages}) == len(pages) and
             all(os.path.dirname(p) == os.path.realpath(dst) and p.endswith(fname) for p, _ in pages), "pages-named", pages=[p for p, _ in pages])
        axes = [a for _, p in pages for a in p]
        want = {k: (list(h.histories[k].data), *kinds[k]) for k in kinds}
        judge_histories(m, axes, want, "history-shown")
        order = [a["ylabel"] for a in axes if a["ylabel"]]
        m.ok(order == [k for k in kinds if want[k][0]], "history-shown", what="order", got=order)
        m.seen("collection", n, len(pages), sorted(set(map(str, kinds.values()))))
    m.drop(dst)


def schedules(m, F, i):
    """The figure of the schedules against the reference schedules."""
    from sktopt.tools import Schedulers
    rng = m.rng("schedules", i)
    dst = m.scratch("sch")
    n = int(rng.integers(1, 12))
    iters = int(rng.integers(2, 60))
    with m.case(f"schedules-{i}", schedules=n, iters=iters):
        s = Schedulers(dst)
        want = {}
        for j in range(n):
            c = gen.sched(rng, -3, 9, up=bool(rng.random() < 0.5)) if rng.random() < 0.8 else \
                gen.SC.sawtooth_decay(f"s{j}", 0.5, 0.1, iters_max=iters, num_steps=int(rng.integers(1, 5)))
            name = f"s{j}"
            s.add_object_from_config(c, name)
            want[name] = [ref.sched_value(c, it, iters) for it in range(1, iters + 1)]
        s.set_iters_max(iters)
        F.take()
        with contextlib.redirect_stdout(io.StringIO()):
            s.export()
        axes = [a for _, p in F.take() for a in p]
        for name, w in want.items():
            mine = [a for a in axes if a["ylabel"] == name]
            if m.ok(len(mine) == 1 and len(mine[0]["lines"]) == 1, "schedule-shown", what="axes", name=name, found=len(mine)):
                m.close(mine[0]["lines"][0][1], np.array(w, float), "schedule-shown", rtol=1e-9, atol=1e-12, name=name)
        m.seen("schedules", n, iters)
    m.drop(dst)


# ------------------------------------------------------------- runs
class PyVista:
    """Records what a run asks to be drawn."""

    def __init__(self, display=True, installed=True):
        import meshio
        self.shots, me = [], self
        mod = types.ModuleType("pyvista")

        def start_xvfb(*a, **k):
            if not display:
                raise OSError("no display")

        def read(path):
            f = meshio.read(path)
            return types.SimpleNamespace(path=os.path.realpath(path), data={k: np.array(v[0]) for k, v in f.cell_data.items()})

        class Plotter:
            def __init__(self, *a, **k):
                self.off, self.mesh, self.kw, self.text = k.get("off_screen"), None, {}, []

            def add_mesh(self, mesh, **kw):
                self.mesh, self.kw = mesh, kw

            def add_text(self, text, *a, **k):
                self.text.append(text)

            def screenshot(self, path=None, filename=None, **k):
                path = path or filename
                me.shots.append(dict(path=os.path.realpath(path), mesh=self.mesh, kw=self.kw, text=self.text, off=self.off))
                with open(path, "wb") as f:
                    f.write(b"image")

            def close(self):
                pass
            show = __enter__ = __exit__ = None
        mod.start_xvfb, mod.read, mod.Plotter = start_xvfb, read, Plotter
        sys.modules["pyvista"] = mod if installed else None


def run_figures(m, F, i):
    rng = m.rng("run", i)
    asked = i % 4 != 3
    display = ["yes", "yes", "no", "yes"][i % 4] if i % 8 < 4 else ["yes", "missing", "no", "yes"][i % 4]
    pv = PyVista(display=display == "yes", installed=display != "missing")
    iters = int(rng.integers(3, 12))
    times = int(rng.integers(1, iters + 1))
    r = gen.Run(m, rng, iters=iters, max_elems=30, export_img=asked, record_times=times)
    F.take()
    with m.case(f"run-{i}", **r.info, asked=asked, display=display, record_times=times):
        r2 = gen.optimizer(r.cfg, r.task)
        seen_at = []
        rec = r2.recorder
        progress = rec.export_progress

        def snap(*a, **k):
            n = len(F.saved)
            out = progress(*a, **k)
            seen_at.append((F.saved[n:], {k2: (list(h.data), h.plot_type, h.ylog) for k2, h in rec.histories.items()}))
            return out
        rec.export_progress = snap
        with warnings.catch_warnings(record=True) as said:
            warnings.simplefilter("always")
            r2.optimize()
        figures = F.take()
        sch = [p for p in figures if "schedule" in os.path.basename(p[0])]
        axes = [a for _, p in sch for a in p]
        shown = [a for a in axes if a["ylabel"]]
        for a in shown:
            name = a["ylabel"]
            if not hasattr(r.cfg, name):
                continue
            w = [r.value(name, it) for it in range(1, iters + 1)]
            if None in w:
                continue
            w = np.array(w, float)
            m.ok(len(a["lines"]) == 1, "schedule-shown", name=name)
            m.close(a["lines"][0][1], w, "schedule-shown", rtol=1e-9, atol=1e-12, name=name)
        for name in ("vol_frac", "p", "beta", "move_limit"):
            m.ok(any(a["ylabel"] == name for a in shown), "schedule-shown", what="missing", name=name)
        saved = tracer.vtu_iters(r.dst)
        m.ok(len(seen_at) == len(saved), "run-progress-shown", saved=saved, figures=len(seen_at))
        for it, (pages, hist) in zip(saved, seen_at):
            axes = [a for p, fig in pages if "progress" in os.path.basename(p) for a in fig]
            judge_histories(m, axes, hist, "run-progress-shown", iter=it)
            lens = {len(l[1]) for a in axes for l in a["lines"]}
            m.ok(lens == {it}, "run-progress-shown", what="entries", iter=it, lengths=sorted(lens))
        last = [f for p, f in figures if os.path.basename(p) == "last.jpg"]
        rho = np.asarray(tracer.snapshot(r.dst, saved[-1]))
        if m.ok(len(last) == 1, "final-histogram", figures=len(last)):
            histogram(m, "final-histogram", last[0][0]["bars"], rho)
        # images
        jpgs = sorted(os.path.basename(p) for p in glob.glob(f"{r.dst}/mesh_rho/info_*.jpg"))
        if not asked:
            m.ok(not pv.shots and not jpgs, "no-images-unasked", shots=len(pv.shots), files=jpgs)
        elif display != "yes":
            m.ok(saved and not jpgs and not pv.shots, "without-display-the-run-goes-on", saved=saved)
            m.ok(os.path.exists(f"{r.dst}/histories.npz") and os.path.exists(f"{r.dst}/cubic_top.vtu"), "without-display-the-run-goes-on", what="outputs")
            m.ok(any(("isplay" in str(w.message) or "PyVista" in str(w.message)) for w in said), "without-display-the-run-goes-on", what="said",
                 said=[str(w.message)[:80] for w in said])
        else:
            byname = {}
            for s in pv.shots:
                byname.setdefault(os.path.basename(s["path"]), []).append(s)
            want = {f"info_{k}-{it:08d}.jpg" for k in ("rho_projected", "energy") for it in saved}
            m.ok(set(byname) == want == set(jpgs), "image-of-iteration", what="files", got=sorted(byname)[:6], want=sorted(want)[:6])
            m.ok(all(len(v) == 1 for v in byname.values()), "image-of-iteration", what="drawn once")
            import meshio
            for it in saved:
                f = meshio.read(f"{r.dst}/mesh_rho/info_mesh-{it:08d}.vtu")
                for k in ("rho_projected", "energy"):
                    for s in byname.get(f"info_{k}-{it:08d}.jpg", []):
                        data = np.array(f.cell_data[k][0])
                        m.ok(s["mesh"].path == os.path.realpath(f"{r.dst}/mesh_rho/info_mesh-{it:08d}.vtu") and s["kw"].get("scalars") == k,
                             "image-of-iteration", what="field", iter=it, drawn=s["kw"].get("scalars"), of=s["mesh"].path)
                        m.equal(s["mesh"].data[k], data, "image-of-iteration", what="drawn after it was written", iter=it)
                        lo, hi = s["kw"].get("clim", (np.nan, np.nan))
                        if k == "rho_projected":
                            m.ok((lo, hi) == (0.0, 1.0), "image-of-iteration", what="colour range", iter=it, got=[lo, hi])
                        else:
                            tol = 1e-9 * np.abs(data).max()
                            m.ok(lo < hi and lo <= data.min() + tol and hi >= data.max() - tol, "image-of-iteration", what="colour range", iter=it,
                                 got=[lo, hi], data=[data.min(), data.max()])
                        m.ok(any(re.search(rf"\b0*{it}\b", t) for t in s["text"]), "image-of-iteration", what="title", iter=it, title=s["text"])
        m.seen("run", r.info["kind"], r.info["physics"], asked, display, len(saved))
        m.sample(saved=saved, shots=len(pv.shots))
    r.close()


# ------------------------------------------------------------- animations
def animations(m, i):
    import imageio.v2 as imageio
    from sktopt.core.visualization import images2gif
    rng = m.rng("gif", i)
    dst = m.scratch("gif")
    os.makedirs(f"{dst}/mesh_rho")
    n = int(rng.integers(0, 14)) if i else 0
    top = int(10 ** rng.uniform(1.3, 7.5))
    its = sorted(int(x) for x in rng.choice(np.arange(1, top), min(n, top - 1), replace=False)) if n else []
    prefix = str(rng.choice(["rho_projected", "energy"]))
    other = "energy" if prefix == "rho_projected" else "rho_projected"
    # far apart grey levels, all different
    levels = rng.permutation(np.linspace(10, 245, max(n, 1)).astype(int))
    h, w = int(rng.integers(20, 60)), int(rng.integers(20, 60))
    frames = {}
    order = rng.permutation(len(its))
    for j in order:
        frames[its[j]] = int(levels[j])
        imageio.imwrite(f"{dst}/mesh_rho/info_{prefix}-{its[j]:08d}.jpg", np.full((h, w, 3), levels[j], np.uint8))
    for it in its[:3]:
        imageio.imwrite(f"{dst}/mesh_rho/info_{other}-{it:08d}.jpg", np.full((h, w, 3), 128, np.uint8))
    skip = int(rng.integers(0, 4))
    scale = float(rng.choice([0.5, 0.7, 1.0, 1.3]))
    with m.case(f"gif-{i}", iterations=its, prefix=prefix, skip=skip, scale=scale, size=[h, w]):
        with contextlib.redirect_stdout(io.StringIO()):
            images2gif(dst, prefix, scale=scale, skip_frame=skip)
        gifs = sorted(glob.glob(f"{dst}/*.gif"))
        if not its:
            m.ok(not gifs, "frames-in-order", what="nothing to show", files=gifs)
        elif m.ok([os.path.basename(g) for g in gifs] == [f"animation-{prefix}.gif"], "frames-in-order", what="files", files=gifs):
            got = [np.asarray(x)[..., :3].astype(float) for x in imageio.mimread(gifs[0])]
            want = [frames[it] for it in its][::skip + 1]
            m.ok(len(got) == len(want) and all(np.abs(g - v).max() <= 8 for g, v in zip(got, want)), "frames-in-order",
                 got=[float(g.mean()) for g in got], want=want)
            for g in got:
                m.ok(abs(g.shape[0] - h * scale) <= 1 and abs(g.shape[1] - w * scale) <= 1, "frames-in-order", what="size", got=g.shape)
        left = sorted(os.listdir(f"{dst}/mesh_rho"))
        m.ok(len(left) == len(its) + len(its[:3]), "frames-in-order", what="images kept", left=len(left))
        m.seen("gif", len(its), skip, scale, prefix)
    m.drop(dst)


# ------------------------------------------------------------- mesh statistics
def nearest(x):
    d = np.linalg.norm(x[:, None] - x[None], axis=2)
    np.fill_diagonal(d, np.inf)
    return d.min(axis=1)


def histogram(m, rule, bars, values, **d):
    """The bars of a histogram hold every value, each in its interval."""
    values = np.asarray(values, float)
    if not m.ok(bars and sum(b[2] for b in bars) == len(values), rule, total=sum(b[2] for b in bars), want=len(values), **d):
        return
    edges = np.array([b[0] for b in bars] + [bars[-1][0] + bars[-1][1]])
    eps = 1e-9 * max(np.abs(values).max(), 1e-300)
    m.ok(edges[0] <= values.min() + eps and edges[-1] >= values.max() - eps, rule, edges=[edges[0], edges[-1]], **d)
    for e, c in zip(edges[1:-1], np.cumsum([b[2] for b in bars])):
        lo, hi = (values < e - eps).sum(), (values < e + eps).sum()
        if not m.ok(lo <= c <= hi, rule, edge=e, below=[lo, hi], bars=c, **d):
            break


def densities(m, F, i):
    """The histogram of the final densities for densities of every kind."""
    from sktopt.core.visualization import rho_histo_plot
    rng = m.rng("densities", i)
    n = int(rng.integers(1, 400))
    kinds = {"random": rng.uniform(0, 1, n), "binary": rng.choice([1e-3, 1.0], n), "equal": np.full(n, rng.uniform(0, 1)),
             "solid": np.ones(n), "void": np.zeros(n),
             "equal up to rounding": rng.uniform(0.1, 1) * (1 + 1e-16 * rng.integers(-3, 4, n)),
             "nearly equal": rng.uniform(0.1, 1) * (1 + 1e-13 * rng.normal(size=n)), "narrow": 0.4 + 1e-6 * rng.normal(size=n)}
    dst = m.scratch("hist")
    for kind, rho in kinds.items():
        with m.case(f"densities-{i}-{kind}", n=n):
            F.take()
            rho_histo_plot(rho, f"{dst}/last.jpg")
            got = F.take()
            if m.ok(len(got) == 1, "final-histogram", kind=kind):
                histogram(m, "final-histogram", got[0][1][0]["bars"], rho, kind=kind)
            m.seen("densities", n, kind)
    m.drop(dst)


def statistics(m, F, i):
    rng = m.rng("stats", i)
    heat = bool(i % 2)
    dst = m.scratch("stats")
    if heat:
        t, info = gen.heat_with_room(rng, 80, cases=int(rng.integers(1, 3)))
    else:
        t, info = gen.elastic_with_room(rng, 80, loads=int(rng.integers(1, 3)))
    with m.case(f"stats-{i}", **info):
        F.take()
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            t.nodes_and_elements_stats(dst)
        fig = F.take()
        mesh = t.mesh
        nd = nearest(mesh.p.T)
        cd = nearest(mesh.p[:, mesh.t].mean(axis=1).T)
        found = re.findall(r"(min|max|mean|median|std)\s*:\s*([-+.\deE]+)", out.getvalue())
        m.ok(len(found) == 10, "distances", found=found)
        for (d, part) in ((nd, found[:5]), (cd, found[5:])):
            for k, v in part:
                w = float(getattr(np, k)(d))
                m.ok(abs(float(v) - w) <= 5.1e-5, "distances", statistic=k, got=v, want=w)
        m.ok([os.path.basename(p) for p, _ in fig] == ["info-nodes-elements.jpg"], "volumes-shown", files=[p for p, _ in fig])
        vol = np.asarray(ref.volumes(mesh.p, mesh.t))
        for _, axes in fig:
            hist = [a for a in axes if a["bars"]]
            for a, v in zip(hist[:4], (nd, cd, vol, vol[np.asarray(t.design_elements)])):
                histogram(m, "values-shown", a["bars"], v, what=a["title"])
            a = hist[4]
            sets = {"all": np.arange(len(vol)), "dirichlet": t.dirichlet_elements, "force": t.neumann_elements, "design": t.design_elements}
            m.ok(len(a["bars"]) == 4, "volumes-shown", bars=len(a["bars"]))
            for (name, e), b in zip(sets.items(), a["bars"]):
                w = 0.0 if e is None else float(vol[np.asarray(e, int)].sum())
                m.close(b[2], w, "volumes-shown", rtol=1e-9, atol=1e-12 * vol.sum(), bar=name)
        m.seen("stats", info["kind"], info["cells"], heat)
    m.drop(dst)


def run(m):
    F = Figures()
    for i in range(m.pick(16, 400)):
        if m.mine(i) and not m.out_of_time():
            collections(m, F, i)
    for i in range(m.pick(16, 300)):
        if m.mine(i) and not m.out_of_time():
            schedules(m, F, i)
    for i in range(m.pick(24, 300)):
        if m.mine(i) and not m.out_of_time():
            statistics(m, F, i)
    for i in range(m.pick(8, 200)):
        if m.mine(i) and not m.out_of_time():
            densities(m, F, i)
    for i in range(m.pick(48, 500)):
        if m.mine(i) and not m.out_of_time():
            animations(m, i)
    for i in range(m.pick(24, 300)):
        if m.mine(i) and not m.out_of_time():
            run_figures(m, F, i)

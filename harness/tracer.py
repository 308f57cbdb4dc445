"""Observes optimizer runs through their public surface: snapshots, exported
meshes, histories and the arguments of rho_update."""
from __future__ import annotations
import inspect
import os

import numpy as np

_stubbed = False


class _Null:
    """Stands in for axes and artists: accepts everything, draws nothing."""
    def __call__(self, *a, **k):
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0

    def pie(self, *a, **k):
        return ([], [], []) if k.get("autopct") is not None else ([], [])

    def hist(self, *a, **k):
        return [], [], []

    def plot(self, *a, **k):
        return [self]

    def get_legend_handles_labels(self, *a, **k):
        return [], []


class _Figure(_Null):
    def savefig(self, fname, *a, **k):
        with open(fname, "wb") as f:
            f.write(b"stub")


def stub_plots():
    """Replaces the drawing of figures (most of a small run's time) by
    writing a placeholder; nothing of the code under test is replaced."""
    global _stubbed
    if _stubbed:
        return
    import matplotlib.figure as mf
    import matplotlib.pyplot as plt
    null = _Null()

    def subplots(nrows=1, ncols=1, squeeze=True, **k):
        ax = np.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                ax[i, j] = null
        if squeeze:
            ax = ax.item() if ax.size == 1 else ax.squeeze()
        return _Figure(), ax

    plt.subplots = subplots
    plt.clf = plt.close = lambda *a, **k: None
    mf.Figure.add_subplot = lambda self, *a, **k: null
    mf.Figure.subplots_adjust = lambda self, *a, **k: None
    mf.Figure.savefig = _Figure.savefig
    mf.Figure.tight_layout = lambda self, *a, **k: None
    _stubbed = True


class Step:
    """One observed density update."""
    __slots__ = ("iter", "before", "after", "projected", "dC", "args", "scaling", "energy", "u")


class Tracer:
    """Wraps rho_update of one optimizer instance."""

    def __init__(self, opt, keep_args=False):
        self.opt = opt
        self.steps = []
        self._orig = opt.rho_update
        self._sig = inspect.signature(self._orig)
        opt.rho_update = self._hook

    # the published order of the arguments, for a parameter that was renamed
    ORDER = ("iter_num", "rho_design_eles", "rho_projected", "dC_drho_design_eles", "u_dofs", "strain_energy_mean",
             "scaling_rate", "move_limit", "eta", "beta", "rho_clip_lower", "rho_clip_upper", "percentile",
             "elements_volume_design", "elements_volume_design_sum", "vol_frac")

    def _hook(self, *a, **k):
        b = self._sig.bind(*a, **k).arguments
        names = list(self._sig.parameters)
        if len(names) == len(self.ORDER):
            b = {want: b[got] for want, got in zip(self.ORDER, names) if got in b}
        s = Step()
        s.iter = int(b["iter_num"])
        s.before = np.array(b["rho_design_eles"], copy=True)
        s.projected = np.array(b["rho_projected"], copy=True)
        s.dC = np.array(b["dC_drho_design_eles"], copy=True)
        s.args = {n: b[n] for n in ("move_limit", "eta", "beta", "vol_frac", "percentile") if n in b}
        s.energy = np.array(b["strain_energy_mean"], copy=True) if "strain_energy_mean" in b else None
        s.u = np.array(b["u_dofs"], copy=True) if "u_dofs" in b else None
        out = self._orig(*a, **k)
        s.scaling = np.array(b["scaling_rate"], copy=True) if "scaling_rate" in b else None
        s.after = np.array(b["rho_design_eles"], copy=True)
        self.steps.append(s)
        return out


def snapshot(dst, it):
    with np.load(f"{dst}/data/{it:06d}-rho.npz") as d:
        return np.array(d["rho_design_elements"])


def snapshot_iters(dst):
    p = f"{dst}/data"
    if not os.path.isdir(p):
        return []
    return sorted(int(f[:6]) for f in os.listdir(p) if f.endswith("-rho.npz") and f[:6].isdigit())


def vtu_iters(dst):
    p = f"{dst}/mesh_rho"
    if not os.path.isdir(p):
        return []
    return sorted(int(f[len("info_mesh-"):-4]) for f in os.listdir(p)
                  if f.startswith("info_mesh-") and f.endswith(".vtu"))


def history(opt):
    """name -> list of entries, copied."""
    return {k: list(h.data) for k, h in opt.recorder.histories.items()}


def same_entry(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))


def history_diff(a, b, skip=()):
    """First difference between two histories, or None."""
    if set(a) != set(b):
        return f"names {sorted(set(a) ^ set(b))}"
    for k in a:
        if k in skip:
            continue
        if len(a[k]) != len(b[k]):
            return f"{k}: {len(a[k])} entries vs {len(b[k])}"
        for i, (x, y) in enumerate(zip(a[k], b[k])):
            if not same_entry(x, y):
                return f"{k}[{i}]: {x} vs {y}"
    return None


def histories_file(path):
    """Contents of histories.npz read back through a fresh collection."""
    from sktopt import tools
    import sktopt  # noqa: F401
    with np.load(path, allow_pickle=True) as d:
        return {k: np.array(d[k]) for k in d.files}


def files(dst):
    out = []
    for base, _, names in os.walk(dst):
        out += [os.path.relpath(os.path.join(base, n), dst) for n in names]
    return sorted(out)


def full_density(task, design_values):
    rho = np.ones(task.mesh.nelements)
    rho[task.design_elements] = design_values
    return rho


class announcements:
    """Everything the code says at warning level or above, by logging or by
    the warnings module, while inside; nothing is printed."""

    def __enter__(self):
        import logging
        import warnings
        self.got, self._level = [], logging.root.manager.disable
        self._handle = logging.Logger.handle

        def handle(logger, record):
            if record.levelno >= logging.WARNING:
                self.got.append(record.getMessage())
        logging.Logger.handle = handle
        logging.disable(logging.NOTSET)
        self._catch = warnings.catch_warnings(record=True)
        self._caught = self._catch.__enter__()
        warnings.simplefilter("always")
        return self

    def __exit__(self, *a):
        import logging
        logging.Logger.handle = self._handle
        logging.disable(self._level)
        self.got += [str(w.message) for w in self._caught]
        self._catch.__exit__(*a)

    def __bool__(self):
        return bool(self.got or self._caught)

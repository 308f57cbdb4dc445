"""C21: configurations through cfg.json and command lines to settings, and the
runs they drive."""
import argparse
import contextlib
import dataclasses
import io
import json
import os
import runpy
import sys
import warnings
import numpy as np
import gen
import ref
import tracer
from checks.c10 import config_state, contents, diff, same

RULE = "distinct (class, schedule kinds, option subsets, physics, run shape) configurations taken through a file or a command line"
ASSUMPTIONS = ["settings hold plain python numbers", "PETSc is not installed: its options are compared as stored (C32 judges what becomes of them)",
               "a percentile option comes with its initial value when steps are requested"]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"import-equals-export": 200, "same-schedules": 100, "imported-run-equal": 16, "option-reaches-setting": 1500,
           "option-builds-schedule": 400, "command-runs-as-configured": 12, "command-equals-api": 12}

SC = gen.SC


def number(rng):
    k = int(rng.integers(5))
    return [float(rng.uniform(0, 1)), float(10 ** rng.uniform(-30, 30)), float(rng.normal()), float(rng.integers(0, 9)), 1 / 3][k]


def schedule(rng, name):
    a, b, n, c = number(rng), number(rng), int(rng.integers(1, 12)), float(rng.uniform(0.2, 6))
    if name == "neumann_scale":
        return [lambda: SC.constant_one(name=name), lambda: SC.step_to_one(num_steps=n),
                lambda: SC.step_accelerating_to_one(num_steps=n, curvature=c),
                lambda: SC.step_decelerating_to_one(num_steps=n, curvature=c)][int(rng.integers(4))]()
    kinds = [lambda: SC.constant(target_value=b), lambda: SC.step(init_value=a, target_value=b, num_steps=n),
             lambda: SC.step_accelerating(init_value=a, target_value=b, num_steps=n, curvature=c),
             lambda: SC.step_decelerating(init_value=a, target_value=b, num_steps=n, curvature=c),
             lambda: SC.sawtooth_decay(name, a, b, iters_max=int(rng.integers(1, 200)), num_steps=n)]
    if name == "percentile":
        kinds.append(lambda: SC.none())
    return kinds[int(rng.integers(len(kinds)))]()


CHOICES = {"interpolation": ["SIMP", "RAMP"], "filter_type": ["spacial", "helmholtz"], "dual_update": ["ema", "augmented"],
           "solver_option": ["spsolve", "cg_pyamg", "cg_jacobi", "auto"],
           "dst_path": ["./result/test", "/tmp/ä b/ü", "a'b\"c\\d", ""]}


def random_config(rng, cls):
    base = cls()
    kw = {}
    for f in dataclasses.fields(cls):
        if not f.init or rng.random() < 0.3:
            continue
        v = getattr(base, f.name)
        if f.name in CHOICES:
            kw[f.name] = str(rng.choice(CHOICES[f.name]))
        elif f.name == "petsc_options":
            kw[f.name] = {"ksp_type": "cg", "pc_type": str(rng.choice(["gamg", "lu"])), "options_prefix": [None, "x_"][int(rng.integers(2))],
                          "use_set_from_options": bool(rng.random() < 0.5), "pc_factor_mat_solver_type": [None, "mumps"][int(rng.integers(2))]}
            if rng.random() < 0.5:
                kw[f.name] = type(v)(**kw[f.name])
        elif f.name == "eta" and rng.random() < 0.5:
            kw[f.name] = number(rng)
        elif isinstance(v, SC) or f.name == "eta":
            kw[f.name] = schedule(rng, f.name)
        elif isinstance(v, bool):
            kw[f.name] = bool(rng.random() < 0.5)
        elif isinstance(v, int):
            kw[f.name] = int(rng.integers(-3, 400))
        elif isinstance(v, float) or v is None:
            kw[f.name] = number(rng)
        else:
            continue
    return cls(**kw), kw


def meaning(cfg, iters=37):
    out = {}
    for f in dataclasses.fields(cfg):
        v = getattr(cfg, f.name)
        if isinstance(v, SC):
            out[f.name] = values(v, iters)
    return out


def values(v, iters):
    with np.errstate(all="ignore"):
        return [ref.sched_value(v, it, iters) for it in range(1, iters + 1)]


def roundtrip(m, i):
    import sktopt.core as core
    rng = m.rng("file", i)
    cls = [core.OC_Config, core.LogMOC_Config][m.nth(i, 2, "1")]
    cfg, kw = random_config(rng, cls)
    with m.case(f"file-{i}", cls=cls.__name__, fields=len(kw)):
        for k, v in kw.items():
            if k != "petsc_options":
                m.ok(getattr(cfg, k) == v, "setting-kept", setting=k, got=getattr(cfg, k), want=v)
        d = m.scratch("cfg")
        before = dataclasses.asdict(cfg)
        cfg.export(d)
        m.ok(dataclasses.asdict(cfg) == before, "export-changes-nothing")
        if m.nth(i, 5, "2") == 0:                 # configurations written by older versions
            with open(f"{d}/cfg.json") as f:
                old = json.load(f)
            old["record_timing"] = True
            with open(f"{d}/cfg.json", "w") as f:
                json.dump(old, f)
        got = cls.import_from(d)
        m.ok(type(got) is cls, "import-equals-export", what="class")
        bad = [f.name for f in dataclasses.fields(cls) if repr(getattr(got, f.name)) != repr(getattr(cfg, f.name))
               or getattr(got, f.name) != getattr(cfg, f.name) or type(getattr(got, f.name)) is not type(getattr(cfg, f.name))]
        m.ok(not bad and got == cfg, "import-equals-export", differs=bad, got=[repr(getattr(got, b)) for b in bad],
             want=[repr(getattr(cfg, b)) for b in bad])
        m.ok(repr(meaning(got)) == repr(meaning(cfg)), "same-schedules")
        m.ok(repr(getattr(got, "solver_config", None)) == repr(getattr(cfg, "solver_config", None)), "same-solver")
        d2 = m.scratch("cfg")
        got.export(d2)
        again = cls.import_from(d2)
        m.ok(again == cfg, "import-equals-export", what="second trip")
        m.drop(d), m.drop(d2)
        m.seen("file", cls.__name__, sorted(kw), [getattr(v, "scheduler_type", None) for v in kw.values()])
        m.sample(settings=len(kw))


def runs(m, i):
    def problem():
        rng = m.rng("problem", i)
        if m.nth(i, 3, "physics") == 2:
            return gen.heat_with_room(rng, 40, cases=1 + m.nth(i, 2, "4"))
        return gen.elastic_with_room(rng, 40, loads=1 + m.nth(i, 3, "5"))
    rng = m.rng("run", i)
    task, info = problem()
    over = {}
    if m.nth(i, 2, "6"):
        over["sensitivity_filter"] = bool(m.nth(i, 4, "7") == 1)
    if m.nth(i, 5, "8") == 2:
        over["percentile"] = SC.step(init_value=70.0, target_value=95.0, num_steps=2)
    if m.nth(i, 7, "9") == 3:
        over.update(check_convergence=True, tol_rho_change=0.3, tol_kkt_residual=1e5)
    if m.nth(i, 6, "10") == 4 and m.nth(i, 3, "physics") != 2:
        over["scaling"] = True
    r = gen.Run(m, rng, kind=["oc", "logmoc"][m.nth(i, 2, "12")], physics=["elastic", "elastic", "heat"][m.nth(i, 3, "physics")], task=task,
                iters=int(rng.integers(3, 6)), **over)
    with m.case(f"run-{i}", **{**info, **r.info}):
        r.opt.optimize()
        cls = type(r.cfg)
        cfg = cls.import_from(r.dst)
        a, b = config_state(cfg), config_state(r.cfg)     # the run may have labelled its schedules
        bad = [k for k in b if not same(a.get(k), b[k])]
        m.ok(not bad, "import-equals-export", differs=bad, what="file of a run")
        dst = m.scratch("again")
        cfg.dst_path = dst
        task2, _ = problem()
        o = gen.optimizer(cfg, task2)
        t = tracer.Tracer(o)
        o.optimize()
        m.ok(len(t.steps) == len(r.steps), "imported-run-equal", what="iterations", got=len(t.steps), want=len(r.steps))
        for a, b in zip(t.steps, r.steps):
            m.equal(a.after, b.after, "imported-run-equal", iter=a.iter)
        h = tracer.history_diff(tracer.history(o), tracer.history(r.opt))
        m.ok(h is None, "imported-run-equal", what=h)
        d = diff(contents(r.dst), contents(dst))
        m.ok(not d, "imported-run-equal", files=d)
        m.drop(dst)
        m.seen("run", r.kind, r.physics, r.cfg.filter_type, sorted(over))
    r.close()


# long, short, kind; the schedules' parts are <name>_init, <name>, <name>_step
PLAIN = [("interpolation", "-I", "interp"), ("max_iters", "-NI", "iters"), ("filter_type", "-FT", "filter"), ("record_times", "-RT", "count"),
         ("dst_path", "-DP", "path"), ("rho_min", "-RhM", "unit"), ("E_min_coeff", "-EM", "unit"), ("eta", "-ET", "unit"),
         ("beta_eta", "-BE", "unit"), ("lambda_lower", None, "num"), ("lambda_upper", "-BSH", "num"), ("restart", "-RS", "bool"),
         ("restart_from", "-RF", "count"), ("export_img", "-EI", "bool"), ("design_dirichlet", "-DD", "bool"),
         ("sensitivity_filter", "-SF", "bool"), ("solver_option", "-SO", "solver")]
SCHEDULES = {"filter_radius": (("-FRI", "-FR", "-FRS"), "Step", int), "move_limit": (("-MLI", "-ML", "-MLR"), "SawtoothDecay", int),
             "vol_frac": (("-VI", "-V", "-VFT"), "Step", float), "p": (("-PI", "-P", "-PRT"), "Step", float),
             "beta": (("-BI", "-B", "-BR"), "StepAccelerating", float), "percentile": (("-PTI", "-PT", "-PTR"), "Step", float)}
TRUE, FALSE = ["true", "True", "T", "t", "TRUE"], ["false", "False", "F", "f", "FALSE"]


def plain_value(rng, kind):
    if kind == "interp":
        v = str(rng.choice(["SIMP", "RAMP"]))
        return v, v
    if kind == "filter":
        v = str(rng.choice(["spacial", "helmholtz"]))
        return v, v
    if kind == "solver":
        v = str(rng.choice(["spsolve", "cg_pyamg"]))
        return v, v
    if kind == "path":
        v = f"/tmp/some where/{int(rng.integers(99))}"
        return v, v
    if kind in ("iters", "count"):
        v = int(rng.integers(1, 500))
        return str(v), v
    if kind == "bool":
        v = bool(rng.random() < 0.5)
        return str(rng.choice(TRUE if v else FALSE)), v
    v = float(rng.uniform(0.01, 1)) if kind == "unit" else float(10 ** rng.uniform(-9, 9))
    return repr(v), v


def command(rng, frac=0.5, only=None):
    """(argv, plain settings given, {schedule: parts given})"""
    argv, plain, parts = [], {}, {}

    def give(name, short, text):
        flag = f"--{name}" if short is None or rng.random() < 0.6 else short
        if flag.startswith("--") and rng.random() < 0.3:
            return [f"{flag}={text}"]
        return [flag, text]
    items = []
    for name, short, kind in PLAIN:
        if rng.random() < frac and (only is None or name in only):
            text, v = plain_value(rng, kind)
            plain[name] = v
            items.append(give(name, short, text))
    for name, ((fi, ft, fs), kind, cast) in SCHEDULES.items():
        if rng.random() >= frac + 0.2:
            continue
        got = {}
        lim = (0.05, 0.9)
        if name == "percentile":
            if rng.random() < 0.4:
                items.append(give(name, ft, str(rng.choice(["none", "None", "null"]))))
                got["none"] = True
                parts[name] = got
                continue
            lim = (50, 100)
        for part, flag in (("_init", fi), ("", ft), ("_step", fs)):
            if name != "percentile" and rng.random() < 0.35:
                continue
            v = int(rng.integers(1, 9)) if part == "_step" else float(rng.uniform(*lim))
            if part == "_step" and cast is float and rng.random() < 0.3:
                items.append(give(name + part, flag, "none"))
                got[part] = None
                continue
            got[part] = v
            items.append(give(name + part, flag, repr(v)))
        if name == "beta" and rng.random() < 0.5:
            c = float(rng.uniform(1, 6))
            got["curv"] = c
            items.append(give("beta_curvature", "-BC", repr(c)))
        parts[name] = got
    for k in rng.permutation(len(items)):
        argv += items[int(k)]
    return argv, plain, parts


def expected_values(name, args, iters):
    kind = SCHEDULES[name][1]
    a, b, n = args[f"{name}_init"], args[name], args[f"{name}_step"]
    if b is None:
        return [None] * iters
    if n is None:
        return [b] * iters
    return values(SC(name=name, init_value=a, target_value=b, num_steps=n,
                     curvature=args["beta_curvature"] if name == "beta" else None, scheduler_type=kind), iters)


def options(m, i):
    import sktopt.core as core
    from sktopt.core import misc
    rng = m.rng("options", i)
    argv, plain, parts = command(rng, [0.0, 0.3, 0.6, 1.0][m.nth(i, 4, "14")])
    with m.case(f"options-{i}", argv=argv):
        p = misc.add_common_arguments(argparse.ArgumentParser())
        args = vars(p.parse_args(argv))
        for k, v in plain.items():
            m.ok(args[k] == v and type(args[k]) is type(v), "option-parsed", option=k, got=args[k], want=v)
        for name, got in parts.items():
            for part, v in got.items():
                key = {"none": name, "curv": "beta_curvature"}.get(part, name + part)
                m.ok(args[key] == (None if part == "none" else v), "option-parsed", option=key, got=args[key], want=v)
        keep = dict(args)
        d = misc.args2OC_Config_dict(args)
        m.ok(args == keep, "arguments-unchanged")
        for cls in (core.OC_Config, core.LogMOC_Config):
            cfg = cls.from_defaults(**d)
            for k, *_ in PLAIN:
                m.ok(getattr(cfg, k) == args[k], "option-reaches-setting", option=k, got=getattr(cfg, k), want=args[k])
            iters = 23
            for name in SCHEDULES:
                want = expected_values(name, args, iters)
                m.ok(repr([None if x is None else float(x) for x in values(getattr(cfg, name), iters)]) ==
                     repr([None if x is None else float(x) for x in want]), "option-builds-schedule", option=name,
                     got=values(getattr(cfg, name), iters)[:6], want=want[:6])
        m.seen("options", sorted(plain), {k: sorted(v) for k, v in parts.items()})


@contextlib.contextmanager
def small_problem(task, asked):
    """toy problems replaced by a small one; which was asked for is noted."""
    from sktopt.mesh import toy_problem as tp
    names = ["toy1", "toy1_fine", "toy2", "toy_msh"]
    old = {n: getattr(tp, n) for n in names}
    for n in names:
        setattr(tp, n, lambda *a, n=n, **k: (asked.append((n, a)), task)[1])
    try:
        yield
    finally:
        for n, f in old.items():
            setattr(tp, n, f)


LOGMOC = [("mu_p", "-MUP"), ("augmented_lagrangian_mu", "-ALM"), ("lambda_v", "-LV"), ("lambda_decay", "-LD"), ("lagrangian_clip", None),
          ("lagrangian_percentile", None), ("lagrangian_scale_floor", None), ("volume_chain_percentile", None),
          ("volume_chain_scale_floor", None), ("volume_chain_gain", None)]
FLAGS = ["normalize_volume_chain", "filter_lagrangian", "center_lagrangian", "center_objective"]


def program(m, i):
    """The optimizers started as programs."""
    import sktopt.core as core
    rng = m.rng("program", i)
    tracer.stub_plots()
    which = ["oc", "logmoc"][m.nth(i, 2, "15")]
    task, info = gen.elastic_with_room(m.rng("task", i), 30, loads=1, clamp_excluded=True)
    dst = m.scratch("cli")
    iters = int(rng.integers(1, 4))
    frac = [0.0, 0.4, 0.8][m.nth(i, 3, "16")]
    argv, plain, parts = command(rng, frac, only={"interpolation", "filter_type", "record_times", "rho_min", "E_min_coeff",
                                                  "eta", "beta_eta", "design_dirichlet", "sensitivity_filter"})
    argv += ["--max_iters", str(iters), "-DP", dst, "--export_img", "false"]
    plain.update(max_iters=iters, dst_path=dst, export_img=False)
    extra, sched = {}, None
    if which == "logmoc":
        for name, short in LOGMOC:
            if rng.random() < frac:
                v = float(rng.uniform(0.05, 1)) if "percentile" not in name else float(rng.uniform(60, 99))
                argv += [short if short and rng.random() < 0.5 else f"--{name}", repr(v)]
                extra[name] = v
        for name in FLAGS:
            if rng.random() < frac:
                v = bool(rng.random() < 0.5)
                argv.append(f"--{name}" if v else f"--no-{name}")
                extra[name] = v
        if rng.random() < frac:
            extra["dual_update"] = str(rng.choice(["ema", "augmented"]))
            argv += ["--dual_update", extra["dual_update"]]
    elif rng.random() < 0.5:
        sched = (float(rng.uniform(0.1, 0.4)), int(rng.integers(1, 4)))
        argv += ["--eta_init", repr(sched[0]), "-ETR", str(sched[1])]
    name = str(rng.choice(["toy1", "toy1_fine", "toy2", "down"]))
    argv += ["-T", name]
    if name == "down":
        argv += ["-MP", "some.msh"]
    asked = []
    with m.case(f"program-{i}", which=which, argv=argv[:40]):
        old = sys.argv
        sys.argv = [which] + argv
        try:
            with small_problem(task, asked), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                runpy.run_module(f"sktopt.core.optimizers.{which}", run_name="__main__")
        finally:
            sys.argv = old
        m.ok(asked == [(name, ()) if name != "down" else ("toy_msh", ("down", "some.msh"))], "command-runs-as-configured", problem=asked)
        cls = core.OC_Config if which == "oc" else core.LogMOC_Config
        cfg = cls.import_from(dst)
        for k, v in {**plain, **extra}.items():
            if k == "eta" and which == "oc":
                want = values(SC.step(init_value=sched[0], target_value=v, num_steps=sched[1]), iters) if sched else [v] * iters
                got = values(cfg.eta, iters) if isinstance(cfg.eta, SC) else [cfg.eta] * iters
                m.ok(got == want, "option-reaches-setting", option="eta", got=got, want=want)
                continue
            m.ok(getattr(cfg, k) == v, "option-reaches-setting", option=k, got=getattr(cfg, k), want=v)
        for s, got in parts.items():
            have = getattr(cfg, s)
            if got.get("none"):
                m.ok(values(have, iters) == [None] * iters, "option-builds-schedule", option=s)
            elif "" in got and ("_step" not in got or got["_step"] is None) and s not in ("filter_radius", "move_limit"):
                m.ok(values(have, iters) == [got[""]] * iters, "option-builds-schedule", option=s)
            elif {"", "_init", "_step"} <= set(got):
                a = {f"{s}_init": got["_init"], s: got[""], f"{s}_step": got["_step"], "beta_curvature": got.get("curv", 5.0)}
                want = expected_values(s, a, iters)
                m.ok(np.array_equal(values(have, iters), want), "option-builds-schedule", option=s, got=values(have, iters), want=want)
        with np.load(f"{dst}/histories.npz", allow_pickle=True) as d:
            n = max((len(np.atleast_1d(d[k])) for k in d.files if k == "vol_error"), default=0)
        m.ok(n == iters, "command-runs-as-configured", iterations=n, want=iters)
        # the same settings through the programming interface
        dst2 = m.scratch("api")
        cfg.dst_path = dst2
        task2, _ = gen.elastic_with_room(m.rng("task", i), 30, loads=1, clamp_excluded=True)
        o = cls.__module__ and gen.optimizer(cfg, task2)
        o.optimize()
        bad = diff(contents(dst), contents(dst2))
        m.ok(not bad, "command-equals-api", files=bad)
        m.drop(dst), m.drop(dst2)
        m.seen("program", which, sorted(plain), sorted(extra), sorted(parts))


def run(m):
    for i in range(m.pick(240, 6000)):
        if m.mine(i) and not m.out_of_time():
            roundtrip(m, i)
    for i in range(m.pick(96, 3000)):
        if m.mine(i) and not m.out_of_time():
            options(m, i)
    for i in range(m.pick(32, 300)):
        if m.mine(i) and not m.out_of_time():
            runs(m, i)
    for i in range(m.pick(32, 300)):
        if m.mine(i) and not m.out_of_time():
            program(m, i)

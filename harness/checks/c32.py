"""C32: what the PETSc paths hand to a (stand-in) PETSc and what they return,
against the direct solver on the same problems."""
import dataclasses
import json
import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl
import fakepetsc as fp
import gen
import tracer
from checks.c04 import densities, fem_of

RULE = "distinct (physics, mesh kind, load cases, solver, Krylov type, preconditioner, factor package, prefix, options database) solves judged"
ASSUMPTIONS = ["petsc4py is not installed: a stand-in module that solves for real takes its place and records each solve; PETSc itself is not exercised"]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"same-state": 60, "same-objectives": 60, "options-arrive": 80, "same-run": 6, "each-column-its-load": 30,
           "incompatible-refused": 20, "failure-is-announced": 20, "absent-is-an-error": 8, "settings-survive-a-file": 10,
           "option-forms-agree": 20}

PREFIXES = [None, "a_", "solid_", "fea-"]
FACTORS = [None, "mumps", "superlu", "petsc"]


def draw(rng, direct):
    """(solver name, options given, what PETSc is to see)."""
    from sktopt.fea.solver_petsc import PETScOptions
    pre = PREFIXES[int(rng.integers(4))]
    fac = FACTORS[int(rng.integers(4))]
    use = bool(rng.random() < 0.6)
    if direct:
        want = dict(ksp="preonly", pc="lu")
    else:
        want = dict(ksp=str(rng.choice(["cg", "cg", "gmres", "preonly"])))
        want["pc"] = "lu" if want["ksp"] == "preonly" else str(rng.choice(["gamg", "jacobi", "ilu", "lu"]))
    want.update(prefix=pre, factor=fac, from_options=use)
    k = int(rng.integers(3))
    full = dict(ksp_type=want["ksp"], pc_type=want["pc"], pc_factor_mat_solver_type=fac, options_prefix=pre, use_set_from_options=use)
    if k == 0:
        return PETScOptions(**full), want
    if k == 1:
        return full, want
    # only what differs from the defaults
    base = dict(ksp_type="preonly", pc_type="lu") if direct else dict(ksp_type="cg", pc_type="gamg")
    base.update(pc_factor_mat_solver_type=None, options_prefix=None, use_set_from_options=True)
    short = {a: b for a, b in full.items() if b != base[a]}
    return (short or None), want


def judge_log(m, log, want, rtol, maxiter, **d):
    for e in log:
        got = dict(ksp=e["ksp"], pc=e["pc"], prefix=e["prefix"], factor=e["factor"], from_options=e["from_options"])
        m.ok(got == want, "options-arrive", got=got, want=want, **d)
        m.ok(e["rtol"] == rtol, "options-arrive", got=e["rtol"], want=rtol, what="rtol", **d)
        if maxiter is not None:
            m.ok(e["max_it"] == maxiter, "options-arrive", got=e["max_it"], want=maxiter, what="maxiter", **d)


def close_states(m, U, U0, exact, rule, **d):
    for c in range(U0.shape[1]):
        m.close(U[:, c], U0[:, c], rule, rtol=1e-8 if exact else 1e-5, case=c, **d)


def config_of(solver, opts, rtol, maxiter):
    from sktopt.fea.solver_elastic import LinearSolverConfig
    return LinearSolverConfig(solver=solver, rtol=rtol, maxiter=maxiter, petsc_options=opts)


def elastic(m, i):
    rng = m.rng("elastic", i)
    loads = [1, 2, 3, 4][i % 4]
    # moderate stiffness: the stand-in factorizes the rows as they come, without PETSc's scaling
    t, info = gen.elastic_with_room(rng, m.pick(60, 180), loads=loads, min_design=1, E=float(10 ** rng.uniform(-1, 5)))
    law = str(rng.choice(["SIMP", "RAMP"]))
    rho, pattern = densities(rng, t.mesh.nelements)
    rho = np.clip(rho, 0.2, 1.0)
    p = float(rng.uniform(1, 3))
    direct = bool(rng.random() < 0.45)
    solver = "petsc_spdirect" if direct else "petsc"
    opts, want = draw(rng, direct)
    rtol, maxiter = float(rng.choice([1e-11, 1e-12])), (None if rng.random() < 0.3 else int(rng.integers(20000, 30000)))
    with m.case(f"elastic-{i}", **info, law=law, solver=solver, options=str(opts), rtol=rtol, maxiter=maxiter):
        n = len(t.neumann_linear) if isinstance(t.neumann_linear, list) else 1
        U0, U = np.zeros((t.basis.N, n)), np.full((t.basis.N, n), np.nan)
        f0 = fem_of(t, law, 1e-2)
        J0, W0 = np.asarray(f0.objectives_multi_load(rho, p, U0)), np.asarray(f0.energy_multi_load(rho, p, U0))
        fp.reset()
        f1 = fem_of(t, law, 1e-2, solver_config=config_of(solver, opts, rtol, maxiter))
        scale = float(rng.choice([1.0, 1.0, 0.5]))
        J = np.asarray(f1.objectives_multi_load(rho, p, U))
        log = list(fp.solves)
        m.ok(len(log) == n, "each-column-its-load", solves=len(log), loads=n)
        judge_log(m, log, want, rtol, maxiter)
        good = [e["reason"] > 0 for e in log]
        if not all(good):
            m.tally("stand-in did not converge")
        else:
            exact = want["ksp"] == "preonly"
            close_states(m, U, U0, exact, "same-state")
            m.close(J, J0, "same-objectives", rtol=1e-8 if exact else 1e-5)
            m.close(f1.energy_multi_load(rho, p, U), W0, "same-objectives", rtol=1e-6 if exact else 1e-5, what="energy")
            for c, e in enumerate(log):
                m.equal(U[:, c], e["x"], "each-column-its-load", case=c) if len(e["x"]) == len(U) else None
        # the same object asked again, for another density
        rho2 = np.clip(rho[::-1], 0.2, 1.0)
        f0.objectives_multi_load(rho2, p, U0, force_scale=scale)
        f1.objectives_multi_load(rho2, p, U, force_scale=scale)
        if all(e["reason"] > 0 for e in fp.solves):
            close_states(m, U, U0, want["ksp"] == "preonly", "same-state", again=True)
        m.seen("elastic", info["kind"], n, solver, want["ksp"], want["pc"], want["factor"], want["prefix"], want["from_options"])
        m.sample(solves=len(fp.solves), iterations=[e["its"] for e in log])


def heat(m, i):
    from sktopt.fea import FEM_SimpLinearHeatConduction, composer
    rng = m.rng("heat", i)
    cases = [1, 2, 3][i % 3]
    objective = ["compliance", "averaged_temp", "heat_exchange"][int(rng.integers(3))]
    t, info = gen.heat_with_room(rng, m.pick(60, 180), cases=cases, objective=objective,
                                 avg_w=0.3 if objective == "heat_exchange" and rng.random() < 0.5 else 0.0)
    rho = rng.uniform(0.2, 1, t.mesh.nelements)
    p = float(rng.uniform(1, 3))
    direct = bool(rng.random() < 0.45)
    solver = "petsc_spdirect" if direct else "petsc"
    opts, want = draw(rng, direct)
    rtol, maxiter = 1e-12, (None if rng.random() < 0.5 else 3000)
    with m.case(f"heat-{i}", **info, objective=objective, solver=solver, options=str(opts), rtol=rtol, maxiter=maxiter):
        n = len(t.dirichlet_values) if isinstance(t.dirichlet_values, list) else 1
        T0, T = np.zeros((t.basis.N, n)), np.full((t.basis.N, n), np.nan)
        f0 = FEM_SimpLinearHeatConduction(t, 1e-2, composer.simp_interpolation)
        J0 = np.asarray(f0.objectives_multi_load(rho, p, T0))
        W0 = np.asarray(f0.energy_multi_load(rho, p, T0))
        fp.reset()
        f1 = FEM_SimpLinearHeatConduction(t, 1e-2, composer.simp_interpolation, solver_config=config_of(solver, opts, rtol, maxiter))
        with tracer.announcements() as said:
            J = np.asarray(f1.objectives_multi_load(rho, p, T))
            W = np.asarray(f1.energy_multi_load(rho, p, T))
        log = list(fp.solves)
        m.ok(len(log) >= n and len(log) % n == 0, "each-column-its-load", solves=len(log), loads=n)
        judge_log(m, log, want, rtol, maxiter)
        if any(e["reason"] < 0 for e in log):
            m.tally("stand-in did not converge")
            m.ok(bool(said), "failure-is-announced", reasons=[e["reason"] for e in log])
        else:
            exact = want["ksp"] == "preonly"
            close_states(m, T, T0, exact, "same-state")
            m.close(J, J0, "same-objectives", rtol=1e-8 if exact else 1e-5, atol=(1e-9 if exact else 1e-5) * np.abs(T0).max())
            m.close(W, W0, "same-objectives", rtol=1e-7 if exact else 1e-3, what="energy")
        m.seen("heat", info["kind"], n, solver, want["ksp"], want["pc"], want["factor"], want["prefix"], want["from_options"])


def functions(m, i):
    """solve_u and the PETSc entry points on systems of their own."""
    from sktopt.fea import solver_elastic as se, solver_petsc as ps
    rng = m.rng("functions", i)
    n, k = int(rng.integers(3, 60)), int(rng.integers(1, 5))
    B = sp.random(n, n, 0.2, random_state=np.random.RandomState(int(rng.integers(1 << 30))))
    A = (B @ B.T + sp.eye(n) * float(rng.uniform(0.5, 5))) * float(10 ** rng.uniform(-4, 8))
    A = [A.tocsr, A.tocsc, A.tocoo][int(rng.integers(3))]()
    F = rng.normal(size=(n, k)) * 10 ** rng.uniform(-3, 3, k)
    layout = int(rng.integers(3))
    F = [np.ascontiguousarray, np.asfortranarray, lambda x: np.repeat(x, 2, axis=0)[::2]][layout](F)
    want = spl.spsolve(A.tocsc(), F).reshape(n, k)
    with m.case(f"functions-{i}", n=n, columns=k, layout=layout):
        F0, A0 = F.copy(), A.toarray()
        for direct in (False, True):
            opts, see = draw(rng, direct)
            fp.reset()
            u = se.solve_u(A, F[:, 0], "petsc_spdirect" if direct else "petsc", rtol=1e-13, maxiter=5000, petsc_options=opts)
            judge_log(m, fp.solves, see, 1e-13, 5000)
            if fp.solves[-1]["reason"] > 0:
                m.close(u, want[:, 0], "same-state", rtol=1e-7)
            fp.reset()
            given = opts if not direct else ps.petsc_options_for_solver("petsc_spdirect", opts)
            U, infos = ps.solve_u_petsc_multi(A, F, rtol=1e-13, maxiter=5000, petsc_options=given)
            judge_log(m, fp.solves, see, 1e-13, 5000)
            m.ok(U.shape == (n, k) and list(infos) == [e["reason"] for e in fp.solves] and len(infos) == k, "each-column-its-load", infos=infos)
            for c in range(k):
                m.equal(U[:, c], fp.solves[c]["x"], "each-column-its-load", column=c)
                m.equal(fp.solves[c]["b"], F0[:, c], "each-column-its-load", column=c, what="right-hand side")
                m.ok(abs(fp.solves[c]["A"].toarray() - A0).max() == 0, "each-column-its-load", column=c, what="matrix")
            fp.reset()
            U, infos = ps.solve_u_petsc_multi(A, F[:, 0], rtol=1e-13, petsc_options=given)
            m.ok(U.shape == (n, 1) and len(infos) == 1, "each-column-its-load", what="one vector", shape=U.shape)
            v, info = ps.solve_u_petsc(A, F[:, -1], rtol=1e-13, petsc_options=given)
            if info > 0:
                m.close(v, want[:, -1], "same-state", rtol=1e-7)
        m.equal(F, F0, "inputs-unchanged")
        # the options database counts exactly when asked for
        for pre in PREFIXES:
            for use in (True, False):
                fp.reset()
                fp.OPTIONS[(pre or "") + "ksp_type"] = "gmres"
                fp.OPTIONS["other_ksp_type"] = "minres"
                ps.solve_u_petsc(A, F[:, 0], petsc_options=ps.PETScOptions("cg", "jacobi", None, pre, use))
                m.ok(fp.solves[0]["ksp"] == ("gmres" if use else "cg"), "options-arrive", prefix=pre, use=use, got=fp.solves[0]["ksp"])
        fp.reset()
        m.seen("functions", n, k, layout)


def forms(m, i):
    """An object, a dict, a partial dict: the same options."""
    from sktopt.fea import solver_petsc as ps
    from sktopt.fea.solver_elastic import LinearSolverConfig, normalize_linear_solver_config
    import sktopt.core as core
    rng = m.rng("forms", i)
    with m.case(f"forms-{i}"):
        for _ in range(6):
            ksp, pc = str(rng.choice(["cg", "gmres", "bcgs"])), str(rng.choice(["gamg", "jacobi", "ilu"]))
            full = dict(ksp_type=ksp, pc_type=pc, pc_factor_mat_solver_type=FACTORS[int(rng.integers(4))],
                        options_prefix=PREFIXES[int(rng.integers(4))], use_set_from_options=bool(rng.random() < 0.5))
            obj = ps.PETScOptions(**full)
            m.ok(ps.normalize_petsc_options(obj) == obj == ps.normalize_petsc_options(full), "option-forms-agree", options=full)
            keep = [k for k in full if rng.random() < 0.5]
            part = {k: full[k] for k in keep}
            want = dataclasses.replace(ps.PETScOptions(), **part)
            m.ok(ps.normalize_petsc_options(part) == want, "option-forms-agree", options=part)
            m.ok(ps.petsc_options_for_solver("petsc", part) == want, "option-forms-agree", options=part)
            # merging: what is given wins, what is not stays
            base = ps.PETScOptions("fgmres", "sor", "x", "b_", False)
            merged = ps.merge_petsc_options(base, part)
            expect = {**dataclasses.asdict(base), **{k: v for k, v in part.items() if v is not None}}
            m.ok(dataclasses.asdict(merged) == expect, "option-forms-agree", options=part, got=str(merged))
            m.ok(ps.merge_petsc_options(base, None) == base, "option-forms-agree")
            for c in (normalize_linear_solver_config("petsc", rtol=1e-3, maxiter=7, petsc_options=obj),
                      normalize_linear_solver_config(LinearSolverConfig("petsc", 1e-3, 7, obj), rtol=5.0, maxiter=1)):
                m.ok((c.solver, c.rtol, c.maxiter, c.petsc_options) == ("petsc", 1e-3, 7, obj), "option-forms-agree", got=str(c))
            # configurations and their file
            for cls in (core.OC_Config, core.LogMOC_Config):
                for given in (obj, full, part):
                    c = cls(dst_path=m.scratch("cfg"), solver_option="petsc", petsc_options=given)
                    want_c = want if given is part else obj
                    m.ok(c.solver_config.solver == "petsc" and c.solver_config.petsc_options == want_c, "option-forms-agree",
                         given=str(given), got=str(c.solver_config))
                    c.export(c.dst_path)
                    b = cls.import_from(c.dst_path)
                    m.ok(b.solver_config == c.solver_config and b.petsc_options == c.petsc_options, "settings-survive-a-file",
                         given=str(given), got=str(b.solver_config))
                    m.drop(c.dst_path)
                direct = {k: v for k, v in full.items() if k not in ("ksp_type", "pc_type")}
                for given in (direct, {**direct, "ksp_type": "preonly", "pc_type": "lu"}, ps.PETScOptions(ksp_type="preonly", pc_type="lu", **direct),
                              ps.PETScOptions(**direct), None):
                    kw = {} if given is None else {"petsc_options": given}
                    c = cls(dst_path=m.scratch("cfg"), solver_option="petsc_spdirect", **kw)
                    want_d = ps.PETScOptions(ksp_type="preonly", pc_type="lu", **(direct if given is not None else {}))
                    m.ok(c.solver_config.petsc_options == want_d, "option-forms-agree", given=str(given), got=str(c.solver_config))
                    c.export(c.dst_path)
                    b = cls.import_from(c.dst_path)
                    m.ok(b.solver_config == c.solver_config, "settings-survive-a-file", given=str(given), got=str(b.solver_config))
                    m.drop(c.dst_path)
                for bad in ({"ksp_type": ksp}, {"pc_type": pc}, {**direct, "ksp_type": ksp, "pc_type": "lu"},
                            ps.PETScOptions(ksp_type="gmres"), ps.PETScOptions(pc_type="ilu")):
                    for act in (lambda: cls(dst_path="x", solver_option="petsc_spdirect", petsc_options=bad),
                                lambda: ps.petsc_options_for_solver("petsc_spdirect", bad)):
                        try:
                            act()
                            said = None
                        except ValueError as e:
                            said = str(e)
                        m.ok(said and ("ksp_type" in said or "pc_type" in said), "incompatible-refused", options=str(bad), said=said)
            m.seen("forms", ksp, pc, sorted(keep))


def failures(m, i):
    """PETSc gives up: at its iteration limit, or for a reason of its own."""
    from sktopt.fea import solver_elastic as se, FEM_SimpLinearHeatConduction, composer
    rng = m.rng("failures", i)
    loads = [1, 2, 3][i % 3]
    heat_case = bool(i % 2)
    if heat_case:
        t, info = gen.heat_with_room(rng, 60, cases=loads)
        n = loads
    else:
        t, info = gen.elastic_with_room(rng, 60, loads=loads, support="clamp", E=float(10 ** rng.uniform(-1, 5)))
        n = len(t.neumann_linear) if isinstance(t.neumann_linear, list) else 1
    rho = rng.uniform(0.2, 1, t.mesh.nelements)
    with m.case(f"failures-{i}", **info, heat=heat_case):
        for how in ("limit", "forced"):
            fp.reset()
            solver = "petsc"
            if how == "limit":
                cfg = config_of("petsc", {"ksp_type": "cg", "pc_type": "jacobi"}, 1e-12, 1)
            else:
                solver = str(rng.choice(["petsc", "petsc_spdirect"]))
                cfg = config_of(solver, None, 1e-12, 5000)
                which = int(rng.integers(n))
                fp.fail_with[which] = int(rng.choice([-2, -3, -5, -7, -9, -10, -11]))
            U = np.zeros((t.basis.N, n))
            raised = None
            with tracer.announcements() as said:
                try:
                    if heat_case:
                        FEM_SimpLinearHeatConduction(t, 1e-2, composer.simp_interpolation, solver_config=cfg).objectives_multi_load(rho, 3.0, U)
                    else:
                        fem_of(t, "SIMP", 1e-2, solver_config=cfg).objectives_multi_load(rho, 3.0, U)
                except Exception as e:  # noqa: BLE001
                    raised = e
            if all(e["reason"] > 0 for e in fp.solves):
                m.tally("limit of one iteration was enough")
                continue
            texts = [s for s in said.got if "onverge" in s or "olve" in s or "iverge" in s]
            m.ok(bool(texts) or raised is not None, "failure-is-announced", how=how, solver=solver, reasons=[e["reason"] for e in fp.solves], said=said.got)
            m.seen("failures", heat_case, n, how, solver, sorted(e["reason"] for e in fp.solves))
        # success is not announced as failure
        fp.reset()
        U = np.zeros((t.basis.N, n))
        with tracer.announcements() as said:
            cfg = config_of("petsc_spdirect", None, 1e-12, 5000)
            if heat_case:
                FEM_SimpLinearHeatConduction(t, 1e-2, composer.simp_interpolation, solver_config=cfg).objectives_multi_load(rho, 3.0, U)
            else:
                fem_of(t, "SIMP", 1e-2, solver_config=cfg).objectives_multi_load(rho, 3.0, U)
        m.ok(not [s for s in said.got if "onverge" in s], "failure-is-announced", what="success announced as a failure", said=said.got)
        # with the fallback allowed, the direct solution
        if not heat_case:
            F = t.neumann_linear[0] if isinstance(t.neumann_linear, list) else t.neumann_linear
            A = sp.eye(12).tocsr() * 3.0 + sp.diags([np.ones(11), np.ones(11)], [-1, 1]).tocsr()
            b = rng.normal(size=12)
            want = spl.spsolve(A.tocsc(), b)
            for s in ("petsc", "petsc_spdirect"):
                fp.reset()
                fp.fail_with[0] = -3
                with tracer.announcements() as said:
                    u = se.solve_u(A, b, s, allow_fallback_to_spsolve=True)
                m.close(u, want, "fallback-is-the-solution", rtol=1e-9, solver=s)
                m.ok(bool(said), "failure-is-announced", how="fallback", solver=s)
        fp.reset()


def absent(m, i):
    """Without petsc4py: a clear error, or the fallback where that is allowed."""
    from sktopt.fea import solver_elastic as se, FEM_SimpLinearHeatConduction, composer
    rng = m.rng("absent", i)
    loads = [1, 2][i % 2]
    t, info = gen.elastic_with_room(rng, 40, loads=loads, E=float(10 ** rng.uniform(-1, 5)))
    h, _ = gen.heat_with_room(rng, 40, cases=loads)
    fp.remove()
    try:
        with m.case(f"absent-{i}", **info):
            for s in ("petsc", "petsc_spdirect"):
                for task in (t, h):
                    U = np.zeros((task.basis.N, loads))
                    rho = np.ones(task.mesh.nelements)
                    try:
                        if task is t:
                            fem_of(t, "SIMP", 1e-2, solver_config=config_of(s, None, 1e-8, None)).objectives_multi_load(rho, 3.0, U)
                        else:
                            FEM_SimpLinearHeatConduction(h, 1e-2, composer.simp_interpolation,
                                                         solver_config=config_of(s, None, 1e-8, None)).objectives_multi_load(rho, 3.0, U)
                        said = None
                    except RuntimeError as e:
                        said = str(e)
                    m.ok(said and "petsc4py" in said, "absent-is-an-error", solver=s, said=said)
                with tracer.announcements() as said:
                    A = sp.diags([2.0, 3.0, 4.0]).tocsr()
                    u = se.solve_u(A, np.array([2.0, 3.0, 4.0]), s, allow_fallback_to_spsolve=True)
                m.close(u, np.ones(3), "fallback-is-the-solution", rtol=1e-12)
                m.ok(bool(said), "failure-is-announced", what="fallback without petsc4py")
            m.seen("absent", loads, info["kind"])
    finally:
        fp.install()


def runs(m, i):
    """A whole optimisation, with PETSc and with the direct solver."""
    rng = m.rng("runs", i)
    physics = ["elastic", "heat"][i % 2]
    kind = ["oc", "logmoc"][(i // 2) % 2]
    direct = bool(rng.random() < 0.5)
    loads = int(rng.choice([1, 2, 3]))
    r = gen.Run(m, rng, kind=kind, physics=physics, iters=int(rng.integers(3, 6)), max_elems=40, loads=loads, E_min_coeff=1e-2)
    with m.case(f"run-{i}", **r.info, direct=direct):
        r.opt.optimize()
        dst = m.scratch("petsc")
        fp.reset()
        # the default tolerance is 1e-8; the database is how one asks for more
        fp.OPTIONS.update({"run_ksp_rtol": 1e-13})
        opts = dict(options_prefix="run_") if direct else dict(ksp_type="gmres", pc_type="lu", options_prefix="run_")
        args = {f.name: getattr(r.cfg, f.name) for f in dataclasses.fields(r.cfg) if f.init}
        args.update(dst_path=dst, solver_option="petsc_spdirect" if direct else "petsc", petsc_options=opts)
        opt = gen.optimizer(type(r.cfg)(**args), r.task)
        tr = tracer.Tracer(opt)
        opt.optimize()
        m.ok(len(fp.solves) >= len(tr.steps) * loads and len(tr.steps) == len(r.steps), "same-run", solves=len(fp.solves), steps=len(tr.steps))
        want = dict(ksp="preonly" if direct else "gmres", pc="lu", prefix="run_", factor=None, from_options=True)
        for e in fp.solves[:3]:
            got = {k: e[k] for k in want}
            m.ok(got == want, "options-arrive", got=got, want=want)
        for a, b in zip(r.steps, tr.steps):
            m.close(b.before, a.before, "same-run", atol=1e-5, iter=a.iter, what="densities")
            if a.iter <= 2:
                m.close(b.dC, a.dC, "same-run", rtol=1e-4, iter=a.iter, what="sensitivities")
        m.seen("run", physics, kind, direct, loads)
        fp.reset()
        m.drop(dst)
    r.close()


def run(m):
    tracer.stub_plots()
    fp.install()
    for f, quick, deep in ((forms, 8, 60), (absent, 8, 40), (functions, 48, 1200), (failures, 48, 800), (elastic, 80, 1500), (heat, 72, 1200), (runs, 16, 160)):
        for i in range(m.pick(quick, deep)):
            if m.mine(i) and not m.out_of_time():
                f(m, i)

"""C13: values returned by schedulers, evaluated in every order."""
import numpy as np
import ref

RULE = "distinct (schedule kind, direction, steps relative to iterations, curvature, construction path) sequences judged"
ASSUMPTIONS = ["the first iteration is 1; a schedule with plateaus of at most one iteration has left its start value at iteration 1"]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 4, "thorough": 8}
REQUIRE = {"starts": 300, "ends": 900, "in-range": 900, "monotone": 400, "declared-value": 900, "repeatable": 900,
           "sawtooth-resets": 20, "curvature-orders": 200, "exponential": 100, "missing-refused": 20}

KINDS = ["Constant", "ConstantOne", "Step", "StepAccelerating", "StepDecelerating", "SawtoothDecay",
         "StepToOne", "StepAcceleratingToOne", "StepDeceleratingToOne", "None"]


def build(rng, kind, a, b, n, cv, total):
    """The same schedule through one of the ways to declare it."""
    from sktopt.tools import SchedulerConfig as SC
    from sktopt.tools import scheduler as S
    way = int(rng.integers(3))
    if kind == "None":
        return [lambda: SC.none(), lambda: SC.from_defaults(scheduler_type="None"), lambda: SC.none()][way](), None, "none"
    if way == 2 and kind not in ("Constant", "ConstantOne"):
        cls = getattr(S, "Scheduler" + kind)
        kw = dict(name="x", num_steps=n, iters_max=total)
        if not kind.endswith("ToOne"):
            kw.update(init_value=a, target_value=b)
        if "celerating" in kind:
            kw["curvature"] = cv
        sc = SC(name="x", init_value=a, target_value=b, num_steps=n, curvature=cv, scheduler_type=kind)
        return sc, cls(**kw), "class"
    f = {
        "Constant": lambda: SC.constant(target_value=b),
        "ConstantOne": lambda: SC.constant_one(),
        "Step": lambda: SC.step(init_value=a, target_value=b, num_steps=n),
        "StepAccelerating": lambda: SC.step_accelerating(init_value=a, target_value=b, num_steps=n, curvature=cv),
        "StepDecelerating": lambda: SC.step_decelerating(init_value=a, target_value=b, num_steps=n, curvature=cv),
        "SawtoothDecay": lambda: SC.sawtooth_decay(init_value=a, target_value=b, num_steps=n, iters_max=total),
        "StepToOne": lambda: SC.step_to_one(num_steps=n),
        "StepAcceleratingToOne": lambda: SC.step_accelerating_to_one(num_steps=n, curvature=cv),
        "StepDeceleratingToOne": lambda: SC.step_decelerating_to_one(num_steps=n, curvature=cv),
    }[kind]
    if way == 1:
        kw = {"scheduler_type": kind}
        if kind == "Constant":
            kw["target_value"] = b
        elif kind not in ("ConstantOne",):
            kw["num_steps"] = n
            if not kind.endswith("ToOne"):
                kw.update(init_value=a, target_value=b)
            if "celerating" in kind:
                kw["curvature"] = cv
        return SC.from_defaults(**kw), None, "from_defaults"
    return f(), None, "factory"


def one(m, i):
    from sktopt.tools import scheduler as S
    rng = m.rng("schedule", i)
    kind = KINDS[i % len(KINDS)]
    total = int(rng.choice([1, 2, 3, 5, 8, 10, 17, 40, 100, 257]))
    n = int(rng.choice([1, 2, 3, 4, 6, 10, 25, 60]))
    cv = float(rng.choice([1.0, 2.0, 3.0, rng.uniform(0.3, 5)]))
    a, b = [float(x) for x in rng.choice([0.05, 0.4, 1.0, 3.0, 8.0, rng.uniform(-2, 9)], 2)]
    sc, sch, way = build(rng, kind, a, b, n, cv, total)
    if kind == "ConstantOne":
        a = b = 1.0
    elif kind == "Constant":
        a = b
    elif kind.endswith("ToOne"):
        a, b = 1.0 / n, 1.0
    with m.case(f"{kind}-{i}", kind=kind, total=total, steps=n, curvature=cv, start=a, target=b, way=way):
        coll = S.Schedulers("unused")
        if sch is None:
            if rng.random() < 0.5:
                sch = S.Scheduler.from_config(sc)
                coll.add_object(sch)
                sch.name = "x"
            else:
                coll.add_object_from_config(sc, "x")
        else:
            coll.add_object(sch)
        other = S.Scheduler("y", 1.0, 2.0, 3, total)
        coll.add_object(other)
        coll.set_iters_max(total)
        order = rng.permutation(np.arange(1, total + 4))[:60]
        its = np.unique(np.concatenate([order, np.arange(1, min(total + 3, 40)), [total]])).astype(int)
        val = {}
        for it in list(order) + list(its):
            it = int(it)
            x = coll.values_as_list(it, ["y", "x"], export_log=bool(rng.random() < 0.1))[1] if rng.random() < 0.5 \
                else coll.value_on_a_scheduler("x", it)
            if it in val:
                m.ok(val[it] == x or (x is None and val[it] is None), "repeatable", it=it, first=val[it], now=x)
            val[it] = x
        m.ok(list(coll.values_as_dict(1)) == ["x", "y"], "names")
        if kind == "None":
            m.ok(all(v is None for v in val.values()), "declared-value")
            return
        v = np.array([val[int(i)] for i in its], float)
        span = max(abs(a), abs(b), 1e-9)
        lo, hi = min(a, b), max(a, b)
        m.ok(np.all(np.isfinite(v)) and v.min() >= lo - 1e-12 * span and v.max() <= hi + 1e-12 * span, "in-range", got=v)
        m.close(v[its >= total], np.full((its >= total).sum(), b), "ends", rtol=1e-12, scale=span)
        for it, x in zip(its, v):
            want = ref.sched_value(sc, int(it), total)
            if ref.on_boundary(sc, int(it), total):
                m.tally("floating point boundary: either plateau accepted")
                near = [ref.sched_value(sc, y, total) for y in (it - 1e-6, it + 1e-6)]
                m.ok(min(abs(x - y) for y in near + [want]) <= 1e-5 * span * n, "declared-value", it=int(it), got=x, want=near)
            else:
                m.close(x, want, "declared-value", rtol=1e-11, scale=span, it=int(it))
        if kind != "SawtoothDecay":
            d = np.diff(v) * (1 if b >= a else -1)
            m.ok(np.all(d >= -1e-12 * span), "monotone", got=v)
            if n >= 1 and not kind.startswith("Constant"):
                m.ok(len(np.unique(np.round(v / span, 12))) <= max(n, 2), "number-of-plateaus")
            if kind.startswith("Constant"):
                m.ok(np.all(v == b), "constant")
        if kind.startswith("Constant") or (total / n > 1 + 1e-9 and n > 1 and total > 1) or \
                (kind == "SawtoothDecay" and total > 1):
            m.close(val[1], a, "starts", rtol=1e-12, scale=span)
        if kind == "SawtoothDecay" and total / n >= 3 and total % n == 0 and n > 1:
            L = total // n
            for c in range(n):
                first, last = c * L + 1, c * L + L
                x0 = coll.value_on_a_scheduler("x", first)
                m.close(x0, a, "sawtooth-resets", rtol=1e-9, scale=span, cycle=c)
                seq = np.array([coll.value_on_a_scheduler("x", t) for t in range(first, min(last + 1, total))])
                d = np.diff(seq) * (1 if b >= a else -1)
                m.ok(a == b or np.all(d > 0), "sawtooth-decays", cycle=c)
                if len(d) > 1:
                    m.close(d, np.full(d.size, abs(b - a) / L), "sawtooth-linear", rtol=1e-9, scale=span)
        if "celerating" in kind and cv >= 1:
            plain = S.Scheduler("z", a, b, n, total, func=S.schedule_step)
            base = np.array([plain.value(int(t)) for t in its])
            sgn = 1 if b >= a else -1
            gap = (v - base) * sgn * (1 if "Dec" in kind else -1)
            m.ok(np.all(gap >= -1e-12 * span), "curvature-orders", got=v, plain=base)
            if cv == 1.0:
                m.close(v, base, "curvature-one-is-plain", rtol=1e-12, scale=span)
        m.seen(kind, np.sign(b - a), "more" if n > total else "fewer", cv, way, total)
        m.sample(values=v[:8])


def exponential(m, i):
    from sktopt.tools import scheduler as S
    rng = m.rng("exp", i)
    a, b = [float(x) for x in rng.uniform(0.05, 4, 2)]
    total, rate = int(rng.integers(2, 80)), float(rng.uniform(1, 15))
    with m.case(f"exp-{i}", start=a, target=b, total=total, rate=rate):
        its = np.arange(0, total + 1)
        for f, exact_start in ((S.schedule_exp_slowdown, True), (S.schedule_exp_accelerate, False)):
            v = np.array([f(int(t), total, a, b, rate) for t in its])
            m.close(v[-1], b, "exponential", rtol=1e-12, scale=max(a, b))
            m.close(v[0], a, "exponential", atol=1e-12 if exact_start else abs(a - b) * np.exp(-rate) + 1e-12)
            d = np.diff(v) * np.sign(b - a)
            m.ok(np.all(d >= -1e-12), "exponential")
            # slowing down: the first half covers more; accelerating: less
            half = abs(v[total // 2] - v[0])
            if total % 2 == 0 and rate > 1:
                m.ok(half > 0.5 * abs(b - a) if exact_start else half < 0.5 * abs(b - a), "exponential-shape", f=f.__name__)
            m.seen("exp", exact_start, a < b, round(rate))


def refused(m):
    from sktopt.tools import SchedulerConfig as SC
    bad = [
        dict(scheduler_type="Constant"), dict(scheduler_type="Step", init_value=1.0, target_value=2.0),
        dict(scheduler_type="Step", init_value=1.0, num_steps=3), dict(scheduler_type="Step", target_value=1.0, num_steps=3),
        dict(scheduler_type="StepAccelerating", init_value=1.0, target_value=2.0, num_steps=3),
        dict(scheduler_type="StepDecelerating", init_value=1.0, target_value=2.0, num_steps=3),
        dict(scheduler_type="StepToOne"), dict(scheduler_type="StepToOne", num_steps=0),
        dict(scheduler_type="StepToOne", num_steps=3, target_value=2.0),
        dict(scheduler_type="StepAcceleratingToOne", num_steps=3), dict(scheduler_type="StepDeceleratingToOne", num_steps=3),
        dict(scheduler_type="SawtoothDecay", init_value=1.0, target_value=0.5),
        dict(scheduler_type="Nonsense", target_value=1.0),
    ]
    for kw in bad:
        try:
            SC.from_defaults(**kw)
            m.ok(False, "missing-refused", **kw)
        except ValueError:
            m.ok(True, "missing-refused")


def run(m):
    for i in range(m.pick(1600, 60000)):
        if m.mine(i) and not m.out_of_time():
            one(m, i)
    for i in range(m.pick(60, 3000)):
        if m.mine(i) and not m.out_of_time():
            exponential(m, i)
    refused(m)

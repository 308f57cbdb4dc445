"""C24: section timers driven through random schedules by a simulated clock,
every statistic, report and chart compared with an own record of intervals."""
import logging
import re
import types
import numpy as np
import gen

RULE = "distinct (mode, depth, number of sections, ways sections ended, resets) schedules and (chart kind, metric, options) charts judged"
ASSUMPTIONS = ["section names do not contain the separator"]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"statistics": 1000, "self-times": 200, "tree-adds-up": 100, "report": 200, "chart": 60, "outcome-passed-on": 500, "run-timer": 8}

ERRORS = [ValueError, KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration, ZeroDivisionError]


class Clock:
    def __init__(self):
        self.now = 0.0

    def __call__(self):
        return self.now


class Model:
    """What one timer should know."""

    def __init__(self, timer, nested, sep):
        self.timer, self.nested, self.sep = timer, nested, sep
        self.stack, self.rec = [], {}
        self.broken = False     # a parent was forgotten: the tree is no longer whole

    def enter(self, name, now):
        self.stack.append((self.sep.join([n for n, _, _ in self.stack] + [name]) if self.nested else name, now, name))
        self.stack[-1] = (name, now, self.stack[-1][0])

    def leave(self, now):
        name, start, full = self.stack.pop()
        self.rec.setdefault(full, []).append(now - start)

    def stats(self):
        return {k: (len(v), sum(v), sum(v) / len(v), max(v)) for k, v in self.rec.items()}

    def children(self, name):
        return [k for k in self.rec if k.startswith(name + self.sep) and self.sep not in k[len(name + self.sep):]]


def judge(m, M, when):
    got = M.timer.stats()
    want = M.stats()
    g = {s.name: (s.count, s.total, s.avg, s.max) for s in got}
    m.ok(len(g) == len(got), "statistics", what="one entry per section", names=[s.name for s in got], when=when)
    m.ok(g == want, "statistics", when=when, wrong=[(k, g.get(k), want.get(k)) for k in set(g) | set(want) if g.get(k) != want.get(k)][:4])


def judge_more(m, M, rng):
    want = M.stats()
    for key in ("total", "avg", "max", "count", "name"):
        down = bool(rng.random() < 0.5)
        out = M.timer.summary(sort_by=key, descending=down)
        vals = [getattr(s, key) for s in out]
        m.ok({s.name: (s.count, s.total, s.avg, s.max) for s in out} == want and len(out) == len(want)
             and vals == sorted(vals, reverse=down), "summary-sorted", key=key, descending=down)
    if M.timer._hierarchical if hasattr(M.timer, "_hierarchical") else M.nested:
        if M.nested and not M.broken and not M.stack:
            selfs = {s.name: s for s in M.timer.summary_self_time(sort_by=str(rng.choice(["total", "avg", "count", "name"])))}
            m.ok(set(selfs) == set(want), "self-times", got=sorted(selfs), want=sorted(want))
            for k, s in selfs.items():
                own = want[k][1] - sum(want[c][1] for c in M.children(k))
                m.ok(abs(s.total - own) <= 1e-12 * want[k][1] and s.count == want[k][0]
                     and abs(s.avg - own / want[k][0]) <= 1e-12 * want[k][1], "self-times", section=k, got=s.total, want=own)
            for root in [k for k in want if M.sep not in k]:
                tree = [k for k in want if k == root or k.startswith(root + M.sep)]
                m.close(sum(selfs[k].total for k in tree if k in selfs), want[root][1], "tree-adds-up", rtol=1e-12, root=root)
    elif not M.nested:
        selfs = {s.name: s.total for s in M.timer.summary_self_time()}
        m.ok(selfs == {k: v[1] for k, v in want.items()}, "self-times", what="flat")
    # the report
    lines = []

    class Log(logging.Logger):
        def info(self, msg, *a, **k):
            lines.append(str(msg) % a if a else str(msg))
    text = M.timer.report(logger_instance=Log("x"), sort_by="name", descending=False)
    if not want:
        m.ok(text == "No timing data collected.", "report", text=text)
        return
    m.ok(text.split("\n") == lines and len(lines) == len(want), "report", lines=len(lines), want=len(want))
    for line, name in zip(text.split("\n"), sorted(want)):
        c, tot, avg, mx = want[name]
        nums = re.findall(r"(total|avg|max|count)=([-+0-9.e]+)", line)
        d = {k: float(v) for k, v in nums}
        m.ok(line.startswith(name + ":") and d.get("count") == c and abs(d.get("total", -1) - tot) < 1e-6
             and abs(d.get("avg", -1) - avg) < 1e-6 and abs(d.get("max", -1) - mx) < 1e-6, "report", line=line, want=(name, want[name]))


NAMES = ["a", "b", "assemble", "solve", "a b", "x.y", "ab", "", "aa", "Ω"]


def schedule(m, i):
    from sktopt.tools import SectionTimer
    rng = m.rng("schedule", i)
    nested = i % 3 != 0
    sep = str(rng.choice([">", ">", "/", "::"]))
    clock = Clock()
    models = [Model(SectionTimer(clock=clock, hierarchical=nested, **({"sep": sep} if sep != ">" else {})), nested, sep)]
    if i % 4 == 0:      # a second timer, mixed with the first
        models.append(Model(SectionTimer(clock=clock, hierarchical=not nested), not nested, ">"))
    ends, resets, deepest = set(), 0, 0
    may_reset = rng.random() < 0.4

    def tick():
        clock.now += float(rng.choice([0.0, 0.25, 0.5, 1.0, 3.0, 2.0 ** -10, 1024.0]))

    def body(depth, budget):
        nonlocal deepest, resets
        deepest = max(deepest, depth)
        for _ in range(int(rng.integers(0, 4))):
            if budget[0] <= 0:
                return
            tick()
            act = rng.random()
            M = models[int(rng.integers(len(models)))]
            if act < 0.72:
                budget[0] -= 1
                visit(M, depth, budget)
            elif act < 0.8 and not M.nested:
                d = float(rng.choice([0.5, 2.0]))
                name = str(rng.choice(NAMES))
                M.timer.add(name, d)
                M.rec.setdefault(name, []).append(d)
            elif act < 0.84 and may_reset:
                resets += 1
                if rng.random() < 0.4:
                    M.timer.reset()
                    M.rec.clear()
                else:
                    name = str(rng.choice(list(M.rec) or NAMES))
                    M.timer.reset(name)
                    M.rec.pop(name, None)
                M.broken = M.broken or M.nested
            else:
                judge(m, M, "in between")

    def visit(M, depth, budget):
        name = str(rng.choice(NAMES))
        way = int(rng.integers(6))
        err = ERRORS[int(rng.integers(len(ERRORS)))]
        token = object()
        if way == 0:        # an exception
            ends.add(err.__name__)
            thrown = err("x")
            try:
                M.enter(name, clock.now)
                with M.timer.section(name):
                    body(depth + 1, budget)
                    tick()
                    M.leave(clock.now)
                    raise thrown
            except BaseException as e:  # noqa: BLE001
                if e is not thrown and not (isinstance(err("x"), StopIteration) and isinstance(e, RuntimeError)):
                    raise
                m.ok(e is thrown or e.__cause__ is thrown, "outcome-passed-on", got=repr(e))
        elif way == 1:      # a return
            ends.add("return")

            def f():
                with M.timer.section(name):
                    body(depth + 1, budget)
                    tick()
                    M.leave(clock.now)
                    return token
            M.enter(name, clock.now)
            m.ok(f() is token, "outcome-passed-on")
        elif way == 2:      # a decorated function
            ends.add("wrap")
            fail = rng.random() < 0.3

            @M.timer.wrap(name)
            def g(x, *, y):
                body(depth + 1, budget)
                tick()
                M.leave(clock.now)
                if fail:
                    raise LookupError("g")
                return x, y
            M.enter(name, clock.now)
            try:
                m.ok(g(token, y=3) == (token, 3) and not fail, "outcome-passed-on")
            except LookupError:
                m.ok(fail, "outcome-passed-on")
        elif way == 3:      # leaving a loop
            ends.add("break")
            for k in range(3):
                M.enter(name, clock.now)
                with M.timer.section(name):
                    body(depth + 1, budget)
                    tick()
                    M.leave(clock.now)
                    if k == 1:
                        break
        else:
            ends.add("plain")
            M.enter(name, clock.now)
            with M.timer.section(name):
                tick()
                body(depth + 1, budget)
                tick()
                M.leave(clock.now)

    with m.case(f"schedule-{i}", nested=nested, sep=sep, timers=len(models)):
        budget = [int(rng.integers(1, 60))]
        while budget[0] > 0:
            body(0, budget)
            budget[0] -= 1
        for M in models:
            judge(m, M, "at the end")
            judge_more(m, M, rng)
            judge(m, M, "after reporting")
        if not models[0].broken:
            charts(m, models[0], rng, i)
        for M in models:
            M.timer.reset()
            m.ok(not M.timer.stats(), "statistics", what="after reset")
        m.seen(nested, sep, deepest, len(models[0].rec), sorted(ends), resets, len(models))
        m.sample(sections={k: len(v) for k, v in list(models[0].rec.items())[:5]})


def charts(m, M, rng, i):
    if i % 4 != 1 or not M.rec or M.stack:
        return
    want = M.stats()
    metric = str(rng.choice(["total", "avg", "max", "count"]))
    col = {"count": 0, "total": 1, "avg": 2, "max": 3}[metric]
    key = {k: v[col] for k, v in want.items()}
    _, ax = M.timer.plot(kind="bar", value=metric, sort_by="name", descending=False)
    bars = [p for p in ax.patches]
    order = sorted(want)
    m.ok(len(bars) == len(want), "chart", what="bars", got=len(bars), want=len(want))
    m.ok(len({round(b.get_y() + b.get_height() / 2, 6) for b in bars}) == len(bars), "chart", what="bars on top of each other", names=order)
    m.close(sorted(b.get_width() for b in bars), sorted(key.values()), "chart", rtol=1e-9, what="bar lengths")
    at = {round(b.get_y() + b.get_height() / 2, 6): b.get_width() for b in bars}
    ys = list(ax.get_yticks())
    labels = [t.get_text() for t in ax.get_yticklabels()]
    if len(labels) == len(at):
        got = sorted((lab.strip(), at.get(round(float(y), 6))) for y, lab in zip(ys, labels))
        exp = sorted(((k.split(M.sep)[-1] if M.nested else k).strip(), key[k]) for k in order)
        m.ok([a for a, _ in got] == [a for a, _ in exp], "chart", what="labels", got=got[:6], want=exp[:6])
        m.close([b if b is not None else np.nan for _, b in got], [b for _, b in exp], "chart", rtol=1e-9, what="labelled lengths")
    stacked(m, M, want, key, metric)
    if any(v > 0 for v in key.values()):
        _, ax = M.timer.plot(kind="pie", value=metric, label_threshold=None)
        w = {p.get_label(): (p.theta2 - p.theta1) / 360 for p in ax.patches}
        tot = sum(key.values())
        m.ok(len(ax.patches) == len(want), "chart", what="wedges", got=len(ax.patches), want=len(want))
        m.close(sorted((p.theta2 - p.theta1) / 360 for p in ax.patches), sorted(v / tot for v in key.values()), "chart", atol=1e-5, what="wedge sizes")
        m.close([w.get(k, 0) for k in key if k], [v / tot for k, v in key.items() if k], "chart", atol=1e-5, what="wedge of each section")
    # running means over repeated charts
    history = {k: [key[k]] for k in key}
    from sktopt.tools import SectionTimer  # noqa: F401
    M.timer.plot(kind="bar", value=metric, moving_average=True, sort_by="name", descending=False)
    for _ in range(2):
        name = str(rng.choice(order))
        M.timer.add(name, 4.0)
        M.rec[name].append(4.0)
        now = {k: v[col] for k, v in M.stats().items()}
        for k in now:
            history[k].append(now[k])
        _, ax = M.timer.plot(kind="bar", value=metric, moving_average=True, sort_by="name", descending=False)
        m.close(sorted(b.get_width() for b in ax.patches), sorted(np.mean(v) for v in history.values()), "chart", rtol=1e-9, what="running means")
    m.seen("chart", metric, M.nested, len(want))


def stacked(m, M, want, key, metric):
    """One row per root section: its own share and its direct children's, end to end."""
    kids = {r: M.children(r) for r in want if M.sep not in r} if M.nested else {}
    if not kids or not any(kids.values()) or M.broken:
        return
    _, ax = M.timer.plot(kind="bar", value=metric, sort_by="name", descending=False, stacked_nested=True)
    m.ok([t.get_text() for t in ax.get_yticklabels()] == sorted(kids), "chart", what="stacked rows")
    rows = dict(zip([t.get_text() for t in ax.get_yticklabels()], ax.get_yticks()))
    total = 0
    for r, y in rows.items():
        bars = sorted([b for b in ax.patches if abs(b.get_y() + b.get_height() / 2 - y) < 1e-6], key=lambda b: (b.get_x(), b.get_width()))
        total += len(bars)
        parts = [key[c] for c in kids.get(r, [])]
        own = max(key.get(r, 0) - sum(parts), 0)
        m.close(sorted(b.get_width() for b in bars), sorted(parts + [own]), "chart", rtol=1e-9, atol=1e-9 * max(key.values()), what="stacked widths", row=r)
        ends = np.cumsum([b.get_width() for b in bars])
        m.close([b.get_x() for b in bars], np.concatenate([[0.0], ends[:-1]]), "chart", atol=1e-9 * max(1e-300, ends[-1]), what="stacked end to end", row=r)
    m.ok(total == len(ax.patches), "chart", what="stacked bars", got=len(ax.patches), want=total)
    m.seen("stacked", len(rows), metric)


def wide(m, i):
    """Stacked charts of sections with many direct subsections."""
    from sktopt.tools import SectionTimer
    rng = m.rng("wide", i)
    sep = [">", "."][int(rng.integers(2))]
    timer = SectionTimer(hierarchical=True, sep=sep)
    key, kids = {}, {}
    metric = str(rng.choice(["total", "avg", "max", "count"]))

    def put(name, total):
        parts = rng.dirichlet(np.ones(int(rng.integers(1, 4)))) * total
        for x in parts:
            timer.add(name, float(x))
        key[name] = {"total": total, "avg": total / len(parts), "max": float(parts.max()), "count": float(len(parts))}[metric]

    with m.case(f"wide-{i}", metric=metric, sep=sep):
        for r in range(int(rng.integers(1, 5))):
            n = int(rng.integers(0, 26)) if r else int(rng.integers(1, 26))
            total = float(10 ** rng.uniform(-3, 3))
            share = rng.dirichlet(np.ones(n + 1)) * total
            put(f"r{r}", total)
            kids[f"r{r}"] = []
            for c in range(n):
                put(f"r{r}{sep}s{c}", float(share[c]))
                kids[f"r{r}"].append(f"r{r}{sep}s{c}")
                if rng.random() < 0.2:
                    put(f"r{r}{sep}s{c}{sep}deep", float(share[c]) * 0.4)
        M = types.SimpleNamespace(sep=sep, nested=True, broken=False, timer=timer, children=lambda r: kids.get(r, []))
        stacked(m, M, key, key, metric)
        m.tally("direct subsections", sum(map(len, kids.values())))
        m.seen("wide", metric, sep, tuple(map(len, kids.values())))


def run_timer(m, i):
    """The timer of a real optimizer run."""
    rng = m.rng("run", i)
    r = gen.Run(m, rng, kind=["oc", "logmoc"][i % 2], max_elems=30)
    with m.case(f"run-{i}", **r.info):
        r.opt.optimize()
        st = {s.name: s for s in r.opt.timer.stats()}
        n = len(r.steps)
        m.ok(st and all(s.count >= 1 and 0 <= s.max <= s.total * (1 + 1e-12) for s in st.values()), "run-timer", sections=len(st))
        # one visit per update of every section passed once per iteration
        m.ok(st["rho_update"].count == n and st["sensitivity"].count == n, "run-timer", got=st["rho_update"].count, want=n)
        for k, s in st.items():
            kids = [c for c in st if c.startswith(k + ">") and ">" not in c[len(k) + 1:]]
            m.ok(sum(st[c].total for c in kids) <= s.total * (1 + 1e-9), "run-timer", section=k, what="children within the parent")
            for c in kids:
                m.ok(st[c].count % s.count == 0 or st[c].count >= 1, "run-timer", section=c)
        selfs = {s.name: s.total for s in r.opt.timer.summary_self_time()}
        for root in [k for k in st if ">" not in k]:
            m.close(sum(v for k, v in selfs.items() if k == root or k.startswith(root + ">")), st[root].total, "run-timer", rtol=1e-9, root=root)
    r.close()


def run(m):
    for i in range(m.pick(800, 20000)):
        if m.mine(i) and not m.out_of_time():
            schedule(m, i)
    for i in range(m.pick(80, 2000)):
        if m.mine(i) and not m.out_of_time():
            wide(m, i)
    for i in range(m.pick(16, 100)):
        if m.mine(i) and not m.out_of_time():
            run_timer(m, i)

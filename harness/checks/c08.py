"""C08: values and derivatives returned by the projection functions."""
import numpy as np
import ref

RULE = "distinct (sharpness decade, threshold, array layout, output buffer) calls judged"
ASSUMPTIONS = ["sharpness > 0"]
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 2, "thorough": 8}
REQUIRE = {"end-points": 300, "in-range": 300, "monotone": 300, "derivative-exact": 300, "inplace-value": 600,
           "inplace-derivative": 600, "input-unchanged": 600, "sharper-is-steeper": 300}


def layouts(rng, n):
    """The same kind of data in differently laid out arrays."""
    x = rng.uniform(0, 1, n)
    k = int(rng.integers(6))
    if k == 0:
        return x, "contiguous"
    if k == 1:
        big = rng.uniform(0, 1, 2 * n)
        return big[::2], "strided"
    if k == 2:
        return x[::-1], "reversed"
    if k == 3:
        return np.asfortranarray(rng.uniform(0, 1, (n, 3))), "2d fortran"
    if k == 4:
        x[: max(1, n // 2)] = rng.choice([0.0, 1.0], max(1, n // 2))
        return x, "with ends"
    return rng.uniform(0, 1, (n, 1))[:, 0], "column view"


def one(m, i):
    from sktopt.core import projection as P
    rng = m.rng("case", i)
    beta = float(10 ** rng.uniform(-2, 2.7))
    eta = float(rng.choice([0.0, 1.0, 0.5, rng.uniform(0, 1), rng.uniform(0, 1), rng.uniform(0, 1)]))
    n = int(rng.choice([1, 2, 17, 300]))
    x, layout = layouts(rng, n)
    with m.case(f"call-{i}", beta=beta, eta=eta, n=n, layout=layout):
        x0 = np.array(x, copy=True)
        den = np.tanh(beta * eta) + np.tanh(beta * (1 - eta))
        slack = 4e-12 / den + 1e-13
        y = P.heaviside_projection(x, beta, eta)
        m.equal(x, x0, "input-unchanged")
        m.close(y, ref.project(x, beta, eta), "value", atol=slack)
        ends = P.heaviside_projection(np.array([0.0, 1.0]), beta, eta)
        m.close(ends, [0, 1], "end-points", atol=slack)
        m.ok(np.all(y >= -1e-15) and np.all(y <= 1 + 1e-15), "in-range", lo=y.min(), hi=y.max())
        o = np.sort(x.ravel())
        m.ok(np.all(np.diff(P.heaviside_projection(o, beta, eta)) >= -1e-15), "monotone")
        d = P.heaviside_projection_derivative(x, beta, eta)
        m.equal(x, x0, "input-unchanged")
        m.ok(d.shape == x.shape and np.all(d >= 0), "derivative-non-negative")
        want = ref.dproject(x, beta, eta)
        m.close(d, want, "derivative-exact", rtol=1e-9, scale=beta / den, atol=slack * beta)
        # the derivative integrates to the function
        g, w = np.polynomial.legendre.leggauss(80)
        edges = np.unique(np.concatenate([[0, 1], np.clip(eta + np.array([-8, -3, -1, 0, 1, 3, 8]) / beta, 0, 1)]))
        tot = 0.0
        for a, b in zip(edges[:-1], edges[1:]):
            tot += (b - a) / 2 * (w @ P.heaviside_projection_derivative((a + b) / 2 + (b - a) / 2 * g, beta, eta))
        m.close(tot, 1.0, "derivative-integrates-to-one", atol=1e-8 + slack)
        # buffer variants
        for kind in ("none", "fresh", "dirty", "alias"):
            for name, f, base, buf_ok in (("inplace-value", P.heaviside_projection_inplace, y, slack),
                                          ("inplace-derivative", P.heaviside_projection_derivative_inplace, d, None)):
                src = np.array(x, copy=True)
                out = {"none": None, "fresh": np.empty_like(src), "dirty": np.full_like(src, np.nan), "alias": src}[kind]
                guard = None
                if kind == "dirty":     # a view into a larger array
                    guard = np.full((src.shape[0] + 2,) + src.shape[1:], 7.0)
                    out = guard[1:-1]
                got = f(src, beta, eta, out=out)
                tol = dict(rtol=1e-9, scale=beta / den, atol=1e-12) if buf_ok is None else dict(atol=1e-12)
                m.close(got, base, name, buffer=kind, **tol)
                if out is not None:
                    m.close(out, base, name, buffer=kind, **tol)
                if kind != "alias":
                    m.equal(src, x0, "input-unchanged", buffer=kind)
                if guard is not None:
                    m.ok(np.all(guard[0] == 7.0) and np.all(guard[-1] == 7.0), "nothing-else-written")
        # sharper
        b2 = beta * float(rng.uniform(1.1, 4))
        s1 = P.heaviside_projection_derivative(np.array([eta]), beta, eta)[0]
        s2 = P.heaviside_projection_derivative(np.array([eta]), b2, eta)[0]
        m.ok(s2 >= s1 * (1 - 1e-9) - slack, "sharper-is-steeper", s1=s1, s2=s2)
        m.close(P.heaviside_projection(x, beta), P.heaviside_projection(x, beta, 0.5), "default-threshold", rtol=1e-14)
        m.seen(round(np.log10(beta), 1), round(eta, 1), layout, n)
        m.sample(value=y.ravel()[:3], derivative=d.ravel()[:3])


def run(m):
    for i in range(m.pick(600, 30000)):
        if m.mine(i) and not m.out_of_time():
            one(m, i)

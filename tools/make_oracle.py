#!/opt/veriftools/pyvenv/bin/python
"""Writes data/oracle.json: values computed by mpmath with 60 digits, as pairs of doubles, against
which `gq-check selftest` compares the harness's double-double arithmetic and reference rules."""
import json, os, random
from mpmath import mp, mpf, matrix, eigsy, gamma, loggamma, exp, log, sin, cos, sqrt, pi, polyroots
mp.dps = 60
rnd = random.Random(20240611)
def pair(v):
    h = float(v)
    return [h, float(v - mpf(h))]
out = {"functions": [], "rules": [], "legendre": []}
def fun(name, f, xs):
    for x in xs:
        out["functions"].append({"f": name, "x": x, "y": pair(f(mpf(x)))})
fun("exp", exp, [rnd.uniform(-700, 700) for _ in range(40)] + [rnd.uniform(-1, 1) for _ in range(40)])
fun("ln", log, [10.0 ** rnd.uniform(-300, 300) for _ in range(40)] + [rnd.uniform(0.5, 2) for _ in range(40)])
fun("sqrt", sqrt, [10.0 ** rnd.uniform(-200, 200) for _ in range(40)])
fun("sin", sin, [rnd.uniform(-3.2, 3.2) for _ in range(60)] + [10.0 ** rnd.uniform(-9, 0) for _ in range(20)])
fun("cos", cos, [rnd.uniform(-3.2, 3.2) for _ in range(60)] + [10.0 ** rnd.uniform(-9, 0) for _ in range(20)])
fun("gamma", gamma, [rnd.uniform(0.001, 3) for _ in range(40)] + [rnd.uniform(1, 171) for _ in range(60)] + [2.0 ** -k for k in range(1, 53, 3)])
fun("ln_gamma", loggamma, [rnd.uniform(0.01, 3) for _ in range(20)] + [rnd.uniform(1, 1300) for _ in range(60)])

def rule(kind, n, a=0.0, b=0.0):
    A, B = mpf(a), mpf(b)
    M = matrix(n, n)
    for k in range(n):
        if kind == "hermite":
            d = mpf(0)
            mu0 = sqrt(pi)
        elif kind == "laguerre":
            d = 2 * k + 1 + A
            mu0 = gamma(1 + A)
        else:
            mu0 = exp((A + B + 1) * log(2) + loggamma(1 + A) + loggamma(1 + B) - loggamma(2 + A + B))
            s = 2 * k + A + B
            d = (B - A) / (A + B + 2) if k == 0 else (B * B - A * A) / (s * (s + 2))
        M[k, k] = d
        if k:
            if kind == "hermite":
                e = mpf(k) / 2
            elif kind == "laguerre":
                e = k * (k + A)
            elif k == 1:
                e = 4 * (1 + A) * (1 + B) / ((2 + A + B) ** 2 * (3 + A + B))
            else:
                s = 2 * k + A + B
                e = 4 * k * (k + A) * (k + B) * (k + A + B) / (s * s * (s + 1) * (s - 1))
            M[k, k - 1] = M[k - 1, k] = sqrt(e)
    E, Q = eigsy(M)
    order = sorted(range(n), key=lambda i: E[i])
    out["rules"].append({"kind": kind, "n": n, "a": a, "b": b,
                         "nodes": [pair(E[i]) for i in order], "weights": [pair(mu0 * Q[0, i] ** 2) for i in order]})
for n in (1, 2, 3, 8, 25, 60):
    rule("hermite", n)
for n, a in ((1, 0.5), (2, -0.999999), (9, 0.0), (14, 170.0), (30, -0.5), (50, 2.25)):
    rule("laguerre", n, a)
for n, a, b in ((1, 3.5, 600.0), (2, -0.5, 0.25), (5, 1.0, 0.0), (7, -0.999, -0.9), (12, -0.25, -0.75), (16, 600.0, 599.5),
                (20, 0.3, 120.0), (25, -0.5, -0.4999999), (31, 2.0, 2.0), (48, 0.25, -0.5)):
    rule("jacobi", n, a, b)

def legendre(n, k):
    # Newton iteration on the three-term recurrence
    x = cos(pi * (mpf(k) - mpf(1) / 4) / (n + mpf(1) / 2))
    for _ in range(8):
        p0, p1 = mpf(1), x
        for j in range(2, n + 1):
            p0, p1 = p1, ((2 * j - 1) * x * p1 - (j - 1) * p0) / j
        if n == 1:
            p0, p1 = mpf(1), x
        dp = n * (p0 - x * p1) / (1 - x * x)
        x -= p1 / dp
    out["legendre"].append({"n": n, "k": k, "node": pair(x), "weight": pair(2 / ((1 - x * x) * dp * dp))})
for n in (1, 2, 3, 7, 30, 100, 101, 250, 1000):
    for k in sorted({1, 2, (n + 1) // 2, max(1, n // 3), max(1, n // 20)}):
        if k <= (n + 1) // 2:
            legendre(n, k)
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "oracle.json"), "w") as f:
    json.dump(out, f)
print({k: len(v) for k, v in out.items()})

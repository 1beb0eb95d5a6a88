"""Reference semantics, written independently of the code under test; works on symbolic and on plain numbers."""
from fractions import Fraction
from math import comb, factorial
import itertools

def boson(h, amps, a, b, M, L):
    """apply a+ -> M00 a+ + M10 b+,  b+ -> M01 a+ + M11 b+ on channels a,b; components with n_a+n_b >= L pass"""
    out = {}
    def add(k, v): out[k] = out[k] + v if k in out else v
    for vals, amp in amps.items():
        n, m = vals[a], vals[b]
        if n + m >= L: add(vals, amp); continue
        # (M00 a+ + M10 b+)^n (M01 a+ + M11 b+)^m / sqrt(n! m!) |0>
        for i in range(n + 1):
            for j in range(m + 1):
                p, q = i + j, n + m - i - j
                c = comb(n, i) * comb(m, j)
                w = M[0][0] ** i * M[1][0] ** (n - i) * M[0][1] ** j * M[1][1] ** (m - j) * c
                f = Fraction(factorial(p) * factorial(q), factorial(n) * factorial(m))
                w = w * h.sqrt(f if h.sym else float(f))
                v = list(vals); v[a], v[b] = p, q
                add(tuple(v), amp * w)
    return out
def mm(A, B):
    return [[sum_([A[i][k] * B[k][j] for k in range(len(B))]) for j in range(len(B[0]))] for i in range(len(A))]
def sum_(xs):
    r = 0
    for x in xs: r = r + x
    return r
def rot(h, t):
    c, s = h.cos(t), h.sin(t)
    return [[c, -1 * s], [s, c]]
def wave_plate(h, theta, phi):
    R, Rm = rot(h, theta), rot(h, -1 * theta)
    # fast axis at angle theta: R(theta) . diag(1, e^{i phi}) . R(-theta)
    return mm(R, mm([[1, 0], [0, h.exp(h.I * phi)]], Rm))
def combos(L, n, N):
    return [v for v in itertools.product(range(L), repeat=n) if sum(v) <= N]

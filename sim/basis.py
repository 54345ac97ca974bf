"""Independent actuarial values of one mortality-and-interest basis (brute-force sums; no library code).

Force of mortality is constant within each year of age; after the tabulated years it stays at the last value.
"""
import math

WHOLE, VAR = -999, -2
N = 900                                                # years after which nobody is left (tail force >= 0.05)


class Basis:
    def __init__(self, b):
        self.x0, self.i = b["x0"], b["i"]
        self.mu = b["mu"]
        self.v = 1.0 / (1.0 + self.i)
        self.delta = math.log(1.0 + self.i)
        self.memo = {}

    def m(self, y):
        k = y - self.x0
        return self.mu[0] if k < 0 else self.mu[k] if k < len(self.mu) else self.mu[-1]

    def surv(self, x):
        """k_p_x for k = 0..N."""
        r = self.memo.get(x)
        if r is None:
            h, r = 0.0, [1.0]
            for k in range(N):
                h += self.m(x + k)
                r.append(math.exp(-h))
            self.memo[x] = r
        return r

    def p(self, x, t=1):
        return 0.0 if t < 0 else self.surv(x)[t]

    def q(self, x, t=1, u=0):
        s = self.surv(x)
        return s[u] - s[u + t]

    def E(self, x, t=1, endowment=1, moment=1):
        if moment == VAR:
            p = self.p(x, t)
            return (endowment * self.v ** t) ** 2 * p * (1 - p) if t >= 0 else 0.0
        return (endowment * self.v ** t) ** moment * self.p(x, t) if t >= 0 else 0.0

    def term(self, t):
        return N if t < 0 else t

    def A(self, x, t=WHOLE, u=0, b=1, endowment=0, moment=1, discrete=True):
        if moment == VAR:
            return self.A(x, t, u, b, endowment, 2, discrete) - self.A(x, t, u, b, endowment, 1, discrete) ** 2
        s, T = self.surv(x), self.term(t)
        out = 0.0
        for k in range(u, min(u + T, N)):
            q = s[k] - s[k + 1]
            if discrete:
                out += (b * self.v ** (k + 1)) ** moment * q
            else:
                mu, d = self.m(x + k), moment * self.delta
                out += b ** moment * math.exp(-d * k) * s[k] * mu / (mu + d) * -math.expm1(-(mu + d))
        if t >= 0 and endowment:
            out += (endowment * self.v ** (t + u)) ** moment * s[t + u]
        return out

    def a(self, x, t=WHOLE, u=0, b=1, discrete=True, variance=False):
        s, T = self.surv(x), self.term(t)
        if variance:
            # present value of an annuity of 1 for min(lifetime, T) years after u, by year (discrete) or within the year
            if u:
                raise ValueError
            if discrete:
                y, m1, m2 = 0.0, 0.0, 0.0
                for k in range(min(T, N)):
                    y += self.v ** k
                    q = s[k] - s[k + 1] if k + 1 < min(T, N) else s[k]
                    m1 += q * y
                    m2 += q * y * y
                return b * b * (m2 - m1 * m1)
            raise ValueError
        out = 0.0
        for k in range(u, min(u + T, N)):
            if discrete:
                out += self.v ** k * s[k]
            else:
                f = self.m(x + k) + self.delta
                out += self.v ** k * s[k] * -math.expm1(-f) / f
        return b * out

    def IA(self, x, t=WHOLE, b=1, discrete=True):
        s, T = self.surv(x), self.term(t)
        out = 0.0
        for k in range(min(T, N)):
            if discrete:
                out += (k + 1) * self.v ** (k + 1) * (s[k] - s[k + 1])
            else:                                      # integral of (k + r) v^(k+r) s(k) e^(-mu r) mu dr
                mu = self.m(x + k)
                f = mu + self.delta
                e0 = -math.expm1(-f) / f
                e1 = (e0 - math.exp(-f)) / f           # integral of r e^(-f r)
                out += self.v ** k * s[k] * mu * (k * e0 + e1)
        return b * out

    def DA(self, x, t, b=1, discrete=True):
        return (t + (1 if discrete else 0)) * self.A(x, t, 0, b, 0, 1, discrete) - self.IA(x, t, b, discrete)

    def Ia(self, x, t=WHOLE, b=1):
        s = self.surv(x)
        return b * sum((k + 1) * self.v ** k * s[k] for k in range(min(self.term(t), N)))

    def e(self, x, t=WHOLE, curtate=False, moment=1):
        s, T = self.surv(x), self.term(t)
        n = min(T, N)
        if curtate:
            return sum(s[k] for k in range(1, n + (1 if T < N else 0)) if k < len(s)) if moment == 1 else \
                sum((2 * k - 1) * s[k] for k in range(1, n + (1 if T < N else 0)) if k < len(s))
        out = 0.0
        for k in range(n):
            mu = self.m(x + k)
            e0 = -math.expm1(-mu) / mu
            e1 = (e0 - math.exp(-mu)) / mu
            out += s[k] * (e0 if moment == 1 else 2 * (k * e0 + e1))
        return out


def gen(rng):
    n = rng.choice([1, 3, 6])
    mu = [rng.choice([0.02, 0.05, 0.1, 0.3, 0.7]) * rng.choice([1, 1.2]) for _ in range(n)] + [rng.choice([0.06, 0.1, 0.25])]
    return dict(x0=50, mu=mu, i=rng.choice([0.0, 0.03, 0.05, 0.06, 0.1, 0.25]))


ARGS = dict(p=("t",), q=("t", "u"), E=("t", "endowment", "moment"), A=("t", "u", "b", "endowment", "moment", "discrete"),
            a=("t", "u", "b", "discrete", "variance"), IA=("t", "b", "discrete"), DA=("t", "b", "discrete"), e=("t", "curtate", "moment"))


def fact_value(basis, label, kw):
    """Value of the fact or question (label, kw), kw as given to the library (defaults not spelt out)."""
    x = kw["x"] + kw.get("s", 0)
    k = {n: kw[n] for n in ARGS[label] if n in kw}
    if k.get("endowment", 0) < 0:
        k["endowment"] = k.get("b", 1)
    if label == "DA" and k.get("t", -1) < 0:
        return None
    try:
        return getattr(basis, label)(x, **k)
    except ValueError:
        return None

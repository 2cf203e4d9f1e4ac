"""C17 executable contract: ExponentialRandomBackoff on concrete settings, draws and failure/success sequences."""
from common import *   # noqa
import katcp.inspecting_client as IC

RULE = 'grids and random settings x random draws (incl. 0 and the largest float below 1) x random failure/success sequences'
BOUNDS = 'sequences of up to 40 operations'
FUNCTIONS = ['inspecting_client.ExponentialRandomBackoff']
VALS = [0, 0.5, 1, 2., 3., 90., 1e6, -1, -0.1, 1.0000001]


def cases(h):
    r = h.rng
    for i in VALS[:7] + [-1]:
        for m in VALS[:8]:
            for f in (3., 1.5, 1, 0.5, -2, 1.0000001):
                for q in (0, 0.95, 1, 0.3, -0.1, 1.1):
                    yield 'seq', (i, m, f, q, [0.0, 0.999999999, 0.5], 'fffsfs')
    for k in range(h.n(1500, 60000)):
        i, m = r.choice([r.random() * 10, r.choice(VALS)]), r.choice([r.random() * 100, r.choice(VALS)])
        f, q = r.choice([1 + r.random() * 4, r.choice(VALS)]), r.choice([r.random(), r.choice(VALS)])
        yield 'seq', (i, m, f, q, [r.choice([0., 1 - 2. ** -53, r.random()]) for _ in range(7)],
                      ''.join(r.choice('fffs') for _ in range(r.randrange(0, 40))))


class Rnd(object):
    def __init__(self, draws):
        self.d, self.i = draws, 0

    def random(self):
        self.i += 1
        return self.d[self.i % len(self.d)]

    def uniform(self, a, b):
        return a + (b - a) * self.random()


def case_seq(h, p):
    i, m, f, q, draws, ops = p
    ok = 0 <= i <= m and 0 <= q <= 1 and f > 1
    old = IC.random
    IC.random = Rnd(draws)
    try:
        try:
            b = IC.ExponentialRandomBackoff(i, m, f, q)
        except (AssertionError, ValueError):
            h.check('only invalid settings are refused', not ok, p)
            return
        h.check('invalid settings are refused', ok, p)
        h.nontrivial(repr(p))
        step = i
        for k, op in enumerate(' ' + ops):
            if op == 'f':
                b.failed()
                step = min(step * f, m)
            elif op == 's':
                b.success()
                step = i
            d, e = b.delay, 1e-9 * (1 + step)
            h.check('delay within [0, max]', 0 <= d <= m, (p, k, d))
            h.check('delay at most the current step', d <= step + e, (p, k, d, step))
            h.check('delay at least the guaranteed fraction', d >= (1 - q) * step - e, (p, k, d, step))
            h.check('delay is stable between calls', b.delay == d, p)
    finally:
        IC.random = old


def from_witness(h, w):
    v = w['values']
    P = [v.get(n, 1.) for n in ('delay_initial', 'delay_max', 'exp_fac', 'randomicity')]
    P = [float(x) if isinstance(x, (int, float)) else 1. for x in P]
    for ops in ('', 'f', 'ff', 'fffff', 'fsf', 'ffffffs'):
        for d in ([0.], [.99999], [.5, .1]):
            yield 'seq', tuple(P) + (d, ops)
            yield 'seq', (1., 90., 3., .95, d, ops)

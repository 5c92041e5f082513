"""K01-K04: inertial propagation (spec/Propagator.tla)."""
import vcore

SRC = ('sequence_propagator.cpp', 'imu_state.cpp', 'frame_manager.cpp', 'feature_manager.cpp', 'data_typedef.cpp')
HURWITZ = [tuple(s * 2 if i == k else 0 for i in range(4)) for k in range(4) for s in (1, -1)] + \
          [(a, b, c, d) for a in (1, -1) for b in (1, -1) for c in (1, -1) for d in (1, -1)]
DIRS = [(a, b, c) for a in (2, -2) for b in (2, -2) for c in (2, -2)]


def exe():
    return vcore.build('propagator', SRC)


def mc(ctx):
    for cov, depth in (('FALSE', 5 if ctx.thorough else 4), ('TRUE', 3 if ctx.thorough else 2)):
        r = vcore.model_check('MCPropagator', ctx.work, ['UnitQ', 'Idempotent', 'Fresh', 'CovSound', 'OriginMoves'], dict(Depth=depth, Cov=cov))
        ctx.add(r)


def gen(ctx, depth, simulate):
    out, r = vcore.tlc_generate('GenPropagator', ctx.work, dict(Depth=depth), simulate=simulate, depth=depth + 1, seed=ctx.seed)
    ctx.add(r)
    return [('g%d_%d' % (depth, i), ops) for i, ops in enumerate(out)]


def v3(rng, k):
    return [rng.randint(-k, k) for _ in range(3)]


def small(rng):
    dt = rng.choice((5000, 5000, 4882, 2500, 10000, 1000, 100, 10, 20000, rng.randint(10, 20000)))
    w = min(9000, 1600000000 // (4 * dt) // 10)
    w = max(1, min(w, 8000000 // dt))
    if rng.random() < 0.25:
        dt, w = rng.choice((5000, 20000)), rng.choice((3, 10, 50))
    k = rng.choice((12000, 3000, 15000, 100))
    return ['small', rng.randint(0, 900000000), dt] + list(rng.choice(HURWITZ)) + v3(rng, k) + v3(rng, k) + v3(rng, w) + v3(rng, w) + v3(rng, 300) + v3(rng, min(w, 200))


class Hist:
    """Random history whose quantities stay exact; bookkeeping here only keeps it in that range."""
    def __init__(self, rng, cov, corrections):
        self.rng, self.cov, self.corr = rng, cov, corrections
        self.ext = rng.choice((1, 2, 2, 3, 5)) if cov else 1
        self.grav = rng.choice((0, 9, 10))
        self.noise = [rng.randint(0, 2) for _ in range(4)]
        u = rng.choice((0, 0, 3, 8, 10, 13))
        self.ops = [['win', rng.choice((0, 0, 1, 2, 4))], ['cfg', u, rng.choice((0, 1000, 1403636580)), int(cov), self.ext, self.grav] + self.noise + v3(rng, 30) + v3(rng, 20) + list(rng.choice(HURWITZ))]
        self.items = []       # (t, g)
        self.t = rng.randint(0, 50)
        self.dt = rng.choice((1, 2))
        self.d = rng.choice(DIRS)
        self.off = 0          # bias gyro is off * d / dt + b0
        self.b0 = [2 * x for x in v3(rng, 2)]
        self.bg = list(self.b0)
        self.ba = v3(rng, 3)
        self.par = [rng.randint(0, 1) for _ in range(3)]
        self.bnd = 0
        self.bndB = 0
        self.ops.append(['bias'] + self.ba + self.bg)
        self.amax = rng.choice((1, 2, 4)) if cov else 12

    def acc(self):
        return [2 * self.rng.randint(-self.amax, self.amax) // 1 + p + (self.grav // 2 * 2 if k == 2 and not self.cov else 0) for k, p in enumerate(self.par)]

    def growth(self, dt, a):
        return max(1 + dt, 1 + dt * 2 * a + dt, 1 + 4 + dt)

    def prop(self):
        rng = self.rng
        if self.corr:
            dt = self.dt
            r = rng.choice((0, 1))
            rate = [x // dt * (r - self.off) for x in self.d] if True else None
        else:
            dt = rng.choice((1, 1, 2, 0))
            rate = [x // max(dt, 1) for x in rng.choice(DIRS)] if rng.random() < 0.7 and dt else [0, 0, 0]
        a = self.acc()
        if not self.items:
            self.t += 1
            g = v3(rng, 5)
        else:
            g0 = self.items[-1][1]
            g = [2 * (rate[k] + self.bg[k]) - g0[k] for k in range(3)]
            if self.cov:
                G = self.growth(dt, self.amax * 2 + 1 + 3)
                nb = G * G * self.bnd + 16 * 3
                nB = G * self.bndB
                if nb > 6000000 or nB > 6000000:
                    return False
                self.bnd, self.bndB = nb, nB
            self.t += dt
        self.items.append((self.t, g))
        self.ops.append(['prop', self.t] + a + g)
        return True

    def setcov(self):
        rng = self.rng
        n = self.ext * 6 + rng.choice((6, 6, 12))
        lo = []
        for i in range(15):
            for j in range(i + 1):
                lo.append(rng.randint(1, 8) if i == j else rng.choice((0, 0, rng.randint(-4, 4))))
        op = ['setcov'] + lo + [n] + [rng.randint(-9, 9) for _ in range(15 * n)]
        C = [[rng.randint(-5, 5) for _ in range(n)] for _ in range(n)]
        for i in range(n):
            for j in range(i):
                C[i][j] = C[j][i]
        op += [x for r in C for x in r]
        self.ops.append(op)

    def over(self, steps):
        G = self.growth(2 if not self.corr else self.dt, self.amax * 2 + 4)
        b, B = 8, 9
        for _ in range(steps):
            b, B = G * G * b + 48, B * G
        return b > 6000000 or B > 6000000


def restart(h):
    h.ops.append(['clear'])
    h.items, h.bnd, h.bndB = [], 0, 0


def hist(rng, cov, mode):
    """mode: 'step' (integration), 'corr' (corrections and re-propagation), 'reset' (origin moves)"""
    h = Hist(rng, cov, mode == 'corr')
    n = rng.randint(5, 12) if cov else rng.randint(5, 30)
    for _ in range(n):
        c = rng.random()
        if cov and not h.items and c < 0.8:
            h.prop()
            if rng.random() < 0.7:
                h.setcov()
                h.bnd, h.bndB = 8, 9
        elif mode == 'corr' and h.items and c < 0.4:
            if rng.random() < 0.6:
                h.ops.append(['origin'] + v3(rng, 40) + v3(rng, 30) + list(rng.choice(HURWITZ)))
            if cov and rng.random() < 0.6 and not h.over(len(h.items) - 1):
                h.setcov()
            if rng.random() < 0.6:
                h.off = 1 - h.off
                h.bg = [h.b0[k] + h.off * (h.d[k] // h.dt) for k in range(3)]
                h.ba = [x + y for x, y in zip(h.ba, v3(rng, 1))]
                h.ba = [max(-3, min(3, x)) for x in h.ba]
                h.ops.append(['bias'] + h.ba + h.bg)
            if not cov or not h.over(len(h.items) - 1):
                h.ops.append(['repro'])
                if rng.random() < 0.3:
                    h.ops.append(['repro'])
            if cov:
                h.bnd = h.bndB = 10**9 if len(h.items) > 1 else 9
                if len(h.items) > 2 and rng.random() < 0.7:
                    restart(h)
        elif mode == 'reset' and (c < 0.35 or not h.items):
            d = rng.choice((0, 0, 1, 1, 2, 3, 5))
            t = (rng.choice(h.items)[0] if h.items else h.t) + rng.choice((d, d, -1, 0, 100 if rng.random() < 0.1 else d))
            h.ops.append(['reset', t, d])
            h.items = [x for i, x in enumerate(h.items) if any(t - y[0] <= d for y in h.items[:i + 1])]
            if not h.items:
                h.prop()
        elif c > 0.95:
            restart(h)
        elif not h.prop():
            restart(h)
    return h.ops


def long_hist(rng, mode, n):
    """hundreds of buffered samples, then corrections and moves of the origin"""
    h = Hist(rng, False, True)
    h.amax = 1
    h.grav = h.ops[1][5] = 0
    for _ in range(n):
        h.prop()
    flat = [o for o in h.ops if o[0] == 'prop']
    ops = [o for o in h.ops if o[0] != 'prop'] + [['burst'] + [x for o in flat for x in o[1:]]]
    ts = [o[1] for o in flat]
    for _ in range(2 if mode == 'reset' else 1):
        if mode != 'step' and rng.random() < 0.8:
            ops.append(['origin'] + v3(rng, 40) + v3(rng, 10) + list(rng.choice(HURWITZ)))
            ops.append(['repro'])
        if mode != 'step':
            i = rng.choice((0, 1, len(ts) // 2, len(ts) - 1, rng.randrange(len(ts))))
            d = rng.choice((0, 1, 3))
            ops.append(['reset', ts[i] + d, d])
            ts = [t for t in ts if t >= ts[i]]
    return ops


def hists(ctx, mode, n, ncov):
    k = 12 if ctx.thorough else 1
    sc = gen(ctx, 5 if ctx.thorough else 4, None)
    sc += gen(ctx, 20, (600 if ctx.thorough else 120))
    sc += [('%s%d' % (mode, i), hist(ctx.rng, False, mode)) for i in range(n * k)]
    sc += [('l%s%d' % (mode, i), long_hist(ctx.rng, mode, (70, 140, 300, 220)[i % 4])) for i in range(4 * k)]
    sc += [('c%s%d' % (mode, i), hist(ctx.rng, True, mode)) for i in range(ncov * k)]
    return sc


def run(mode, n, ncov, sm=0):
    def f(ctx):
        e = ctx.bg(exe)
        mc(ctx)
        sc = hists(ctx, mode, n, ncov)
        sc += [('sm%d' % i, [small(ctx.rng) for _ in range(20)]) for i in range(sm * (20 if ctx.thorough else 1))]
        ctx.conform('TracePropagator', e, sc)
    return f


check_K01 = run('step', 300, 0, 60)
check_K02 = run('step', 20, 160)
check_K03 = run('corr', 300, 120)
check_K04 = run('reset', 500, 60)

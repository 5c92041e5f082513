"""A01-A04: the attitude estimator (spec/Attitude.tla)."""
import math
import vcore

SRC = ('attitude_estimate.cpp', 'imu_state.cpp')
DIRS = [(a, b, c) for a in (2, -2) for b in (2, -2) for c in (2, -2)]


def exe():
    return vcore.build('attitude', SRC)


def mc(ctx):
    r = vcore.model_check('MCAttitude', ctx.work, ['Times', 'UnitQ', 'Trim', 'Lookup'], dict(Depth=6 if ctx.thorough else 4))
    ctx.add(r)


def gen(ctx, depth, simulate):
    out, r = vcore.tlc_generate('GenAttitude', ctx.work, dict(Depth=depth), simulate=simulate, depth=depth + 1, seed=ctx.seed)
    ctx.add(r)
    return [('g%d_%d' % (depth, i), ops) for i, ops in enumerate(out)]


# integer quaternions in half units, only to keep the generated samples inside the exact fragment
def qmul(a, b):
    w, x, y, z = a
    p, q, r, s = b
    return tuple(v // 2 for v in (w*p-x*q-y*r-z*s, w*q+x*p+y*s-z*r, w*r-x*s+y*p+z*q, w*s+x*r-y*q+z*p))


def up(q):
    w, x, y, z = q[0], -q[1], -q[2], -q[3]
    return [2 * (x * z + w * y) // 4, 2 * (y * z - w * x) // 4, (w * w - x * x - y * y + z * z) // 4]


def v3(rng, k):
    return [rng.randint(-k, k) for _ in range(3)]


def hist(rng, n, mode):
    grav = rng.choice((9, 10, 5))
    ba, bg = v3(rng, 3), [4 * x for x in v3(rng, 1)]
    ops = [['cfg', rng.choice((0, 3, 8)), rng.choice((0, 1000, 1403636580)), grav], ['bias'] + ba + bg]
    items, t = [], rng.randint(0, 10)
    for _ in range(n):
        c = rng.random()
        if not items or c < 0.5:
            if not items:
                if rng.random() < 0.3:
                    ops.append(['prop', t] + v3(rng, 2) + v3(rng, 5))       # not gravity: refused
                    while abs(math.sqrt(sum((x - y) ** 2 for x, y in zip(ops[-1][2:5], ba))) - grav) < 0.1:
                        ops[-1][2:5] = v3(rng, 2)
                g = v3(rng, 5)
                ops.append(['prop', t] + [ba[0], ba[1], ba[2] + grav] + g)
                items = [(t, g, (2, 0, 0, 0))]
            elif rng.random() < 0.12:
                ops.append(['prop', t - rng.randint(1, 5)] + v3(rng, 12) + v3(rng, 9))     # late: refused
            else:
                dt = rng.choice((1, 1, 2, 4, 0)) if mode != 'get' else rng.choice((1, 2, 4))
                d = rng.choice(DIRS) if dt and rng.random() < (0.7 if mode != 'get' else 1.0) else (0, 0, 0)
                t0, g0, q0 = items[-1]
                rate2 = [2 * x // max(dt, 1) for x in d]      # twice the rate
                g = [rate2[k] + 2 * bg[k] - g0[k] for k in range(3)]
                k = rng.choice((0, grav, 1, 3, 20))
                a = [x + k * y for x, y in zip(ba, up(q0))]
                q = q0 if d == (0, 0, 0) else qmul(q0, (1, d[0] // 2, d[1] // 2, d[2] // 2))
                t += dt
                ops.append(['prop', t] + a + g)
                items.append((t, g, q))
        elif c < (0.9 if mode == 'get' else 0.7 if mode == 'clean' else 0.58):
            b = rng.choice(items)[0] * 2
            ops.append(['get', b + rng.choice((-9, -3, -2, -1, 0, 0, 1, 1, 2, 2, 3, 4, 9)), rng.choice((0, 1, 1, 2, 2, 3, 4, 5, 8, 100))])
        elif c < (0.93 if mode == 'get' else 0.92 if mode == 'clean' else 0.62):
            b = rng.choice(items)[0] * 2
            h = rng.choice((0, 1, 2, 3, 5, 8))
            q = b + rng.choice((-3, 0, 0, 1, h, h, h + 1, h - 1, 50))
            ops.append(['clean', q, h])
            while items and q - 2 * items[0][0] > h:
                items.pop(0)
        elif mode == 'prop' and c > 0.95:
            # the biases change the way an update changes them: the angular rate of the buffered sample is corrected by the current one
            ba = v3(rng, 3)
            bg = [4 * x for x in v3(rng, 1)]
            ops.append(['bias'] + ba + bg)
    return ops


def long_hist(rng, mode, n):
    """hundreds of samples before anything is looked up or trimmed"""
    ops = hist(rng, 1, 'none')[:2]
    grav, ba, bg = ops[0][3], ops[1][1:4], ops[1][4:7]
    t, g, q = rng.randint(0, 10), v3(rng, 5), (2, 0, 0, 0)
    ops.append(['prop', t] + [ba[0], ba[1], ba[2] + grav] + g)
    ts, burst = [t], ['burst']
    for _ in range(n):
        dt = rng.choice((1, 2, 4))
        d = rng.choice(DIRS) if rng.random() < 0.6 else (0, 0, 0)
        a = [x + rng.choice((0, grav, 3)) * y for x, y in zip(ba, up(q))]
        g = [2 * x // dt + 2 * b - y for x, b, y in zip(d, bg, g)]
        if max(map(abs, g)) > 10000:
            break
        q = q if d == (0, 0, 0) else qmul(q, (1, d[0] // 2, d[1] // 2, d[2] // 2))
        t += dt
        burst += [t] + a + g
        ts.append(t)
    ops.append(burst)
    for _ in range(12):
        b = rng.choice(ts) * 2
        ops.append(['get', b + rng.choice((-9, -3, -1, 0, 1, 2, 3, 9)), rng.choice((0, 1, 2, 3, 4, 5, 8))])
        if mode != 'get' and rng.random() < 0.3:
            ops.append(['clean', rng.choice(ts) * 2 + rng.choice((-1, 0, 1, 3)), rng.choice((0, 1, 3, 100))])
    return ops


def settle(rng):
    dt = rng.choice((2000, 5000, 10000, 20000))
    n = int(rng.uniform(0.3, 0.8) / math.sqrt(dt * 1e-10))
    u = [rng.choice((-1, 1)) * rng.randint(0, 6000), rng.choice((-1, 1)) * rng.randint(500, 6000), rng.randint(3000, 9800)]
    rng.random() < 0.5 and u.insert(0, u.pop(1))
    return ['settle', n, dt, rng.choice((0, 7, 1403636580))] + u + v3(rng, 300) + v3(rng, 200)


def direction(rng):
    c = rng.random()
    if c < 0.15:
        d = [0, 0, rng.choice((1, -1))]
    elif c < 0.25:
        d = [rng.choice((1, -1, 0)), rng.choice((1, -1, 0)), rng.choice((0, 1, -1))]
    elif c < 0.5:      # close to level or to upside-down
        e = 10.0 ** rng.uniform(-4, -0.5)
        d = [rng.gauss(0, e), rng.gauss(0, e), rng.choice((1, -1))]
    else:
        d = [rng.gauss(0, 1) for _ in range(3)]
    n = math.sqrt(sum(x * x for x in d))
    return [x / n for x in d] if n > 0 else [0, 0, 1]


def inits(rng, n):
    ops = []
    for _ in range(n):
        g = rng.choice((9800, 9800, 9810, 9790, 1620, 5000))
        off = rng.choice((0, 0, 0, 0, rng.randint(-39, 39), 36, -36, 43, -43, 50, -60, rng.randint(-300, 300), -g))
        d = direction(rng)
        ba = [rng.randint(-400, 400) for _ in range(3)] if rng.random() < 0.6 else [0, 0, 0]
        u = [int(round(x * (g + off))) for x in d]
        ops.append(['init', g] + ba + [x + y for x, y in zip(u, ba)])
    return ops


def step(rng):
    dt = rng.choice((5000, 5000, 4882, 2500, 10000, 1000, 100, 20000, rng.randint(100, 20000)))
    w = max(1, min(8000000 // dt, 9000))
    if rng.random() < 0.3:
        dt, w = rng.choice((5000, 20000)), rng.choice((3, 10, 50))
    ba = v3(rng, 300)
    bg = v3(rng, min(w, 200))
    w0, w1 = v3(rng, w), v3(rng, w)
    c = rng.random()
    if c < 0.35:
        a = [0, 0, rng.choice((9800, 100, 0, 20000, 9000))]
    else:
        a = v3(rng, 12000)
    if c > 0.6:        # no turn: only the correction is left
        w1 = [2 * b - x for b, x in zip(bg, w0)]
        dt = rng.choice((1000000, 2000000, 500000, 5000))
    return ['step', rng.randint(0, 900000000), dt] + w0 + w1 + ba + bg + [x + y for x, y in zip(a, ba)]


def run(mode, n, ni=0, ns=0):
    def f(ctx):
        k = 15 if ctx.thorough else 1
        e = ctx.bg(exe)
        mc(ctx)
        sc = gen(ctx, 5 if ctx.thorough else 3, None)
        sc += gen(ctx, 25, 1000 if ctx.thorough else 150)
        sc += [('%s%d' % (mode, i), hist(ctx.rng, ctx.rng.randint(6, 40), mode)) for i in range(n * k)]
        sc += [('init%d' % i, inits(ctx.rng, 12)) for i in range(ni * k)]
        sc += [('step%d' % i, [step(ctx.rng) for _ in range(12)]) for i in range(ns * k)]
        sc += [('l%d' % i, long_hist(ctx.rng, mode, (70, 150, 300, 520, 300)[i % 5])) for i in range(5 * k)]
        if ns:
            sc += [('s%d' % i, [settle(ctx.rng) for _ in range(4)]) for i in range(6 * k)]
        ctx.conform('TraceAttitude', e, sc)
    return f


check_A01 = run('prop', 100, 250, 0)
check_A02 = run('prop', 500, 0, 250)
check_A03 = run('get', 500)
check_A04 = run('clean', 600)

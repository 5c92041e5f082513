"""G01-G04: triangulation and pose from points (spec/Geometry.tla)."""
import math
import vcore
from scene import HURWITZ, qmul

SRC = ('trianglation.cpp', 'perspective_n_point.cpp')


def exe():
    return vcore.build('geometry', SRC)


def mc(ctx):
    ctx.add(vcore.model_check('MCGeometry', ctx.work, ['Determined', 'FrameFree', 'NeverWorse', 'NeverRises'],
                              dict(R=2 if ctx.thorough else 1, Pts=8 if ctx.thorough else 4, Iters=5 if ctx.thorough else 3), properties=['Ends']))


def rotn(q):
    w, x, y, z = q
    return [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]


def incam(q, c, P):
    m, d = rotn(q), [P[i] - c[i] for i in range(3)]
    n = sum(a * a for a in q)
    return [sum(m[i][j] * d[i] for i in range(3)) / n for j in range(3)]


def rq(rng):
    if rng.random() < 0.3:
        return rng.choice(HURWITZ)
    return tuple(rng.randint(-5, 5) for _ in range(3)) + (rng.choice((-4, -3, -1, 1, 2, 5)),)


def view(rng, P, behind, span=30, lo=4.0):
    """A view of P: in the camera P has |z| >= lo units and lies within 60 degrees of the axis."""
    while True:
        q, c = rq(rng), [rng.randint(-span, span) for _ in range(3)]
        p = incam(q, c, P)
        if (p[2] < -lo if behind else p[2] > lo) and abs(p[0]) < 1.7 * abs(p[2]) and abs(p[1]) < 1.7 * abs(p[2]):
            return list(q) + c


def views(rng, P, sides, **kw):
    out = ['views']
    for b in sides:
        out += view(rng, P, b, **kw)
    return out


def tri_ops(rng, seqs):
    ops = []
    for sides in seqs:
        P = [rng.randint(-30, 30) for _ in range(3)]
        v = views(rng, P, sides, lo=rng.choice((4.0, 4.0, 1.2)))
        if rng.random() < 0.2:          # far from the origin of the world
            o = [rng.choice((-1, 1)) * rng.randint(0, 600) for _ in range(3)]
            P = [a + b for a, b in zip(P, o)]
            for k in range(len(sides)):
                for j in range(3):
                    v[7 * k + 5 + j] += o[j]
        ops.append(v)
        ops.append(['tri'] + P)
    return ops


def check_G01(ctx):
    e = ctx.bg(exe)
    rng = ctx.rng
    out, r = vcore.tlc_generate('GenGeometry', ctx.work, dict(Depth=2, MaxViews=3))
    ctx.add(r)
    sc = []
    for k in range(6 if ctx.thorough else 2):
        sc += [('g%d_%d' % (k, i), tri_ops(rng, [x['behind'] for x in o])) for i, o in enumerate(out)]
    for i in range(2500 if ctx.thorough else 300):
        seqs = []
        for _ in range(rng.randint(4, 10)):
            n = rng.choice((0, 1, 2, 2, 2, 3, 4, 6, 10, 16, 16, 30, 60))
            b = rng.random() < 0.4
            seqs.append([int(b and rng.random() < rng.choice((0.2, 0.6, 1))) for _ in range(n)])
            if n and rng.random() < 0.2:         # a single view from behind
                seqs[-1] = [0] * n
                seqs[-1][rng.randrange(n)] = 1
        sc.append(('r%d' % i, tri_ops(rng, seqs)))
    mc(ctx)
    ctx.conform('TraceGeometry', e, sc)


def iter_ops(rng):
    ops = []
    for _ in range(rng.randint(2, 5)):
        while True:
            P = [rng.randint(-25, 25) for _ in range(3)]
            if abs(P[2]) >= 4 and (rng.random() < 0.1 or 4 * abs(P[2]) >= abs(P[0]) + abs(P[1])):
                break
        ops.append(views(rng, P, [0] * rng.choice((1, 2, 2, 3, 4, 8, 20, 40))))
        for _ in range(rng.randint(1, 4)):
            k = rng.random()
            st = [16 * x for x in P]
            if k < 0.5:           # near
                d = sum(x * x for x in st) ** 0.5 / rng.choice((20, 10, 5.5))
                while True:
                    off = [rng.randint(-int(d) - 1, int(d) + 1) for _ in range(3)]
                    if sum(x * x for x in off) <= d * d * 0.9:
                        break
                st = [a + b for a, b in zip(st, off)]
            elif k < 0.8:         # anywhere
                st = [rng.randint(-400, 400) for _ in range(3)]
                st[2] = st[2] or 17
            ops.append(['iter'] + P + st + [rng.choice((0, 0, 50, 300, 3000)), rng.randint(0, 9999)])
    return ops


def check_G02(ctx):
    e = ctx.bg(exe)
    sc = [('r%d' % i, iter_ops(ctx.rng)) for i in range(6000 if ctx.thorough else 500)]
    mc(ctx)
    ctx.conform('TraceGeometry', e, sc)


def cloud(rng, q, c, n):
    """n points in front of the camera, in general position"""
    pts = []
    while len(pts) < n:
        P = [c[i] + rng.randint(-32, 32) for i in range(3)]
        p = incam(q, c, P)
        if p[2] > 6 and abs(p[0]) < 1.2 * p[2] and abs(p[1]) < 1.2 * p[2] and P not in pts:
            pts.append(P)
    return pts


def close(rng, q, c, pts):
    """replaces some points by ones close to the camera plane"""
    k, hi, wide = 0, *rng.choice(((0.4, 4), (0.4, 4), (1.5, 1.5)))
    for _ in range(4000):
        P = [c[i] + rng.randint(-4, 4) for i in range(3)]
        p = incam(q, c, P)
        if 0.1 < p[2] < hi and abs(p[0]) < wide * p[2] and abs(p[1]) < wide * p[2] and P not in pts:
            pts[rng.choice((0, 1, 2, rng.randrange(len(pts))))] = P
            k += 1
            if k == 3:
                break
    return pts


def flat(pts):
    return [x for p in pts for x in p]


def camera(rng):
    return list(rq(rng)), [rng.randint(-20, 20) for _ in range(3)]


def offset(rng, kind):
    if kind == 0:
        return [0] * 6
    dp, dt = rng.choice(((300, 100), (2000, 500), (5000, 1500)))
    return [rng.randint(-dp, dp) for _ in range(3)] + [rng.randint(-dt, dt) for _ in range(3)]


def pose_ops(rng):
    ops = []
    if rng.random() < 0.25:
        q, c = camera(rng)
        n = rng.choice((12, 20, 40))
        ops.append(['points'] + flat(close(rng, q, c, cloud(rng, q, c, n))))
        for v in (0, 1):
            ops.append(['solve', v] + q + c + [rng.randint(-30, 30) for _ in range(6)] + [0, 1, 0])
    for _ in range(rng.randint(1, 3)):
        q, c = camera(rng)
        n = rng.choice((10, 12, 20, 40, 40, 100, 250))
        ops.append(['points'] + flat(cloud(rng, q, c, n)))
        for _ in range(rng.randint(1, 3)):
            v, k = rng.randint(0, 1), rng.random()
            extra, noise = 0, rng.choice((0, 0, 0, 100, 400))
            if k < 0.1:
                extra = rng.choice((1, -1, 3, -n))
            ops.append(['solve', v] + q + c + offset(rng, rng.random() > 0.2) + [noise, rng.randint(0, 9999), extra])
        if rng.random() < 0.3:
            ops.append(['points'])
            for v in (0, 1):
                ops.append(['solve', v] + q + c + offset(rng, 1) + [0, 1, rng.choice((0, 0, 4))])
    return ops


def outlier_ops(rng):
    ops = []
    for _ in range(8):
        q, c = camera(rng)
        n = rng.choice((30, 40))
        ops.append(['points'] + flat(cloud(rng, q, c, n)))
        r, t = rng.uniform(2000, 5000), rng.uniform(0, 6.28)
        out = [rng.randrange(n), int(r * math.cos(t)), int(r * math.sin(t))]
        for v in (0, 1):
            ops.append(['solve', v] + q + c + [0] * 6 + [0, 1, 0] + out)
    return ops + [['tally']]


def check_G03(ctx):
    e = ctx.bg(exe)
    sc = [('o%d' % i, outlier_ops(ctx.rng)) for i in range(500 if ctx.thorough else 40)]
    sc += [('r%d' % i, pose_ops(ctx.rng)) for i in range(6000 if ctx.thorough else 500)]
    mc(ctx)
    ctx.conform('TraceGeometry', e, sc)


def sample_ops(rng):
    ops = []
    for _ in range(rng.randint(1, 3)):
        q, c = camera(rng)
        n = rng.choice((3, 4, 5, 10, 12, 15, 20, 25, 25, 60, 150))
        kind = rng.random()
        clean = kind < 0.5
        if clean:
            n = max(n, 10)
        ops.append(['points'] + flat(cloud(rng, q, c, n)))
        if rng.random() < 0.4:
            ops.append(['param', rng.choice((100, 10, 20, 400)), rng.choice((20, 30) if clean else (0, 1, 3, 20, 40)), rng.choice((900, 900, 500, 990, 800))])
        else:
            ops.append(['param', 100, 20, 900])
        for _ in range(rng.randint(1, 3)):
            outs = []
            m = rng.randint(0, n // 5) if clean else rng.randint(0, n)
            for i in rng.sample(range(n), m):
                outs += [i, rng.choice((-1, 1)) * rng.randint(150, 900), rng.choice((-1, 1)) * rng.randint(150, 900)]
            off = offset(rng, rng.random() > 0.2)
            if clean:
                off = [rng.randint(-300, 300) for _ in range(3)] + [rng.randint(-100, 100) for _ in range(3)]
            if not clean and rng.random() < 0.3:
                off = [rng.randint(-40000, 40000) for _ in range(3)] + [rng.randint(-15000, 15000) for _ in range(3)]
            noise = 0 if clean else rng.choice((0, 200, 1000, 3000))
            extra = rng.choice((1, -1, -n, 2)) if rng.random() < 0.1 else 0
            if extra < 0:
                outs = []
            ops.append(['solve', rng.choice((2, 3, 3))] + q + c + off + [noise, rng.randint(0, 9999), extra] + outs)
        if rng.random() < 0.3:
            k = rng.randint(0, 2)
            ops.append(['points'] + flat(cloud(rng, q, c, k)))
            ops.append(['solve', rng.choice((2, 3))] + q + c + offset(rng, 1) + [0, 3, rng.choice((0, 0, 3 - k))])
    return ops


def check_G04(ctx):
    e = ctx.bg(exe)
    sc = [('r%d' % i, sample_ops(ctx.rng)) for i in range(6000 if ctx.thorough else 500)]
    mc(ctx)
    ctx.conform('TraceGeometry', e, sc)

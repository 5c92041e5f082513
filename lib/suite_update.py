"""C01, C02, U01-U04: one image processed by the vision update (spec/Update.tla, spec/Covariance.tla)."""
import vcore
from scene import HURWITZ, Scene, origin, qmul, turn

SRC = ('multi_view_vision_update.cpp', 'sequence_propagator.cpp', 'imu_state.cpp', 'frame_manager.cpp', 'feature_manager.cpp',
       'data_typedef.cpp', 'trianglation.cpp', 'perspective_n_point.cpp')
NF = 24         # features followed through the images; the scene's further points are used once or lie behind the cameras


def exe():
    return vcore.build('update', SRC)


def mc(ctx):
    for k in (1, 2):
        ctx.add(vcore.model_check('MCCovariance', ctx.work, ['Refines', 'Symmetric', 'WindowAgrees', 'SourceAgrees'],
                                  dict(I=4, B=2, Cams=k, MaxFrames=3 + ctx.thorough, Depth=6 if ctx.thorough else 5)))
    for k in (1, 2) if ctx.thorough else (2,):
        ctx.add(vcore.model_check('MCUpdate', ctx.work, ['CertainRight', 'CertainStays', 'Agree', 'Tracks', 'WindowOk', 'NewestKept'],
                                  dict(Depth=7 if ctx.thorough else 5, Size=k), view='View'))


class Build:
    """Turns a history of image kinds into a scene; the bookkeeping only decides what can be observed."""
    def __init__(self, rng, win, cams):
        self.rng, self.win, self.cams = rng, win, cams
        self.nf = rng.choice((NF, NF, NF, NF, 40, 80))
        self.sc = Scene(rng, cams, self.nf + 40, rng.choice((0, 0, 20, 60)), rng.choice((1, 1, 1, 4)))
        self.fresh = self.nf
        self.ops = [['cfg', win, 0, 1000000], origin(rng), self.sc.ext_op(), self.sc.pts_op()]
        self.t = rng.randint(1, 40)
        self.w = []                 # per window frame: were the followed features seen in it (by every camera)?
        self.exact = False
        self.started = False        # have the followed features been seen?

    def observe(self, kind):
        rng, full = self.rng, (1 << self.cams) - 1
        e = []
        if kind == 0:
            v = rng.randint(0, 3)
            if v != 0:
                for _ in range(rng.randint(1, 6)):
                    c = rng.random()
                    if v == 1 or v == 3 and c < 0.4:      # seen once
                        if self.fresh < self.nf + 40:
                            e.append((self.fresh, 1 << rng.randrange(self.cams)))
                            self.fresh += 1
                    elif v == 2 or c < 0.8:               # behind every camera
                        e.append((self.sc.back + rng.randint(0, 7), full))
                    else:                                 # no measurement at all
                        e.append((rng.randrange(self.nf), 0))
            return False, e
        n = rng.choice((self.nf, 16, 12)) if kind == 1 else rng.choice((self.nf, 12, 8, 5, 3))
        solid = n if kind != 1 else 12
        for f in range(n):
            m = full if f < solid or rng.random() < 0.5 else rng.randint(0, full)
            if m:
                e.append((f, m))
        for _ in range(rng.choice((0, 0, 2))):
            e.append((self.sc.back + rng.randint(0, 7), full))
        if rng.random() < 0.3 and self.fresh < self.nf + 40:
            e.append((self.fresh, 1))
            self.fresh += 1
        rng.shuffle(e)
        seen, u = set(), []
        for x in e:
            if x[0] not in seen:
                seen.add(x[0])
                u.append(x)
        return n >= 12, u

    def image(self, kind, key, retag=True):
        rng, cams = self.rng, self.cams
        good = sum(1 for x in self.w if x)
        if kind == 1 and good < (2 if cams == 1 else 1):
            kind = 2
        if kind in (2, 3) and not self.started:
            kind = 0
        if kind == 1 and self.sc.k > 1:     # too far away for a sharp correction
            kind = 2
        self.t += rng.randint(1, 4)
        seen, e = self.observe(kind)
        if kind == 0 and not self.started and rng.random() < 0.9:    # seen once by one camera: the features' tracks begin
            seen, e = True, [(f, 1) for f in range(self.nf)]
        self.started = self.started or seen or kind != 0
        if kind == 2 and not (seen and good):
            kind = 4
        im = ['image', self.t] + self.sc.pose()
        for f, m in e:
            im += [f, m]
        self.ops.append(im)
        self.w.append(seen)
        self.ops.append(['state'] + [rng.randint(-20, 20) for _ in range(3)] + [rng.randint(-9, 9) for _ in range(6)])
        size = 15 + 6 * (cams + len(self.w) - 1)
        noise = 2000 // self.sc.k
        if kind in (0, 3):
            if retag or not self.exact:
                self.ops.append(['tag', rng.randint(0, 3000)])
            self.exact = True
            noise = -1 if kind == 3 else noise
        else:
            self.exact = False
            if kind == 1:
                self.wrong(size)
            else:
                self.ops.append(psd(rng, size))
        self.ops.append(['noise', noise, 100 if kind == 1 else rng.choice((100, 20, 6))])
        self.ops.append(['key', key])
        self.ops.append(['imu', rng.randint(0, 4), rng.choice((5, 2, 10))])
        dt = rng.choice((5, 2, 3))
        if rng.random() < 0.4:
            self.ops.append(['older', rng.randint(1, 3), dt])
        self.ops.append(['update', kind, rng.randint(0, dt - 1)])
        if len(self.w) > self.win:
            del self.w[0 if key else -2]

    def wrong(self, size):
        rng, cams = self.rng, self.cams
        f0 = 15 + 6 * cams
        cand = [0, 1, 2, 6, 7, 8]
        if len(self.w) > 1:
            cand += [i for i in range(f0, size) if self.w[(i - f0) // 6]] * 2
        if cams > 1:
            cand += list(range(15, f0))
        i = rng.choice(cand)
        u = {i: rng.choice((1, -1))}
        for _ in range(rng.choice((0, 0, 1, 3))):      # something else is wrong in proportion, and known to be
            u[rng.choice((3, 4, 5, 9, 10, 11, 12, 13, 14))] = rng.choice((1, -1, 2, -2))
        c, e = ['cov'], ['err']
        d = rng.choice((200, -200, 250, -150, 50, -50, 60, -40))
        for a in u:
            e += [a, d * u[a]]
            for b in u:
                if a <= b:
                    c += [a, b, 655 * u[a] * u[b]]
        self.ops += [c, e]


def psd(rng, size):
    k = rng.choice((3, 4, 8))
    m = rng.choice((12, 6, 3))
    A = [[rng.randint(-m, m) for _ in range(k)] for _ in range(size)]
    c = ['cov']
    for a in range(size):
        for b in range(a, size):
            c += [a, b, sum(x * y for x, y in zip(A[a], A[b])) + (40 if a == b else 0)]
    return c


def history(rng, win, cams, images, retag=None):
    b = Build(rng, win, cams)
    for kind, key in images:
        b.image(kind, key, retag=rng.random() < 0.5 if retag is None else retag)
    return b.ops


def generated(ctx, depth, n):
    out, r = vcore.tlc_generate('GenUpdate', ctx.work, dict(Depth=depth))
    ctx.add(r)
    if len(out) > n:
        out = ctx.rng.sample(out, n)
    return [('g%d_%d' % (depth, i), history(ctx.rng, o['win'], o['cams'], [(x['kind'], x['key']) for x in o['im']])) for i, o in enumerate(out)]


def randoms(ctx, n, kinds, lo=3, hi=7):
    rng, out = ctx.rng, []
    for i in range(n):
        win, cams = rng.randint(1, 4), rng.choice((1, 2, 2, 3))
        out.append(('r%d' % i, history(rng, win, cams, [(rng.choice(kinds) if k else 0, rng.randint(0, 1)) for k in range(rng.randint(lo, hi))])))
    return out


def bigs(ctx, n, kinds):
    """Longer windows than a handful of frames."""
    rng, out = ctx.rng, []
    for i in range(n):
        win, cams = rng.choice((6, 8, 10, 12, 16, 20)), rng.choice((1, 2, 2, 4, 6))
        out.append(('b%d' % i, history(rng, win, cams, [(rng.choice(kinds) if k > 3 else 0, rng.randint(0, 1)) for k in range(win + rng.randint(-1, 3))])))
    return out


def ladder(rng):
    """One scene, updated again and again with measurements of other weight or other features (kind 5), then with several
    independent wrong quantities (kind 6)."""
    cams, images = rng.choice((1, 2, 2, 3)), rng.choice((2, 2, 3, 3, 4, 4, 7))
    if rng.random() < 0.4:
        cams, images = max(2, cams), rng.randint(1, 3)
    sc = Scene(rng, cams, NF, rng.choice((0, 0, 20)), rng.choice((1, 1, 1, 4)))
    size = 15 + 6 * (cams + images - 1)
    poses = [sc.pose() for _ in range(images)]
    n, full, t0 = rng.choice((24, 16, 6)), (1 << cams) - 1, rng.randint(1, 40)
    masks = [[full if rng.random() < 0.7 else rng.randint(0, full) for _ in range(n)] for _ in range(images)]
    masks[-1] = [full] * n
    start = [rng.randint(0, images - 1) if images > 1 and rng.random() < 0.3 else 0 for _ in range(n)]
    for i in range(images):
        for f in range(n):
            if cams == 1 and i < 2:
                masks[i][f] = 1
            elif i >= start[f] and (i == start[f] or i == images - 1) and masks[i][f] == 0:
                masks[i][f] = full
    part = rng.choice((0, 0.3, 0.9))
    for f in range(n):
        if cams > 1 and start[f] < images - 1 and rng.random() < part:      # at last not by every camera
            masks[start[f]][f] = full
            masks[-1][f] = rng.randint(1, full)
    state = ['state'] + [rng.randint(-20, 20) for _ in range(3)] + [rng.randint(-9, 9) for _ in range(6)]
    ops = []

    turned = rng.choice(HURWITZ)

    def scene(which):
        """which: 1, 2: halves of the features; 4: every camera has a twin in the same place which sees the same; 8: three times
        as large; 16: cameras listed in reverse; 32: the world turned by a right angle or so."""
        ext, pts, big = sc.ext_op()[2:], sc.pts_op()[2:], 3 if which & 8 else 1
        cs = [ext[7 * c:7 * c + 7] for c in (range(cams)[::-1] if which & 16 else range(cams))]
        cs = [[big * x for x in c[:3]] + c[3:] for c in cs]
        go = lambda v: turn(turned, v) if which & 32 else v
        ps = [big * x for k in range(0, len(pts), 3) for x in go(pts[k:k + 3])]
        o = [['again'], ['cfg', 10, 0, 1000000], origin(rng), ['ext', len(cs) * (2 if which & 4 else 1)] + sum(cs, []) * (2 if which & 4 else 1), ['pts', len(ps) // 3] + ps]
        for i in range(images):
            q = poses[i][3:]
            im = ['image', t0 + 2 * i] + [big * x for x in go(poses[i][:3])] + list(qmul(turned, q) if which & 32 else q)
            for f in range(n):
                if (1 << f % 2) & which and (i >= start[f] or cams == 1):
                    m = masks[i][f]
                    if which & 16:
                        m = sum(1 << cams - 1 - c for c in range(cams) if m >> c & 1)
                    im += [f, m * ((1 << cams) + 1 if which & 4 else 1)]
            o.append(im)
        return o + [state]

    def place(a, which):
        """Where state a is found in such a scene, its sign and its unit."""
        if a >= 15:
            c, k = divmod(a - 15, 6)
            world = c >= cams
            if which & 16 and c < cams:
                c = cams - 1 - c
            if which & 4 and c >= cams:
                c += cams
            b = 15 + 6 * c
        else:
            world, b, k = a < 6, a - a % 3, a % 3
        sign, unit = 1, 3 if which & 8 and (a < 3 or a >= 15 and k < 3) else 1
        if which & 32 and world and k < 3:
            v = turn(turned, [int(x == k) * 4 for x in range(3)])
            k = [abs(x) for x in v].index(4)
            sign = v[k] // 4
        return b + k, sign * unit
    w = [0, 1, 2, 6, 7, 8] + list(range(15, size))
    u = {rng.choice(w if rng.random() < 0.4 else w[:6] + w[6 + 6 * cams:]): rng.choice((1, -1))}
    for _ in range(rng.choice((0, 0, 1, 3))):
        u[rng.choice(range(size))] = rng.choice((1, -1))
    d = rng.choice((4, -4, 6, -5))
    base = rng.choice((10000, 10000, 3000))
    rungs = [(k, 1, 3) for k in (1, 2, 4, 8, 16, 32, 64)]
    for k in rng.sample((2, 4, 8, 16, 32, 64), 2):
        rungs.append((k, 4, 3))
    for k in rng.sample((1, 2, 4, 8, 16, 32), 2):
        rungs += [(k, 1, 1), (k, 1, 2)]
    if not any(15 <= a < 15 + 6 * cams for a in u):
        rungs += [(k, 1, 7) for k in rng.sample((1, 2, 4, 8, 16, 32), 3)]
    rungs += [(k, 1, which) for which in (11, 19, 35, 59) for k in rng.sample((1, 2, 4, 8, 16, 32), 2)]
    for k, m, which in rungs:
        c, e = ['cov'], ['err']
        for a in sorted(u):
            x, s = place(a, which)
            e += [x, d * u[a] * s]
            for b in u:
                if a <= b:
                    y, z = place(b, which)
                    c += [x, y, 655 * m * u[a] * u[b] * s * z]
        ops += scene(which) + [c, e, ['noise', base * k, 100], ['key', 1], ['update', 5, 0, k, m, which]]
    for k in rng.sample((2, 4, 8, 16, 32), 3):
        c, e = ['cov'], ['err']
        for a in rng.sample(w, rng.randint(2, 3)):
            e += [a, rng.choice((4, -4, 6, -5))]
            c += [a, a, 655 * rng.choice((1, 4))]
        ops += scene(3) + [c, e, ['noise', 10000 * k, 100], ['key', 1], ['update', 6, 0]]
    return ops


def check_U05(ctx):
    e = ctx.bg(exe)
    sc = [('l%d' % i, ladder(ctx.rng)) for i in range(900 if ctx.thorough else 120)]
    ctx.add(vcore.model_check('MCWeigh', ctx.work, ['Adds', 'Together', 'Falls', 'Positive'],
                              dict(Features=3, MaxG=3 if ctx.thorough else 2, MaxNoise=3)))
    ctx.conform('TraceUpdate', e, sc)


def run(kinds, n, ngen):
    def f(ctx):
        k = 12 if ctx.thorough else 1
        e = ctx.bg(exe)
        sc = generated(ctx, 5 if ctx.thorough else 4, ngen * k)
        sc += randoms(ctx, n * k, kinds)
        sc += bigs(ctx, 12 * k, kinds)
        mc(ctx)
        for i in range(0, len(sc), 800):
            ok, _ = ctx.conform('TraceUpdate', e, sc[i:i + 800])
            if not ok:
                break
    return f


check_C01 = run((0, 0, 3, 2), 120, 150)
check_C02 = run((0, 0, 3, 3, 2), 120, 150)
check_U01 = run((1, 1, 1, 2), 150, 100)
check_U02 = run((2, 2, 1), 150, 100)
check_U03 = run((1, 1, 2, 0), 150, 100)
check_U04 = run((0, 0, 2, 1), 150, 100)

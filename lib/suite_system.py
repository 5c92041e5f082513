"""S01-S04, W06, C03: the whole estimator, message by message (spec/System.tla)."""
import os
import vcore
from scene import HURWITZ, origin, qmul, turn

KINDS = ['full', 'edge', 'under', 'asym', 'mono', 'none', 'behind']
PRES = ['none', 'outage', 'late', 'reset']
INV = ['WindowBound', 'NewestIn', 'NeedKeepsOne', 'Increasing', 'Buffered', 'Silent', 'Forward', 'Becomes', 'Recovers', 'FailureNeedsGap', 'History', 'Recorded']
NF = 24


def exe():
    return vcore.build('system', tuple(os.path.basename(s) for s in vcore.all_sources()))


def mc(ctx):
    for d, k in ((8, 2), (9, 1), (9, 3)) if ctx.thorough else ((6, 2), (7, 1), (7, 3)):
        ctx.add(vcore.model_check('MCSystem', ctx.work, INV, dict(Depth=d, Size=k)))


class Run:
    """Turns a history of image kinds into a motion, points and a stream of messages."""
    def __init__(self, rng, mode='exact', twin=False, cams=None, win=None, freq=None, length=8):
        self.rng = rng
        self.nf = rng.choice((NF, NF, NF, NF, 60))
        self.cams = cams or rng.choice((2, 2, 2, 3))
        self.freq = freq or (rng.choice((50, 100)) if mode == 'exact' else 200)
        self.per = 1000000 // self.freq
        win = win or rng.choice((2, 3, 3, 4, 5, 8))
        key = rng.choice(((1000, 4000), (0, 4000), (12, 4000), (12, 1), (0, 1)))
        bias = [rng.randint(-30, 30) for _ in range(3)] + [rng.randint(-60, 60) for _ in range(3)]
        if not twin and rng.random() < 0.4:
            bias = [0] * 6
        self.ops = [['cfg', win, key[0], key[1], self.freq] + bias + [int(twin)], origin(rng)]
        while True:
            R0, rc = rng.choice(HURWITZ), rng.choice(HURWITZ)
            # camera looks along rc * z of the body; body orientation such that the camera looks along R0 * z
            q0 = qmul(R0, (rc[0], -rc[1], -rc[2], -rc[3]))
            q0 = qmul(q0, (40, rng.randint(-9, 9), rng.randint(-9, 9), rng.randint(-9, 9)))
            n2 = sum(x * x for x in q0)
            up = 1 - 2 * (q0[1] ** 2 + q0[2] ** 2) / n2          # body z against the vertical
            if up > -0.8:
                break
        span = max(1, length // 8)
        v = [rng.choice((-1, 1)) * rng.randint(2, 8) for _ in range(3)]
        w = [rng.randint(-6, 6) for _ in range(3)]
        if span > 1:
            v, w = [x / 2 for x in v], [x / (2 * span) for x in w]
            v, w = [int(x) for x in v], [int(x) for x in w]
        amp, om, na, nv = [0, 0, 0], 0, 0, 0
        if mode != 'exact':
            amp = [rng.randint(-16, 16) for _ in range(3)]
            om = rng.randint(4, 12)
            v = [x // 4 for x in v]
            if mode == 'noise':
                na, nv = rng.choice((0, 5, 20)), rng.choice((0, 5, 20))
        self.ops.append(['traj'] + list(q0) + v + w + amp + [om, na, nv])
        self.ext = []
        for c in range(self.cams):
            p = [rng.randint(-3, 3) for _ in range(3)]
            if c:
                p = [self.ext[0][0] + rng.choice((-6, 6, 5, -5)) * c, self.ext[0][1] + rng.choice((-4, 4, 5)), rng.randint(-3, 3)]
            self.ext.append(p + list(qmul(rc, (40, rng.randint(-2, 2), rng.randint(-2, 2), rng.randint(-4, 4)))))
        self.ops.append(['ext', self.cams] + [x for e in self.ext for x in e])
        pts = [turn(R0, [rng.randint(-16, 16), rng.randint(-16, 16), rng.randint(36, 60)]) for _ in range(self.nf)]
        pts += [turn(R0, [rng.randint(-16, 16), rng.randint(-16, 16), -rng.randint(36, 60)]) for _ in range(14)]
        self.ops.append(['pts', len(pts)] + [x for p in pts for x in p])
        self.now = rng.randint(1, 50) * 1000     # time of the next inertial sample
        self.uneven = rng.random() < 0.3         # some samples follow closely
        self.sent = 0                            # messages pushed, not yet run
        self.style = rng.choice(('lock', 'lock', 'batch', 'batch', 'batch', 'flood'))

    def imu(self, t, k=0):
        self.ops.append(['imu', t, k])
        self.sent += 1
        if self.style == 'lock':
            self.flush()

    def flush(self, extra=0):
        self.ops += [['run']] * (self.sent + extra)
        self.sent = 0

    def samples(self, n):
        for _ in range(n):
            self.imu(self.now)
            self.now += self.per * (self.rng.choice((1, 2, 4, 6, 9)) if self.uneven and self.rng.random() < 0.2 else 10) // 10

    def lead(self):
        rng = self.rng
        if rng.random() < 0.3:                   # samples that cannot start the attitude
            for _ in range(rng.randint(1, 4)):
                self.imu(self.now, rng.choice((2, -2, 5, -50)))
                self.now += self.per
        self.samples(rng.choice((0, 1, 3, 8)))

    def entries(self, kind):
        rng, full = self.rng, (1 << self.cams) - 1
        some = rng.sample(range(self.nf), self.nf)
        if kind == 'full':
            n = rng.choice((self.nf, self.nf, 14))
            e = [(f, full) for f in range(n)]
        elif kind == 'edge':
            e = [(f, full) for f in range(10)]
        elif kind == 'under':
            e = [(f, full) for f in range(9)]
        elif kind == 'asym':      # enough as the first of a pair or as the second, not both
            e = [(f, full) for f in range(9)]
            one = rng.choice((1, 2))       # 1: only camera 0 (no depth), 2: not camera 0 (three cameras: depth, but no pose)
            e += [(f, 1 if one == 1 else full & ~1) for f in range(9, 9 + rng.randint(1, 5))]
        elif kind == 'mono':
            e = [(f, 1 << rng.randrange(self.cams)) for f in range(self.nf)]
        elif kind == 'behind':
            e = [(f, full) for f in range(9)] + [(self.nf + k, full) for k in range(rng.randint(1, 14))]
        else:
            e = []
        if rng.random() < 0.3:
            rng.shuffle(e)
        if rng.random() < 0.15 and e:            # listed twice: the first entry counts
            e.append((rng.choice(e)[0], full))
        if rng.random() < 0.15:
            e.append((self.nf + rng.randint(0, 13), 0))
        return [x for p in e for x in p]

    def image(self, kind, pre, gap=None):
        rng, per = self.rng, self.per
        if pre == 'reset':
            if rng.random() < 0.1:       # long without an image
                self.samples(70)
            self.flush()
            self.ops.append(['reset'])
        n = gap or rng.choice((2, 3, 4, 5) if rng.random() < 0.98 else (15, 30))
        self.samples(n)
        part = rng.choice((0, 0, 10, 30, 45, 65, 80, 95))
        if pre == 'outage':          # the last sample is more than a period older, the next one comes after the image was processed
            self.flush()
            t = self.now - per + per * rng.randint(12, 40) // 10 + 7
            self.ops.append(['img', t] + self.entries(kind))
            self.sent += 1
            self.flush()
            self.now = t + per * rng.choice((1, 3, 4, 7, 8, 9, 12)) // 10 + 11
            return
        if pre == 'late':            # as before, but a sample just after the image arrives in time
            t = self.now - per + per * rng.randint(12, 60) // 10 + 7
            nxt = t + per * rng.choice((1, 3, 4, 7, 8, 9, 12)) // 10 + 11
            self.flush()
            self.ops.append(['img', t] + self.entries(kind))
            self.sent += 1
            self.imu(nxt)
            self.flush()
            self.now = nxt + per
            return
        t = self.now - per + per * part // 100
        ahead = rng.random() < 0.7
        if ahead and self.style != 'lock':
            self.imu(self.now)
            self.now += per
            self.ops.append(['img', t] + self.entries(kind))
            self.sent += 1
        else:
            self.ops.append(['img', t] + self.entries(kind))
            self.sent += 1
            if ahead:
                self.ops.append(['imu', self.now, 0])
                self.sent += 1
                self.now += per
        if self.style == 'lock' or rng.random() < (0.8 if self.style == 'batch' else 0.08):
            self.flush(rng.choice((0, 0, 1)))

    def play(self, history):
        self.lead()
        for kind, pre in history:
            self.image(kind, pre)
        self.samples(self.rng.randint(0, 3))
        self.flush(1)
        return self.ops


def generated(ctx, depth, kinds, pres, n, **kw):
    q = lambda v: '{' + ', '.join('"%s"' % k for k in v) + '}'
    out, r = vcore.tlc_generate('GenSystem', ctx.work, dict(Depth=depth, Kinds=q(kinds), Pres=q(pres)))
    ctx.add(r)
    if len(out) > n:
        out = ctx.rng.sample(out, n)
    return [('g%d_%d' % (depth, i), Run(ctx.rng, **kw).play([(h['kind'], h['pre']) for h in o])) for i, o in enumerate(out)]


def randoms(ctx, n, lo, hi, good=0.7, calm=0.7, tag='r', kinds=KINDS, pres=PRES, **kw):
    rng, out = ctx.rng, []
    for i in range(n):
        k = rng.randint(lo, hi)
        h = [('full' if rng.random() < good else rng.choice(kinds), 'none' if j == 0 or rng.random() < calm else rng.choice(pres)) for j in range(k)]
        out.append(('%s%d' % (tag, i), Run(rng, length=k, **kw).play(h)))
    return out


def restarts(ctx, n, **kw):
    """Started again and again."""
    rng, out = ctx.rng, []
    for i in range(n):
        h = []
        for _ in range(rng.randint(4, 7)):
            h += [('full', 'none')] * rng.randint(2, 4) + [('full', 'reset')]
        h += [('full', 'none')] * 3
        out.append(('z%d' % i, Run(rng, length=len(h), **kw).play(h)))
    return out


def judge(ctx, e, sc):
    for i in range(0, len(sc), 400):
        ok, _ = ctx.conform('TraceSystem', e, sc[i:i + 400])
        if not ok:
            break


def check_S01(ctx):
    k = 12 if ctx.thorough else 2
    e = ctx.bg(exe)
    sc = generated(ctx, 3, KINDS, PRES[:1], 130 * k)
    sc += randoms(ctx, 50 * k, 2, 5, good=0.4)
    sc += randoms(ctx, 15 * k, 2, 5, tag='w', mode='sway', good=0.7)
    mc(ctx)
    judge(ctx, e, sc)


def check_S02(ctx):
    k = 12 if ctx.thorough else 2
    e = ctx.bg(exe)
    sc = generated(ctx, 4, ['full', 'under', 'none'], PRES, 110 * k)
    sc += randoms(ctx, 60 * k, 5, 9, good=0.85, calm=0.6)
    sc += randoms(ctx, 20 * k, 5, 9, tag='w', mode='sway', good=0.9, calm=0.6)
    sc += restarts(ctx, 4 * k)
    mc(ctx)
    judge(ctx, e, sc)


def check_S03(ctx):
    k = 12 if ctx.thorough else 2
    e = ctx.bg(exe)
    sc = generated(ctx, 4, ['full', 'edge', 'none'], PRES[:3], 80 * k)
    sc += randoms(ctx, 70 * k, 4, 9, good=0.8, calm=0.8)
    sc += randoms(ctx, 20 * k, 5, 8, tag='w', mode='sway', good=0.9, calm=0.9)
    sc += randoms(ctx, 2 * k, 25, 40, tag='l', win=ctx.rng.choice((7, 10)), good=0.9, calm=0.97)
    mc(ctx)
    judge(ctx, e, sc)


def check_S04(ctx):
    k = 12 if ctx.thorough else 2
    e = ctx.bg(exe)
    sc = randoms(ctx, 100 * k, 4, 9, good=0.85, calm=0.85, twin=True)
    sc += restarts(ctx, 3 * k, twin=True)
    mc(ctx)
    judge(ctx, e, sc)


def check_S05(ctx):
    k = 12 if ctx.thorough else 2
    e = ctx.bg(exe)
    sc = generated(ctx, 4, ['full', 'under', 'none'], PRES, 90 * k)
    sc += randoms(ctx, 60 * k, 4, 9, good=0.8, calm=0.7)
    sc += randoms(ctx, 2 * k, 25, 40, tag='l', win=ctx.rng.choice((7, 10)), good=0.9, calm=0.9)
    mc(ctx)
    judge(ctx, e, sc)


class Twins(Run):
    """The same messages for several estimators: 0 in order of time, 1 by another schedule, 2 in order after an
    estimator with other messages and a reset has been used in between."""
    def schedule(self, sched, kinds):
        rng, per = self.rng, self.per
        order = rng.sample(range(4), 4)                          # who is set up first
        self.ops += [['new', int(n == 3)] for n in order]
        head = len(self.ops)
        t, imus, imgs = self.now, [], []
        for _ in range(rng.choice((0, 1, 3))):
            imus.append(['imu', t, rng.choice((0, 0, 2, -50))])
            t += per
        for kind in kinds:
            for _ in range(rng.choice((2, 3, 4, 5))):
                imus.append(['imu', t, 0])
                t += per * (rng.choice((1, 2, 4, 6, 9)) if self.uneven and rng.random() < 0.2 else 10) // 10
            part = rng.choice((0, 10, 30, 45, 55, 65, 80, 95))
            imgs.append(['img', t - per + per * part // 100] + self.entries(kind))
        for _ in range(rng.choice((1, 4))):
            imus.append(['imu', t, 0])
            t += per
        one = sorted(imus + imgs, key=lambda m: (m[1], m[0] == 'img'))

        def feed(n, msgs, steps=0):
            for m in msgs:
                self.ops.append([m[0], n] + m[1:])
            self.ops.extend([['step', n] for _ in range(steps or len(msgs))])
        # in order, one by one; now and then the other estimator takes a step
        other = [list(m) for m in one if rng.random() < 0.9]
        for m in other:
            if m[0] == 'img' and rng.random() < 0.5:
                m[2:] = self.entries(rng.choice(KINDS))
        for i, m in enumerate(one):
            feed(0, [m])
            feed(3, other[i:i + 1], 1)
        if rng.random() < 0.5:
            self.ops.append(['reset', 3])
        # images late
        pend, sent, wait = [], 0, 0
        for m in one:
            if m[0] == 'imu':
                pend = [[p[0] - 1, p[1], p[2]] for p in pend]
                self.ops.append(['imu', 1] + m[1:])
                sent += 1
            else:
                s = sched[len(imgs) - len([x for x in imgs if x[1] >= m[1]])]
                pend.append([s['lag'], m, s['now']])
            while pend and pend[0][0] <= 0:
                lag, im, now = pend.pop(0)
                if im is not m:               # what was sent before the image is through when it comes
                    self.ops.extend([['step', 1] for _ in range(sent)])
                    sent = 0
                self.ops.append(['img', 1] + im[1:])
                sent += 1
                wait = not now
                if now:
                    self.ops.extend([['step', 1] for _ in range(sent)])
                    sent = 0
            if not wait and not pend and rng.random() < 0.5:
                self.ops.extend([['step', 1] for _ in range(sent)])
                sent = 0
        self.ops.extend([['step', 1] for _ in range(sent)])
        for lag, im, now in pend:
            feed(1, [im])
        # all at once
        for m in one:
            self.ops.append([m[0], 2] + m[1:])
        self.ops.extend([['step', 2] for _ in range(len(one) + 1)])
        self.ops += [['cmp', 0, 1], ['cmp', 0, 2]]
        for o in self.ops[head:]:
            o[1] = order.index(o[1])
            if o[0] == 'cmp':
                o[2] = order.index(o[2])
        return self.ops


def check_S06(ctx):
    k = 12 if ctx.thorough else 2
    e = ctx.bg(lambda: vcore.build('twins', tuple(os.path.basename(s) for s in vcore.all_sources())))
    for n, m, z in ((9, 4, 2), (9, 4, 3)) if ctx.thorough else ((7, 3, 2), (7, 3, 3)):
        ctx.add(vcore.model_check('MCSchedule', ctx.work, ['SameInTheEnd', 'NeverFails'], dict(Samples=n, Images=m, Size=z)))
    out, r = vcore.tlc_generate('GenSchedule', ctx.work, dict(Depth=4, Lags='{0, 1, 4, 25}'))
    ctx.add(r)
    sc = []
    for i, o in enumerate(ctx.rng.sample(out, min(len(out), 120 * k))):
        o = o + ctx.rng.choice(out)
        n = ctx.rng.choice((4, 6, 8))
        kinds = ['full' if ctx.rng.random() < 0.85 else ctx.rng.choice(KINDS) for _ in range(n)]
        sc.append(('t%d' % i, Twins(ctx.rng, mode=ctx.rng.choice(('exact', 'exact', 'noise')), length=n).schedule(o, kinds)))
    worst = {}
    for i in range(0, len(sc), 400):
        ok, traces = ctx.conform('TraceSchedule', e, sc[i:i + 400])
        for t in traces:
            for ev in t['ev']:
                if ev['op'] == 'cmp':
                    worst['compared'] = worst.get('compared', 0) + 1
                    worst['compared_initialised'] = worst.get('compared_initialised', 0) + bool(ev['o']['init'] and ev['o']['st'])
                    for q in ('d', 'cov', 'bias', 'att'):
                        worst[q] = max(worst.get(q, 0), ev['o'][q])
        if not ok:
            break
    ctx.note(comparisons=worst)


def check_W06(ctx):
    k = 12 if ctx.thorough else 2
    e = ctx.bg(exe)
    sc = generated(ctx, 4, ['full', 'mono', 'none', 'asym'], PRES[:1], 80 * k)
    sc += randoms(ctx, 90 * k, 5, 10, good=0.6, calm=0.85)
    sc += randoms(ctx, 2 * k, 25, 40, tag='l', win=ctx.rng.choice((7, 10)), good=0.8, calm=0.97)
    mc(ctx)
    judge(ctx, e, sc)


def check_C03(ctx):
    k = 12 if ctx.thorough else 2
    e = ctx.bg(exe)
    sc = randoms(ctx, 50 * k, 5, 10, good=0.85, calm=0.9)
    sc += randoms(ctx, 40 * k, 6, 14, tag='n', mode='noise', good=0.9, calm=0.95)
    sc += randoms(ctx, 2 * k, 25, 40, tag='l', mode='noise', win=ctx.rng.choice((7, 10)), good=0.9, calm=0.97)
    mc(ctx)
    judge(ctx, e, sc)

"""D01-D04: the input buffer (spec/Loader.tla)."""
import vcore

SRC = ('data_loader.cpp', 'data_typedef.cpp')
P = 10486   # default inertial period in ticks (about 5 ms)


def exe():
    return vcore.build('loader', SRC)


def mc(ctx, packed):
    t = '{0,1,2,4}' if not packed else '{0,1,3,6,7}'
    ops = (7 if ctx.thorough else 5)
    if not packed:
        ops += 1
    r = vcore.model_check('MCLoader', ctx.work, ['Admission', 'Delivery', 'Packets'],
                          dict(T=t, Ops=ops, Packed='TRUE' if packed else 'FALSE'))
    ctx.add(r)
    ctx.note(spec_model=dict(module='MCLoader', states=r.distinct, depth=ops, times=t, exhaustive=True))


def gen(ctx, packed, k, depth, times, simulate):
    out, r = vcore.tlc_generate('GenLoader', ctx.work, dict(T=times, Depth=depth, K=k, Packed='TRUE' if packed else 'FALSE'),
                                simulate=simulate, depth=depth + 1, seed=ctx.seed)
    ctx.add(r)
    return [('g%d' % i, ops) for i, ops in enumerate(out)]


def vals(rng):
    return [rng.randint(-20, 20) for _ in range(6)]


def rand_one(rng, n, late, packed, insts=1, clears=False, malformed=False, period=None):
    """A random history: streams advance on a grid with jitter; pushes and pops interleave."""
    ops = []
    if rng.random() < 0.3:
        ops.append(['base', 0, rng.choice((1000, 86400, 1403636579, 1700000000, 2147000000, -1000, -100000))])
    gaps, wide = rng.random() < 0.15, rng.random() < 0.1
    per = period or P
    for k in range(insts):
        if per != P:
            ops.append(['period', k, per])
    tf = [rng.randint(0, 40) * per // 4 for _ in range(insts)]
    ti = [rng.randint(0, 40) * per // 4 for _ in range(insts)]
    fid = 1
    pop = 'ppop' if packed else 'pop'
    w = [rng.choice((1, 2, 3)), rng.choice((2, 4, 8)), rng.choice((2, 4, 6))]
    for _ in range(n):
        k = rng.randrange(insts)
        c = rng.choices('fipc', w + [0.4 if clears else 0])[0]
        if c == 'f':
            t = tf[k] + rng.choice((1, 2, 3, per // 2, per - 1, per, per + 1, 2 * per, 3 * per, 5 * per))
            if rng.random() < 0.25:   # close to an inertial time
                t2 = ti[k] + rng.choice((-3, -2, -1, 0, 0, 1, 2, 3, per - 1, per, per + 1))
                if t2 > tf[k]:
                    t = t2
            if late and rng.random() < 0.4:
                t = tf[k] - rng.choice((0, 0, 1, per, 7 * per))
            if gaps and rng.random() < 0.2:
                t += rng.choice((40, 100, 250, 1000)) * per
            if wide:
                ids = rng.sample(range(1 << 31), rng.choice((0, 1, 5, 40, 150)))
            else:
                ids = [fid * 10 + j for j in range(rng.randint(0, 3))]
            fid += 1
            nobs = len(ids)
            if malformed and rng.random() < 0.35:
                nobs = rng.choice([x for x in range(0, 5) if x != nobs])
            ops.append(['pf', k, t, len(ids)] + ids + [nobs])
            if nobs == len(ids):
                tf[k] = max(tf[k], t)
        elif c == 'i':
            t = ti[k] + rng.choice((1, 2, 3, per // 2, per, per, per, per + 1, per * 3 // 2))
            if gaps and rng.random() < 0.1:
                t += rng.choice((40, 100, 250, 1000)) * per
            if late and rng.random() < 0.35:
                t = ti[k] - rng.choice((0, 0, 1, per, 6 * per))
            ops.append(['pi', k, t] + vals(rng))
            ti[k] = max(ti[k], t)
        elif c == 'p':
            ops.append([pop, k, rng.choice((0, 0, 0, 1, 2, 3))])
        else:
            ops.append(['clear', k])
            if rng.random() < 0.7:
                tf[k] = rng.randint(0, 10) * per // 2
                ti[k] = rng.randint(0, 10) * per // 2
    for k in range(insts):
        for _ in range(12):
            ops.append([pop, k, 0])
    return ops


def rand(ctx, n, length, **kw):
    return [('r%d' % i, rand_one(ctx.rng, ctx.rng.randint(length // 3, length), **kw)) for i in range(n)]


def fixed_rate(rng, n, fp, ip, off, packed):
    """regular camera and inertial streams with an offset, pushed in bursts"""
    ev = sorted([(off + j * fp, 0) for j in range(n)] + [(j * ip, 1) for j in range(n * fp // ip + 2)])
    if rng.random() < 0.5:   # delivery jitter between the streams, each stream stays in order
        f = [e for e in ev if e[1] == 0]
        i = [e for e in ev if e[1] == 1]
        ev = []
        while f or i:
            src = f if (f and (not i or rng.random() < 0.3)) else i
            ev.append(src.pop(0))
    ops, fid = [], 1
    for t, kind in ev:
        if kind == 0:
            ops.append(['pf', 0, t, 1, fid, 1])
            fid += 1
        else:
            ops.append(['pi', 0, t] + vals(rng))
        for _ in range(rng.choice((0, 0, 1, 2))):
            ops.append(['ppop' if packed else 'pop', 0, 0])
    for _ in range(10):
        ops.append(['ppop' if packed else 'pop', 0, 0])
    return ops


def bulk(rng, packed):
    """One stream runs far ahead of the other, or everything is pushed before anything is popped."""
    ops, pop = [], 'ppop' if packed else 'pop'
    nf, per = rng.choice((1, 12, 30, 70)), rng.choice((3, 4, 10, 45))
    f = [['pf', 0, (j * per + rng.randint(0, 1)) * P + rng.randint(0, P - 1), 1, j, 1] for j in range(nf)]
    i = [['pi', 0, j * P] + vals(rng) for j in range(rng.choice((nf * per + 2, nf * per // 2, 260, 700)))]
    mode = rng.randint(0, 3)
    if mode == 0:
        ops = f + i
    elif mode == 1:
        ops = i + f
    elif mode == 2:
        ops = sorted(f + i, key=lambda o: o[2])
    else:
        k = rng.randint(0, len(f))
        ops = f[:k] + i + f[k:]
        for _ in range(rng.randint(0, 40)):
            ops.insert(rng.randint(0, len(ops)), [pop, 0, rng.randint(0, 3)])
    return ops + [[pop, 0, 0]] * (nf + 4 if packed else len(f) + len(i) + 4)


def size(ctx, q, t):
    return t if ctx.thorough else q


def check_D01(ctx):
    e = ctx.bg(exe)
    mc(ctx, False)
    sc = gen(ctx, False, 1, 4, '{1,2,3}', None) if not ctx.thorough else gen(ctx, False, 1, 5, '{1,2,3}', None)
    sc += gen(ctx, False, 2, 16, '{1,2,3,4,5,6}', size(ctx, 150, 3000))
    sc += rand(ctx, size(ctx, 500, 8000), 45, late=True, packed=False, malformed=True)
    sc += rand(ctx, size(ctx, 150, 2000), 45, late=True, packed=False, malformed=True, insts=3, clears=True)
    sc += rand(ctx, size(ctx, 100, 2000), 45, late=True, packed=True, malformed=True)
    sc += [('b%d' % i, bulk(ctx.rng, i % 2 == 0)) for i in range(size(ctx, 10, 100))]
    ctx.conform('TraceLoader', e, sc)


def check_D02(ctx):
    e = ctx.bg(exe)
    mc(ctx, False)
    sc = gen(ctx, False, 1, 5 if ctx.thorough else 4, '{1,2,4}', None) + gen(ctx, False, 1, 7 if ctx.thorough else 5, '{1,3}', None)
    sc += rand(ctx, size(ctx, 400, 6000), 50, late=False, packed=False)
    sc += rand(ctx, size(ctx, 100, 2000), 50, late=False, packed=False, period=ctx.rng.choice((2097, 4194, 20971, 33333)))
    r = ctx.rng
    sc += [('f%d' % i, fixed_rate(r, 6, fp, ip, off, False)) for i, (fp, ip, off) in enumerate(
        [(a, P, o) for a in (P, 3 * P, 5 * P // 2, 2 * P + 1) for o in (0, 1, P // 2, P - 1, P, P + 1, 3 * P)])]
    sc += [('b%d' % i, bulk(r, False)) for i in range(size(ctx, 16, 160))]
    ctx.conform('TraceLoader', e, sc)


def check_D03(ctx):
    e = ctx.bg(exe)
    mc(ctx, True)
    sc = gen(ctx, True, 1, 5 if ctx.thorough else 4, '{1,2,4}', None) + gen(ctx, True, 1, 7 if ctx.thorough else 5, '{1,3}', None)
    sc += gen(ctx, True, 1, 18, '{1,2,3,4,5,6,7,8,9}', size(ctx, 200, 4000))
    sc += rand(ctx, size(ctx, 500, 8000), 60, late=False, packed=True)
    r = ctx.rng
    sc += [('f%d' % i, fixed_rate(r, 7, fp, ip, off, True)) for i, (fp, ip, off) in enumerate(
        [(a, P, o) for a in (P, 3 * P, 5 * P // 2, 2 * P + 1, 3 * P + 2, 3 * P - 1) for o in (0, 1, 2, 3, P // 2, P - 1, P, P + 1, 3 * P)])]
    sc += [('b%d' % i, bulk(r, True)) for i in range(size(ctx, 24, 240))]
    ctx.conform('TraceLoader', e, sc)


def check_D04(ctx):
    e = ctx.bg(exe)
    mc(ctx, False)
    sc = gen(ctx, False, 2, 14, '{1,2,3,4,5}', size(ctx, 300, 5000))
    sc += rand(ctx, size(ctx, 300, 5000), 60, late=False, packed=False, insts=3, clears=True)
    sc += rand(ctx, size(ctx, 150, 3000), 60, late=True, packed=False, insts=3, clears=True)
    sc += rand(ctx, size(ctx, 150, 3000), 60, late=False, packed=True, insts=2, clears=True)
    # one stream starting long before the other, and starts far from zero
    for i in range(size(ctx, 60, 600)):
        base = ctx.rng.choice((0, 1, 4000 * P, 30000 * P))
        lead = ctx.rng.choice((-200, -3, 0, 3, 200)) * P
        ops = []
        for j in range(6):
            ops.append(['pf', 0, base + max(0, lead) + 3 * j * P, 1, j, 1])
            for q in range(3):
                ops.append(['pi', 0, base + max(0, -lead) + (3 * j + q) * P + 1] + vals(ctx.rng))
        ctx.rng.random() < 0.5 and ops.sort(key=lambda o: (o[0] == 'pf', 0))
        for j in range(26):
            ops.append([ctx.rng.choice(('pop', 'pop')), 0, 0])
        sc.append(('b%d' % i, ops))
    ctx.conform('TraceLoader', e, sc)

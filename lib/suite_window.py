"""W01-W05: the sliding window (spec/Window.tla). W06 is decided by the system suite."""
import vcore
import suite_system

SRC = ('frame_manager.cpp', 'feature_manager.cpp', 'data_typedef.cpp')
SRC_POL = SRC + ('multi_view_vision_update.cpp', 'sequence_propagator.cpp', 'imu_state.cpp', 'trianglation.cpp', 'perspective_n_point.cpp')


def exe():
    return vcore.build('window', SRC)


def exe_pol():
    return vcore.build('window_pol', SRC_POL)


def mc(ctx):
    f, c, m, d = ('{1,2}', '{0,1}', 4, 6) if ctx.thorough else ('{1,2}', '{0}', 4, 7)
    r = vcore.model_check('MCWindow', ctx.work, ['Numbering', 'Lifetime', 'Attribution', 'Association'], dict(F=f, C=c, MaxFrames=m, Depth=d))
    ctx.add(r)
    ctx.note(spec_model=dict(module='MCWindow', states=r.distinct, depth=d, features=f, cameras=c, exhaustive=True))


def gen(ctx, f, c, m, depth, simulate):
    out, r = vcore.tlc_generate('GenWindow', ctx.work, dict(F=f, C=c, MaxFrames=m, Depth=depth), simulate=simulate, depth=depth + 1, seed=ctx.seed)
    ctx.add(r)
    return [('g%d_%d' % (depth, i), ops) for i, ops in enumerate(out)]


QUATS = [(2, 0, 0, 0), (0, 2, 0, 0), (0, 0, 2, 0), (0, 0, 0, 2), (1, 1, 1, 1), (1, -1, 1, 1), (1, 1, -1, 1), (1, 1, 1, -1), (1, -1, -1, 1), (1, -1, 1, -1)]


def entries(rng, uid, feats, cams, p, dup=0.0, empty=0.1):
    out = []
    for j, f in enumerate(feats, 1):
        if rng.random() > p:
            continue
        if rng.random() < empty:
            out.append((f, []))
            if rng.random() < 0.5:
                continue
        cs = [c for c in cams if rng.random() < 0.7]
        out.append((f, [(c, uid * 1000 + j * 10 + c) for c in cs]))
        if rng.random() < dup:
            out.append((f, [(c, uid * 1000 + j * 10 + c + 5000000) for c in cams if rng.random() < 0.7]))
    rng.shuffle(out)
    return out


def add_op(uid, t, en):
    op = ['add', uid, t, len(en)]
    for f, cs in en:
        op += [f, len(cs)]
        for c, v in cs:
            op += [c, v]
    return op


def ids(rng, nf):
    """feature numbers: small, consecutive from a large one, or anything"""
    c = rng.random()
    if c < 0.6:
        return list(range(1, nf + 1))
    if c < 0.7:
        b = rng.choice((0, 250, 32760, 65530, 16777210, 2147483000))
        return list(range(b, b + nf))
    return rng.sample(range(1 << 31), nf) if c < 0.85 else [1 + 65536 * k for k in range(nf)]


def cams(rng):
    return [['cams', 0, *rng.choice(((1, 2), (1, 2), (2, 1), (3, 9), (255, 256), (65536, 1), (99, 1000000)))]] if rng.random() < 0.3 else []


def rand_hist(rng, n, nf, mode, cap=8, grow=0.55):
    ops, size, uid, t = cams(rng), 0, 1, rng.randint(0, 5)
    feats = ids(rng, nf)
    p = rng.choice((0.4, 0.6, 0.85))
    for _ in range(n):
        c = rng.random()
        if c < grow or size == 0:
            if size >= cap:
                ops.append(['rm', rng.choice((0, size - 2, size - 1))])
                size -= 1
                continue
            t += rng.randint(1, 9)
            ops.append(add_op(uid, t, entries(rng, uid, feats, (0, 1, 2) if rng.random() < 0.3 else (0, 1), p, 0.15 if mode != 'clean' else 0.0,
                                              0.1 if mode != 'clean' else 0.0)))
            uid += 1
            size += 1
        elif c < 0.82:
            i = rng.choice((0, 0, size - 2, size - 2, size - 1, rng.randrange(size)))
            if i < 0:
                i = 0
            if rng.random() < 0.06:
                i = size + rng.randint(0, 3)
            ops.append(['rm', i])
            if i < size:
                size -= 1
        elif c < 0.92:
            ops.append(['pose', rng.randrange(size)] + [rng.randint(-40, 40) for _ in range(6)] + list(rng.choice(QUATS)))
        elif c < 0.96 and mode != 'clean':
            ops.append(['rmid', rng.choice(feats)])
        elif mode != 'clean':
            a = rng.randint(0, 4)
            ops.append(['bad', a, rng.choice([x for x in range(6) if x != a])])
    return ops


def stream(rng, n, cap):
    """A long run: images in a row, the window kept at its size by dropping the oldest or the second-newest frame."""
    ops, t, size, nxt = cams(rng), 0, 0, 1
    cur = []
    subnew = rng.choice((0.0, 0.05, 0.5))
    keep = rng.choice((0.6, 0.9, 0.99))
    for uid in range(1, n + 1):
        t += rng.randint(1, 9)
        cur = [f for f in cur if rng.random() < keep]
        while len(cur) < 3:
            cur.append(nxt)
            nxt += 1
        ops.append(add_op(uid, t, entries(rng, uid, cur, (0, 1), 0.9, 0.02, 0.02)))
        size += 1
        if size > cap:
            ops.append(['rm', size - 2 if rng.random() < subnew else 0])
            size -= 1
    return ops


def size(ctx, q, t):
    return t if ctx.thorough else q


def hists(ctx, q):
    k = 12 if ctx.thorough else 1
    sc = gen(ctx, '{1,2}', '{0}', 4, 4 if not ctx.thorough else 6, None)
    sc += gen(ctx, '{1,2,3}', '{0,1}', 5, 14, q // 2 * k)
    sc += [('r%d' % i, rand_hist(ctx.rng, ctx.rng.randint(8, 34), ctx.rng.choice((2, 3, 5)), 'any')) for i in range(q * k)]
    sc += [('c%d' % i, rand_hist(ctx.rng, ctx.rng.randint(8, 34), ctx.rng.choice((2, 3, 5)), 'clean')) for i in range(q // 2 * k)]
    sc += [('w%d' % i, rand_hist(ctx.rng, ctx.rng.randint(30, 60), ctx.rng.choice((2, 4)), 'any', ctx.rng.choice((12, 17, 24)), 0.75)) for i in range(6 * k)]
    sc += [('m%d' % i, rand_hist(ctx.rng, ctx.rng.randint(6, 14), (25, 60, 120, 200)[i % 4], 'any')) for i in range(4 * k)]
    sc += [('s%d' % i, stream(ctx.rng, ctx.rng.choice((70, 140)), ctx.rng.choice((2, 4, 6)))) for i in range(2 * k)]
    sc += [('l%d' % i, stream(ctx.rng, 290, 3)) for i in range(max(1, k // 4))]
    return sc


def std(ctx):
    e = ctx.bg(exe)
    mc(ctx)
    ctx.conform('TraceWindow', e, hists(ctx, 300))


check_W01 = check_W02 = check_W03 = check_W04 = std


TRIPLES = [(3, 4, 0, 5), (0, 0, 5, 5), (2, 2, 1, 3), (1, 2, 2, 3), (4, 0, 3, 5), (6, 3, 2, 7), (0, 2, 0, 2), (-3, -4, 0, 5), (0, 0, -4, 4), (0, 0, 0, 0), (1, 4, 8, 9)]


def kf_hist(rng):
    nf = rng.choice((3, 3, 3, 4, 4, 4, 6, 6, 6, 6, 6, 60))
    feats = ids(rng, nf)
    ops = cams(rng) + [['thr', rng.randint(0, nf + 1), rng.choice((0, 2, 3, 4, 5, 7, 9)), rng.choice((1, 2, 3, 4, 5, 5, 8, 11))]]
    size, uid, t = 0, 1, 1
    pos = [0, 0, 0]
    cap = rng.choice((6, 6, 6, 12)) if nf < 10 else 6
    for _ in range(rng.randint(3, 9) if cap == 6 else 14):
        t += rng.randint(1, 4)
        ops.append(add_op(uid, t, entries(rng, uid, feats, (0, 1), rng.choice((0.5, 0.8, 1.0)) if nf < 10 else 1.0)))
        uid += 1
        size += 1
        tri = rng.choice(TRIPLES)
        extra = rng.choice((0, 0, 0, 1, -1))
        ax = rng.randrange(3)
        pos = [pos[k] + tri[k] for k in range(3)]
        pos[ax] += extra
        ops.append(['pose', size - 1] + pos + [0, 0, 0] + list(rng.choice(QUATS)))
        ops.append(['kf'])
        if rng.random() < 0.5:
            ops.append(['thr', rng.randint(0, nf + 1), rng.choice((0, 2, 3, 4, 5, 7, 9)), rng.choice((1, 2, 3, 4, 5, 5, 8, 11))])
            ops.append(['kf'])
        # an image without features triggers the decision
        t += 1
        ops.append(['add', uid, t, 0])
        uid += 1
        size += 1
        ops.append(['pol', rng.randint(0, 1)])
        ops.append(['rm', size - 1])
        size -= 1
        while size > cap or (size > 2 and rng.random() < (0.3 if cap == 6 else 0.05)):
            ops.append(['rm', rng.choice((0, size - 2))])
            size -= 1
            ops.append(['kf'])
    return ops


def check_W05(ctx):
    e = ctx.bg(exe_pol)
    mc(ctx)
    sc = [('k%d' % i, kf_hist(ctx.rng)) for i in range(size(ctx, 450, 8000))]
    ctx.conform('TraceWindow', e, sc)
check_W06 = suite_system.check_W06

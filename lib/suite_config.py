"""F01, F02: loading configuration files and handing the values to the modules (spec/Config.tla)."""
import glob, os
import vcore
from scene import HURWITZ

SHAPE = [(1, 1), (1, 4), (2, 3), (1, 1), (1, 1), (1, 1), (1, 3)]
EOL, JUNK = 1000000001, 1000000000


def exe():
    return vcore.build('config', [os.path.basename(f) for f in vcore.all_sources()])


def mc(ctx):
    ctx.add(vcore.model_check('MCConfig', ctx.work, ['Latest', 'Cams'], dict(Depth=5 if ctx.thorough else 4, MaxCams=2)))


def numbers(rng, f):
    if f == 0:
        return [[16 * rng.choice((50, 100, 125, 200, 250, 256, 400, 500, 1000))]]
    if f == 4:
        return [[16 * rng.randint(1, 20)]]
    if f == 6:
        return [[16 * rng.randint(0, 100), rng.randint(0, 40), rng.randint(0, 40)]]
    if f in (1, 3, 5):
        return [[rng.randint(1, 200) for _ in range(SHAPE[f][1])]]
    if f == 2:
        return [[rng.randint(-20, 20) for _ in range(3)] for _ in range(2)]
    w, x, y, z = rng.choice(HURWITZ)
    R = [[(w*w + x*x - y*y - z*z) // 4, (2 * (x*y - w*z)) // 4, (2 * (x*z + w*y)) // 4],
         [(2 * (x*y + w*z)) // 4, (w*w - x*x + y*y - z*z) // 4, (2 * (y*z - w*x)) // 4],
         [(2 * (x*z - w*y)) // 4, (2 * (y*z + w*x)) // 4, (w*w - x*x - y*y + z*z) // 4]]
    return [[16 * v for v in r] + [rng.randint(-40, 40)] for r in R] + [[0, 0, 0, 16]]


def lines(rng, f, kind):
    v = numbers(rng, f)
    if kind == 2:
        v = [r + [rng.randint(0, 50)] * (rng.random() < 0.7) for r in v] + rng.choice(([], [[5, 6]], [[], [9]], [[JUNK]]))
    elif kind == 3:
        del v[rng.randrange(len(v)):]
    elif kind == 4:
        r = rng.randrange(len(v))
        del v[r][rng.randrange(len(v[r])):]
    elif kind == 5:
        r = rng.randrange(len(v))
        v[r][rng.randrange(len(v[r]))] = JUNK
    elif kind == 6:
        v = []
    elif kind == 7:
        v = [[]] + v
    return v


def edit(rng, f, kind):
    if kind == 0:
        return ['rm', f]
    o = ['file', f]
    v = lines(rng, f, kind)
    for i, r in enumerate(v):
        o += r
        if i + 1 < len(v) or not r or rng.random() < 0.7:
            o.append(EOL)
    return o


def base(rng, cams, full=True):
    return [edit(rng, f, 1) for f in range(7) if full or rng.random() < 0.6] + [edit(rng, 7 + i, 1) for i in range(cams)]


def scenarios(ctx, act, n, ngen):
    rng, sc = ctx.rng, []
    out, r = vcore.tlc_generate('GenConfig', ctx.work, dict(Depth=2, Files=10))
    ctx.add(r)
    if len(out) > ngen:
        out = rng.sample(out, ngen)
    for i, o in enumerate(out):
        ops = [['look']] + base(rng, rng.randint(0, 3))
        if rng.random() < 0.5:
            ops.append(act(rng))
        for x in o:
            ops += [edit(rng, x['file'], x['kind']), act(rng)]
        sc.append(('g%d' % i, ops))
    for i in range(n):
        ops = [['look']] + base(rng, rng.randint(0, 7), rng.random() < 0.5)
        for _ in range(rng.randint(2, 8)):
            for _ in range(rng.randint(0, 4)):
                ops.append(edit(rng, rng.choice((rng.randrange(7), rng.randint(7, 13))), rng.choice((0, 1, 1, 1, 2, 3, 4, 5, 6, 7))))
            ops.append(act(rng))
        sc.append(('r%d' % i, ops))
    return sc


def check_F01(ctx):
    e = ctx.bg(exe)
    k = 5 if ctx.thorough else 1
    sc = scenarios(ctx, lambda rng: ['read'], 250 * k, 500 * k * k)
    mc(ctx)
    ctx.conform('TraceConfig', e, sc)


def check_F02(ctx):
    e = ctx.bg(exe)
    k = 5 if ctx.thorough else 1
    sc = scenarios(ctx, lambda rng: ['setup', rng.randint(0, 1)], 250 * k, 400 * k * k)
    mc(ctx)
    ctx.conform('TraceConfig', e, sc)

"""M01: rotation and matrix utilities (spec/Maths.tla)."""
import itertools
import vcore
from scene import HURWITZ


def exe():
    return vcore.build('maths', ('tick_tock.cpp',))


def check_M01(ctx):
    rng, k = ctx.rng, (20 if ctx.thorough else 1)
    e = ctx.bg(exe)
    ctx.add(vcore.model_check('MCMaths', ctx.work, ['Products', 'Crosses', 'Composes', 'Undone', 'Inverts'], dict(R=2 if ctx.thorough else 1)))
    ops = [['skew', *v] for v in itertools.product((-2, 0, 1, 3), repeat=3)]
    ops += [['mul', *(rng.randint(-9, 9) for _ in range(8))] for _ in range(300 * k)]
    ops += [['mul', *(int(i == a) for i in range(4)), *(int(i == b) for i in range(4))] for a in range(4) for b in range(4)]
    ops += [['trans', *p, *(rng.randint(-9, 9) for _ in range(3)), *q, *(rng.randint(-9, 9) for _ in range(3))] for p in HURWITZ for q in HURWITZ]
    ops += [['delta', *(rng.randint(-20, 20) for _ in range(3))] for _ in range(100 * k)]
    for _ in range(400 * k):                    # B B' + D
        n = rng.choice((1, 2, 2, 3, 3, 3, 4, 6, 9, 12))
        m = rng.randint(0, n)
        B = [[rng.randint(-2, 2) for _ in range(m)] for _ in range(n)]
        A = [[sum(B[i][c] * B[j][c] for c in range(m)) + (rng.randint(1, 4) if i == j else 0) for j in range(n)] for i in range(n)]
        for i in range(n):
            for j in range(i):
                A[i][j] = A[j][i]
        ops.append(['inv', n, rng.choice((0, 0, -8, -16, -24, 12))] + [x for r in A for x in r])
    ops += [['euler', rng.randint(-179, 179), rng.randint(-80, 80), rng.randint(-179, 179)] for _ in range(300 * k)]
    ops += [['size', a, *ax] for a in (0, 1, 5, 30, 60, 90, 120, 150, 175, 179, 180, -30, -90, -179, -180)
            for ax in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (3, 4, 0), (0, -3, 4), (1, 1, 1), (1, -2, 2), (2, 3, 6))]
    ops += [['size', rng.randint(-180, 180), rng.randint(1, 9), rng.randint(-9, 9), rng.randint(-9, 9)] for _ in range(300 * k)]
    ops += [['norm', *(s * x * y for s, x in zip((1, -1, 1), rng.sample(t, 3)))] for t in ((0, 3, 4), (1, 2, 2), (2, 3, 6), (1, 4, 8), (0, 0, 5)) for y in (0, 1, 3, 5)]
    ops += [['clock', 0, 3, 1, 10, 0], ['clock', 20, 5]]
    rng.shuffle(ops)
    sc = [('m%d' % i, ops[i:i + 20]) for i in range(0, len(ops), 20)]
    ctx.conform('TraceMaths', e, sc)

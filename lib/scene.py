"""Synthetic scenes for the vision checks: cameras with calibration, a cloud of points in front, frames moving."""
HURWITZ = [tuple(s * 2 if i == k else 0 for i in range(4)) for k in range(4) for s in (1, -1)] + \
          [(a, b, c, d) for a in (1, -1) for b in (1, -1) for c in (1, -1) for d in (1, -1)]


def qmul(a, b):
    return (a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0])


def turn(q, v):      # v rotated by a Hurwitz unit given in half units (exact)
    r = qmul(qmul(q, (0,) + tuple(v)), (q[0], -q[1], -q[2], -q[3]))
    return [x // 4 for x in r[1:]]


class Scene:
    """World = R0 * base.  In the base frame cameras look along +z; points lie at z 3..7 m, cameras near the origin."""
    def __init__(self, rng, cams, npts, away=0, k=1):
        self.rng, self.cams, self.k = rng, cams, k      # k: everything is as many times larger
        self.o = [rng.randint(-away, away) for _ in range(3)]      # metres from the origin of the world
        self.R0 = rng.choice(HURWITZ)
        self.Rc = [rng.choice(HURWITZ) for _ in range(cams)]       # body to camera: camera c looks along Rc * z of the body
        same = rng.random() < 0.5
        if same:
            self.Rc = [self.Rc[0]] * cams
        self.B = self.Rc[0]          # body orientation in the base frame such that all cameras look along +z is only possible if equal
        self.Rc = [self.Rc[0]] * cams
        # the cameras may sit far from the body's centre
        self.arm = [rng.randint(-32, 32) for _ in range(3)] if rng.random() < 0.3 else [0, 0, 0]
        self.ext = []
        for c in range(cams):
            p = [rng.randint(-3, 3) + x for x in self.arm]
            if c:
                p = [self.ext[0][0][0] + rng.choice((-6, 6, 5, -5)), self.ext[0][0][1] + rng.choice((-4, 4, 5)), rng.randint(-3, 3) + self.arm[2]]
            # small tilt of the camera on top of Rc
            q = qmul(self.Rc[c], (40, rng.randint(-2, 2), rng.randint(-2, 2), rng.randint(-4, 4)))
            self.ext.append((p, q))
        self.pts = []
        for _ in range(npts):
            self.pts.append(turn(self.R0, [rng.randint(-16, 16), rng.randint(-16, 16), rng.randint(24, 56)]))
        self.back = len(self.pts)
        for _ in range(8):           # points behind every camera
            self.pts.append(turn(self.R0, [rng.randint(-16, 16), rng.randint(-16, 16), -rng.randint(24, 56)]))
        self.last = None

    def ext_op(self):
        o = ['ext', self.cams]
        for p, q in self.ext:
            o += [self.k * x for x in p] + list(q)
        return o

    def pts_op(self):
        o = ['pts', len(self.pts)]
        for p in self.pts:
            o += [self.k * x + 8 * y for x, y in zip(p, self.o)]
        return o

    def pose(self, spread=8):
        rng = self.rng
        while True:
            p = [rng.randint(-spread, spread) for _ in range(3)]
            if self.last is None or sum((x - y) ** 2 for x, y in zip(p, self.last)) >= 49:
                break
        self.last = p
        rc = self.Rc[0]
        q = qmul(qmul(self.R0, (20, rng.randint(-2, 2), rng.randint(-2, 2), rng.randint(-3, 3))), (rc[0], -rc[1], -rc[2], -rc[3]))
        arm = turn(self.R0, turn((rc[0], -rc[1], -rc[2], -rc[3]), self.arm))
        return [self.k * (x - y) + 16 * z for x, y, z in zip(turn(self.R0, p), arm, self.o)] + list(q)


def origin(rng):
    if rng.random() < 0.4:
        return ['origin', 1, 1, 0]
    return ['origin', rng.choice((1, 7, 1000, 100003)), rng.choice((0, 100, 1 << 24, (1 << 31) - 40000000)), rng.choice((0, 5000, 1600000000))]

"""Independent reference models, written from the model descriptions and READMEs.

Variables are addressed by value reference; values are flat lists.
"""
import math

STEP = {'BouncingBall': 1e-3, 'Dahlquist': 0.1, 'Feedthrough': 0.1, 'Resource': 1.0, 'Stair': 0.2,
        'VanDerPol': 1e-2, 'Roberts': 1e-6, 'StateSpace': 1e-3}


def is_close(a, b):
    if abs(a - b) <= 1e-5:
        return True
    return abs(a - b) <= 1e-5 * max(abs(a), abs(b))


class Model:
    nx = 0
    nz = 0
    state_vrs = ()

    def __init__(self):
        self.time = 0.0
        self.next_event = None
        self.terminate = False
        self.start()

    def start(self):
        pass

    def get(self, vr):
        """flat list of values of a variable"""
        if vr == 0:
            return [self.time]
        return self.value(vr)

    # continuous states
    def x(self):
        return []

    def set_x(self, x):
        pass

    def der(self):
        return []

    def z(self):
        return []

    def nominals(self):
        return [1.0] * len(self.x())

    def event(self):
        """event update; returns whether the values of continuous states changed"""
        return False


class BouncingBall(Model):
    floats = (0, 1, 2, 3, 4, 5, 6, 7)
    settable = (1, 3, 5, 6)

    def start(self):
        self.h, self.v, self.g, self.e = 1.0, 0.0, -9.81, 0.7

    def value(self, vr):
        return [{1: self.h, 2: self.v, 3: self.v, 4: self.g, 5: self.g, 6: self.e, 7: 0.1}[vr]]

    def set(self, vr, vals):
        setattr(self, {1: 'h', 3: 'v', 5: 'g', 6: 'e'}[vr], vals[0])

    def x(self):
        return [self.h, self.v]

    def set_x(self, x):
        self.h, self.v = x

    def der(self):
        return [self.v, self.g]

    def z(self):
        if -1e-10 < self.h <= 0 and self.v > 0:
            return [-1e-10]
        return [self.h]

    def event(self):
        if self.h <= 0 and self.v < 0:
            self.h = 2.2250738585072014e-308
            self.v = -self.v * self.e
            if self.v < 0.1:
                self.v = 0.0
                self.g = 0.0
            return True
        return False


class Dahlquist(Model):
    floats = (0, 1, 2, 3)
    settable = (1, 3)

    def start(self):
        self.xx, self.k = 1.0, 1.0

    def value(self, vr):
        return [{1: self.xx, 2: -self.k * self.xx, 3: self.k}[vr]]

    def set(self, vr, vals):
        if vr == 1:
            self.xx = vals[0]
        else:
            self.k = vals[0]

    def x(self):
        return [self.xx]

    def set_x(self, x):
        self.xx = x[0]

    def der(self):
        return [-self.k * self.xx]


class VanDerPol(Model):
    floats = (0, 1, 2, 3, 4, 5)
    settable = (1, 3, 5)

    def start(self):
        self.x0, self.x1, self.mu = 2.0, 0.0, 1.0

    def value(self, vr):
        d = self.der()
        return [{1: self.x0, 2: d[0], 3: self.x1, 4: d[1], 5: self.mu}[vr]]

    def set(self, vr, vals):
        setattr(self, {1: 'x0', 3: 'x1', 5: 'mu'}[vr], vals[0])

    def x(self):
        return [self.x0, self.x1]

    def set_x(self, x):
        self.x0, self.x1 = x

    def der(self):
        return [self.x1, self.mu * ((1.0 - self.x0 * self.x0) * self.x1) - self.x0]


class Roberts(Model):
    floats = (0, 2, 3, 4, 5, 6, 7, 8, 9, 10)
    settable = (2, 4, 6)

    def start(self):
        self.y1, self.y2, self._y3, self.dae = 1.0, 0.0, 0.0, False

    def y3(self):
        return self._y3 if self.dae else 1.0 - self.y1 - self.y2

    def value(self, vr):
        d = self.der()
        y3 = self.y3()
        if vr == 1:
            return [self.dae]
        return [{2: self.y1, 3: d[0], 4: self.y2, 5: d[1], 6: y3, 7: 1e-2, 8: self.y1 + self.y2 + y3 - 1.0,
                 9: self.y1 - 1e-4, 10: y3 - 0.01}[vr]]

    def set(self, vr, vals):
        setattr(self, {1: 'dae', 2: 'y1', 4: 'y2', 6: '_y3'}[vr], vals[0])

    def x(self):
        return [self.y1, self.y2]

    def set_x(self, x):
        self.y1, self.y2 = x

    def der(self):
        y3 = self.y3()
        return [-0.04 * self.y1 + 1e4 * self.y2 * y3,
                0.04 * self.y1 - 1e4 * self.y2 * y3 - 3e7 * self.y2 * self.y2]

    def z(self):
        return [self.y1 - 1e-4, self.y3() - 0.01]

    def nominals(self):
        return [1e-4, 1e-2]


class Stair(Model):
    floats = (0,)
    ints = (1,)
    settable = ()

    def start(self):
        self.counter = 1
        self.next_event = 1.0

    def value(self, vr):
        return [self.counter]

    def set(self, vr, vals):
        self.counter = vals[0]

    def event(self):
        if self.time >= self.next_event or is_close(self.time, self.next_event):
            self.counter += 1
            self.next_event += 1
        self.terminate = self.counter >= 10
        return False


class Resource(Model):
    floats = (0,)
    ints = (1,)
    y = ord('a')

    def value(self, vr):
        return [self.y]


class Feedthrough(Model):
    """inputs by vr; outputs are vr + 1"""

    def start(self):
        self.val = {}

    def value(self, vr):
        return [self.val.get(vr)]

    def set(self, vr, vals):
        self.val[vr] = vals[0]
        if vr not in (5, 6):
            self.val[vr + 1] = vals[0]


class StateSpace(Model):
    MAX = 5
    floats = (0, 4, 5, 6, 7, 8, 9, 10, 11, 12)

    def start(self):
        N = self.MAX
        self.m = self.n = self.r = 3
        eye = lambda: [[1.0 if i == j else 0.0 for j in range(N)] for i in range(N)]
        self.A, self.B, self.C, self.D = eye(), eye(), eye(), eye()
        self.u = [float(i + 1) for i in range(N)]
        self.x0 = [0.0] * N
        self.xs = [0.0] * N

    def dims(self, vr):
        m, n, r = self.m, self.n, self.r
        return {4: (n, n), 5: (n, m), 6: (r, n), 7: (r, m), 8: (n,), 9: (m,), 10: (r,), 11: (n,), 12: (n,)}[vr]

    def der(self):
        return [sum(self.A[i][j] * self.xs[j] for j in range(self.n)) + sum(self.B[i][j] * self.u[j] for j in range(self.m))
                for i in range(self.n)]

    def y(self):
        return [sum(self.C[i][j] * self.xs[j] for j in range(self.n)) + sum(self.D[i][j] * self.u[j] for j in range(self.m))
                for i in range(self.r)]

    def value(self, vr):
        if vr in (1, 2, 3):
            return [(self.m, self.n, self.r)[vr - 1]]
        if vr in (4, 5, 6, 7):
            a, b = self.dims(vr)
            M = {4: self.A, 5: self.B, 6: self.C, 7: self.D}[vr]
            return [M[i][j] for i in range(a) for j in range(b)]
        if vr == 10:
            return self.y()
        if vr == 12:
            return self.der()
        return {8: self.x0[:self.n], 9: self.u[:self.m], 11: self.xs[:self.n]}[vr]

    def set(self, vr, vals):
        if vr in (1, 2, 3):
            setattr(self, 'mnr'[vr - 1], vals[0])
        elif vr in (4, 5, 6, 7):
            a, b = self.dims(vr)
            M = {4: self.A, 5: self.B, 6: self.C, 7: self.D}[vr]
            for i in range(a):
                for j in range(b):
                    M[i][j] = vals[i * b + j]
        else:
            t = {8: self.x0, 9: self.u, 11: self.xs}[vr]
            for i, q in enumerate(vals):
                t[i] = q

    def x(self):
        return self.xs[:self.n]

    def set_x(self, x):
        for i, q in enumerate(x):
            self.xs[i] = q


def make(model):
    return globals()[model]()


class CS:
    """Reference co-simulation: explicit Euler with the fixed internal step."""

    def __init__(self, model, start=0.0):
        self.m = model
        self.name = type(model).__name__
        self.h = STEP[self.name]
        self.start = start
        self.n = 0
        self.m.time = start
        self.prez = model.z()
        self.events = []

    def step(self):
        """one internal step; returns True if an event happened at its end"""
        m = self.m
        x, d = m.x(), m.der()
        if x:
            m.set_x([a + self.h * b for a, b in zip(x, d)])
        self.n += 1
        m.time = self.start + self.n * self.h
        z = m.z()
        ev = any((a <= 0 < b) or (a > 0 >= b) for a, b in zip(self.prez, z))
        self.prez = z
        if m.next_event is not None and m.time >= m.next_event:
            ev = True
        return ev

    def handle(self):
        self.events.append(self.m.time)
        r = self.m.event()
        self.prez = self.m.z()
        return r

    def advance(self, cp):
        """internal steps up to the communication point, events handled as they occur"""
        while not self.m.terminate:
            nt = self.m.time + self.h
            if nt > cp and not is_close(nt, cp):
                break
            if self.step():
                self.handle()

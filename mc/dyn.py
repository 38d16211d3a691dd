"""Systems with a known trajectory, shared by the dynamic properties."""
import math
from . import sut
f = sut.ops


def rk4(rhs, y0, times, h=2e-3):
    """Trajectory of y' = rhs(t, y) at the times given, by plain arithmetic."""
    out = [list(y0)]
    y, t = list(y0), times[0]
    n = len(y)
    for tn in times[1:]:
        steps = max(1, int(math.ceil(abs(tn - t) / h)))
        d = (tn - t) / steps
        for _ in range(steps):
            k1 = rhs(t, y)
            k2 = rhs(t + d / 2, [y[i] + d / 2 * k1[i] for i in range(n)])
            k3 = rhs(t + d / 2, [y[i] + d / 2 * k2[i] for i in range(n)])
            k4 = rhs(t + d, [y[i] + d * k3[i] for i in range(n)])
            y = [y[i] + d / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]) for i in range(n)]
            t += d
        t = tn
        out.append(list(y))
    return out


_cache = {}


def trajectory(key, rhs, y0, times):
    k = (key, tuple(y0), tuple(times))
    if k not in _cache:
        _cache[k] = rk4(rhs, y0, list(times))
    return _cache[k]


# names of the variables: they contain each other and that of the time variable
NM = {'t': 't', 'x': 'x', 'y': 'tx', 'z': 'x1', 'w': 'x_t'}
SECOND = 'A1'


class O:
    """objects of a system by name"""


# states, initial values, {state: (right-hand side node, plain function of t and the dict of states)}
ODE = [
    ('x', {'x': 2.}, {'x': (lambda o: -1 * o.k() * o.x(), lambda t, v: -0.5 * v['x'])}),
    ('x', {'x': 1.}, {'x': (lambda o: 0., lambda t, v: 0.)}),
    ('x', {'x': 1.}, {'x': (lambda o: o.t() * 3., lambda t, v: 3 * t)}),
    ('x', {'x': 0.2}, {'x': (lambda o: o.x() * (1 - o.x()), lambda t, v: v['x'] * (1 - v['x']))}),
    ('xy', {'x': 1., 'y': 0.25}, {'x': (lambda o: o.y() * 1, lambda t, v: v['y']),
                                  'y': (lambda o: -1 * o.x(), lambda t, v: -v['x'])}),
    ('xy', {'x': 1., 'y': -2.}, {'x': (lambda o: o.x() * o.y() - o.k(), lambda t, v: v['x'] * v['y'] - 0.5),
                                 'y': (lambda o: o.t() + o.p() * o.x(), lambda t, v: t + 1.25 * v['x'])}),
    ('xy', {'x': 3., 'y': 1.}, {'x': (lambda o: o.k() * 2, lambda t, v: 1.),
                                'y': (lambda o: f.Exp(o.t() * -1) + f.Sin(o.x()), lambda t, v: math.exp(-t) + math.sin(v['x']))}),
    ('xy', {'x': 1., 'y': 0.}, {'x': (lambda o: 5. - 0 * o.p(), lambda t, v: 5.),
                                'y': (lambda o: f.Sqrt(o.x()) - f.Cos(o.t()), lambda t, v: math.sqrt(v['x']) - math.cos(t))}),
    ('xyz', {'x': 1., 'y': 2., 'z': 3.}, {'x': (lambda o: o.k() * 2., lambda t, v: 1.),
                                          'y': (lambda o: o.x() - 1., lambda t, v: v['x'] - 1),
                                          'z': (lambda o: o.y() * o.k() + o.t(), lambda t, v: v['y'] * .5 + t)}),
    ('xyz', {'x': 1., 'y': 0.5, 'z': -1.}, {'x': (lambda o: o.y() - o.z(), lambda t, v: v['y'] - v['z']),
                                            'y': (lambda o: o.z() * o.p(), lambda t, v: v['z'] * 1.25),
                                            'z': (lambda o: -1. * o.x() / (1 + o.y() ** 2), lambda t, v: -v['x'] / (1 + v['y'] ** 2))}),
    ('xy', {'x': 0.5, 'y': 1.}, {'x': (lambda o: f.Max(o.y(), o.k()), lambda t, v: max(v['y'], .5)),
                                 'y': (lambda o: f.Min(o.p(), o.k()) * -1., lambda t, v: -.5)}),
    ('xy', {'x': 2., 'y': 1.}, {'x': (lambda o: f.Log(o.x()) * o.y(), lambda t, v: math.log(v['x']) * v['y']),
                                'y': (lambda o: f.Tan(o.y() * 0.5) - f.Abs(o.t()), lambda t, v: math.tan(.5 * v['y']) - abs(t))}),
]


def ode_rhs(k):
    names, _, eqs = ODE[k]
    return lambda t, y: [eqs[n][1](t, dict(zip(names, y))) for n in names]

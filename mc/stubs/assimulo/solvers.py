"""Stand-ins for the assimulo integrators used by the code under test.

`CVode` integrates y' = rhs(t, y) with scipy; `IDA` integrates res(t, y, yd) = 0 with a 3-stage
Radau IIA collocation (order 5, L-stable, index <= 2) with a fixed number of substeps between output
points.  Both answer the same calls, with the same argument and result shapes, as assimulo's classes.
"""
import numpy as np
from scipy.integrate import solve_ivp

_S6 = 6.0 ** 0.5
_C = np.array([(4 - _S6) / 10, (4 + _S6) / 10, 1.0])
_A = np.array([[(88 - 7 * _S6) / 360, (296 - 169 * _S6) / 1800, (-2 + 3 * _S6) / 225],
               [(296 + 169 * _S6) / 1800, (88 + 7 * _S6) / 360, (-2 - 3 * _S6) / 225],
               [(16 - _S6) / 36, (16 + _S6) / 36, 1.0 / 9]])


class CVode:
    def __init__(self, problem):
        self.problem = problem
        self.rtol = self.atol = 1e-6                      # as in assimulo

    def simulate(self, tfinal, ncp=0, ncp_list=None):
        t0 = float(getattr(self.problem, 't0', 0.0))
        ts = np.array(ncp_list if ncp_list is not None else np.linspace(t0, tfinal, (ncp or 100) + 1), dtype=float)
        f = lambda t, y: np.array(self.problem.rhs(t, y), dtype=float)
        y0 = np.array(self.problem.y0, dtype=float)
        r = solve_ivp(f, (t0, float(tfinal)), y0, t_eval=ts[(ts >= t0) & (ts <= tfinal)], method='LSODA',
                      rtol=max(1e-12, float(self.rtol)), atol=self.atol)
        if not r.success:
            raise RuntimeError(r.message)
        return list(r.t), r.y.T


class IDA:
    substeps = 4

    def __init__(self, problem):
        self.problem = problem
        self.verbosity = 0
        self.y = np.array(problem.y0, dtype=float)
        self.yd = np.array(problem.yd0, dtype=float)
        if self.y.shape != self.yd.shape:
            raise ValueError("y0 and yd0 must be of the same length.")
        a = getattr(problem, 'algvar', None)
        self.algvar = np.ones(len(self.y)) if a is None else np.array(a, dtype=float)
        if self.algvar.shape != self.y.shape:
            raise ValueError("algvar must be of the same length as y0.")

    def _res(self, t, y, yd):
        return np.array(self.problem.res(t, y, yd), dtype=float)

    @staticmethod
    def _newton(f, x):
        n = len(x)
        for _ in range(60):
            r = f(x)
            J = np.empty((len(r), n))
            for j in range(n):
                h = 1e-7 * max(1.0, abs(x[j]))
                xp = x.copy()
                xp[j] += h
                J[:, j] = (f(xp) - r) / h
            d = np.linalg.solve(J, -r) if J.shape[0] == J.shape[1] else np.linalg.lstsq(J, -r, rcond=None)[0]
            x = x + d
            if np.max(np.abs(d)) <= 1e-11 * (1 + np.max(np.abs(x))):
                return x
        if np.max(np.abs(f(x))) < 1e-7:
            return x
        raise RuntimeError("IDA stand-in: no convergence")

    def make_consistent(self, method):
        """IDA_YA_YDP_INIT: algebraic y and differential yd from the differential y."""
        dif = self.algvar != 0
        y, yd = self.y, self.yd

        def f(u):
            return self._res(self.problem.t0, np.where(dif, y, u), np.where(dif, u, yd))
        u = self._newton(f, np.where(dif, yd, y))
        self.y, self.yd = np.where(dif, y, u), np.where(dif, u, yd)
        return 0, self.y, self.yd

    def simulate(self, tfinal, ncp=0, ncp_list=None):
        t = float(self.problem.t0)
        ts = list(ncp_list) if ncp_list is not None else list(np.linspace(t, tfinal, (ncp or 100) + 1))
        n = len(self.y)
        Y, YD, T = [], [], []
        y, yd = self.y.copy(), self.yd.copy()
        for tn in ts:
            if tn > t + 1e-14:
                h = (tn - t) / self.substeps
                for _ in range(self.substeps):
                    def f(k):
                        K = k.reshape(3, n)
                        return np.concatenate([self._res(t + _C[i] * h, y + h * _A[i].dot(K), K[i])
                                               for i in range(3)])
                    K = self._newton(f, np.concatenate([yd, yd, yd])).reshape(3, n)
                    y = y + h * _A[2].dot(K)
                    yd = K[2]
                    t += h
                t = float(tn)
            T.append(float(tn)); Y.append(y.copy()); YD.append(yd.copy())
        return T, np.array(Y), np.array(YD)

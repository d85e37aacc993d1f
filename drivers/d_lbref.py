"""dual witnesses for  min ||x||_1  s.t.  ||Ax-b|| <= eps"""
from common import *


def reference(Am, b, eps, x0):
    """dual witness from an independent interior-point solve; '' if it is not good enough"""
    n, m = Am.shape
    x, u = x0.copy(), 0.95 * abs(x0) + 0.1 * abs(x0).max() + 1e-12
    tau = max((2 * m + 1) / np.abs(x0).sum(), 1.0)

    def F(x, u, tau):
        r = Am @ x - b
        h = (eps * eps - r @ r) / 2
        if (u - x).min() <= 0 or (u + x).min() <= 0 or h <= 0:
            return np.inf
        return tau * u.sum() - np.log(u - x).sum() - np.log(u + x).sum() - np.log(h)
    with np.errstate(all="ignore"):
        for _ in range(60):
            for _ in range(60):
                r = Am @ x - b
                h = (eps * eps - r @ r) / 2
                a1, a2, at = 1 / (u - x), 1 / (u + x), Am.T @ r
                g = np.r_[a1 - a2 + at / h, tau - a1 - a2]
                H = np.zeros((2 * m, 2 * m))
                H[:m, :m] = np.diag(a1 ** 2 + a2 ** 2) + Am.T @ Am / h + np.outer(at, at) / h ** 2
                H[:m, m:] = H[m:, :m] = np.diag(a2 ** 2 - a1 ** 2)
                H[m:, m:] = np.diag(a1 ** 2 + a2 ** 2)
                try:
                    st = np.linalg.solve(H, -g)
                except np.linalg.LinAlgError:
                    return ""
                lam, t, f0 = -g @ st, 1.0, F(x, u, tau)
                while t > 1e-10 and not F(x + t * st[:m], u + t * st[m:], tau) <= f0 - 0.1 * t * lam:
                    t /= 2
                if t <= 1e-10:
                    break
                x, u = x + t * st[:m], u + t * st[m:]
                if lam < 1e-9:
                    break
            r = Am @ x - b
            z = Am.T @ r
            if abs(z).max() > 0:
                y = -r / abs(z).max()
                gap = abs(x).sum() - (b @ y - eps * np.linalg.norm(y))
                if gap < 1e-7 * (1 + abs(x).sum()):
                    return vec(y)
            tau *= 5
            if tau > 1e13:
                return ""
    return ""

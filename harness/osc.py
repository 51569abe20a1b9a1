"""pyoscode made safe: version 1.1.2 reads 16 bytes past its frequency and damping arrays; here valid numbers lie there."""
import numpy as np

_done = False


def guard():
    global _done
    if _done:
        return
    _done = True
    import _pyoscode
    orig = _pyoscode.solve

    def padded(a, dtype):
        a = np.asarray(a, dtype=dtype)
        b = np.empty(a.size + 8, dtype=dtype)
        b[:a.size] = a.ravel()
        b[a.size:] = a.ravel()[-1] if a.size else 0
        return b[:a.size]

    def solve(ts, ws, gs, *args, **kw):
        return orig(padded(ts, float), padded(ws, complex), padded(gs, complex), *args, **kw)
    _pyoscode.solve = solve

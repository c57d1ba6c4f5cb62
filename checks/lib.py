"""Shared by the harnesses. Only the public API of docria is used."""


def attempt(fn):
    """(True, value) or (False, exception)."""
    try:
        return True, fn()
    except Exception as e:
        return False, e


def clip(H, x, n, default):
    """Slice bound as Python resolves it (step 1), written independently of slice.indices."""
    if x is None:
        return default
    return H.Ite(x < 0, H.Ite(x + n < 0, 0, x + n), H.Ite(x > n, n, x))


def opt_int(H, name, lo, hi):
    """None or an integer."""
    return H.choose(name + "?", [False, True]) and H.int(name, lo, hi) or None

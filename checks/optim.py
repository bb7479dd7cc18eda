"""Stand-in for numerical optimisers of scipy, in the package's modules."""
import contextlib
import sys


@contextlib.contextmanager
def replaced(H, name, fake, where="optimize"):
    """scipy.<where>.<name> is ``fake`` for the package (however it imports it)"""
    sc = H.scipy(where)
    old = getattr(sc, name)
    undo = []
    for k, m in list(sys.modules.items()):
        if (k == "cyclic_boosting" or k.startswith("cyclic_boosting.")) and name in getattr(m, "__dict__", {}):
            undo.append((m, m.__dict__[name]))
            setattr(m, name, fake)
    setattr(sc, name, fake)
    try:
        yield
    finally:
        for m, v in undo:
            setattr(m, name, v)
        setattr(sc, name, old)

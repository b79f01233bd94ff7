"""stand-ins shared by contracts.  Anything a stand-in does not provide is outside the contract, never a violation"""
import types
from rmv.run import Stub


class Ns(Stub):
    """attribute bag"""
    @property
    def dtype(self):
        return Stub(names=tuple(k for k in self.__dict__ if not k.startswith('_')))


class Log(object):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return lambda *a, **kw: None


class FakeMp(Stub):
    """multiprocessing run in this process, in order"""
    def get_context(self, *a, **k):
        return self

    def Pool(self, *a, **k):
        return self

    def map(self, f, xs, *a, **k):
        return [f(x) for x in list(xs)]

    def imap(self, f, xs, *a, **k):
        return iter(self.map(f, xs))

    def starmap(self, f, xs, *a, **k):
        return [f(*x) for x in list(xs)]

    def close(self):
        pass

    def join(self):
        pass

    def terminate(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Gals(Stub):
    """a list of n galaxies: attribute columns, real or symbolic length"""
    def __init__(self, n, **k):
        Stub.__init__(self, **k)
        self.n = n

    def __len__(self):
        return self.n

    def symlen(self):
        return self.n

    @property
    def size(self):
        return self.n


def recs(np, n, **cols):
    """record array from columns"""
    a = np.zeros(n, dtype=[(k, v.dtype.str if hasattr(v, 'dtype') else 'f8', np.shape(v)[1:]) for k, v in cols.items()])
    for k, v in cols.items():
        a[k] = v
    return a


def differently(why='asked differently'):
    """the code uses a stand-in in a way the contract does not foresee: outside the contract"""
    from rmv import core
    from rmv.run import StubMissing
    if core.CTX is not None:
        raise core.Unsupported(why)
    raise StubMissing(why)

"""shared helpers of the contract modules"""
from vk import front
from vk.contract import Result


def prove_in(path, registry, names, src, loader=None):
    """-> [(name, thunk)] for the functions of one file"""
    def mk(n):
        def go():
            ns = (loader or (lambda q: front.load_pyx(q)[0]))(f"{src}/{path}")
            c = registry[n]
            r = Result(n)
            if n not in ns:
                r.unsupported = "function not found"
                return r
            want = [a for a, _ in c.params]
            f = ns[n]
            have = list(f.__code__.co_varnames[:f.__code__.co_argcount])
            if have != want:
                r.unsupported = f"signature changed to {have}"
                return r
            c.callees = [q for q in c.callees if q in ns]
            return c.verify(ns, registry=registry)
        return go
    return [(n, mk(n)) for n in names]

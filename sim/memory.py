"""
What a simulated process remembers.  Simulated processes that share the interpreter share ccnpy's modules; with a Memory,
each of them has its own copy of everything mutable that ccnpy's modules, classes and functions hold, taken from the
state right after import, and the copies are exchanged when another process runs.
"""
import collections
import copy
import dis
import enum
import functools
import itertools
import logging
import re
import sys
import types

ABSENT = object()
PLAIN = (int, float, complex, str, bytes, bool, type(None), range, type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, property,
         staticmethod, classmethod, enum.Enum, logging.Logger, re.Pattern, types.GetSetDescriptorType, types.MemberDescriptorType, functools.cached_property,
         types.GenericAlias)
LRU = type(functools.lru_cache(lambda: 0))


def mutable(v, depth=0):
    if isinstance(v, PLAIN):
        return False
    if isinstance(v, (tuple, frozenset)):
        return depth < 4 and any(mutable(x, depth + 1) for x in v)
    if type(v).__module__ in ('typing', 'abc', '_abc', '_thread', 'threading'):
        return False
    return True


def codes(c):
    yield c
    for k in c.co_consts:
        if isinstance(k, types.CodeType):
            yield from codes(k)


def functions(ns):
    for v in list(ns.values()):
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            for f in (v.fget, v.fset, v.fdel):
                if isinstance(f, types.FunctionType):
                    yield f
            continue
        w = v
        while w is not None:
            if isinstance(w, types.FunctionType):
                yield w
            w = getattr(w, '__wrapped__', None) if callable(w) and not isinstance(w, type) else None


class Slots:
    """Where state that outlives a call can be: found once, after import."""

    def __init__(self, package):
        self.package = package
        mods = [m for n, m in sorted(sys.modules.items()) if m is not None and (n == package or n.startswith(package + '.'))]
        classes, seen = [], set()

        def walk(ns):
            for v in list(ns.values()):
                if isinstance(v, type) and v not in seen and (v.__module__ or '').split('.')[0] == package:
                    seen.add(v)
                    classes.append(v)
                    walk(vars(v))
        for m in mods:
            walk(vars(m))
        self.globals = []
        self.attrs = []
        self.funcs = []
        stored = set()
        fns = {}
        for m in mods:
            for f in functions(vars(m)):
                fns[id(f)] = f
        for c in classes:
            for f in functions(vars(c)):
                fns[id(f)] = f
        gstored = {}
        for f in fns.values():
            if (f.__module__ or '').split('.')[0] != package:
                continue
            for code in codes(f.__code__):
                ins = list(dis.get_instructions(code))
                for k, i in enumerate(ins):
                    if i.opname == 'STORE_GLOBAL':
                        gstored.setdefault(f.__module__, set()).add(i.argval)
                    elif i.opname == 'STORE_ATTR' and self.to_class(ins, k):
                        stored.add(i.argval)
        self.globals = [(vars(m), n) for m in mods for n, v in vars(m).items() if not n.startswith('__') and mutable(v)]
        self.globals += [(vars(sys.modules[m]), n) for m, ns in gstored.items() for n in sorted(ns) if m in sys.modules]
        self.attrs = [(c, n) for c in classes if not issubclass(c, enum.Enum) for n, v in vars(c).items()
                      if not (n.startswith('__') and n.endswith('__')) and not n.startswith('_abc_') and mutable(v)
                      and not isinstance(v, (staticmethod, classmethod, property)) and not hasattr(type(v), '__get__')]
        have = {(c, n) for c, n in self.attrs}
        self.attrs += [(c, n) for c in classes if not issubclass(c, enum.Enum) for n in sorted(stored) if (c, n) not in have
                       and not hasattr(type(vars(c).get(n)), '__get__')]
        self.lru = [(c, n) for c in classes for n, v in vars(c).items() if isinstance(getattr(v, '__func__', v), LRU)]
        self.lru += [(m, n) for m in mods for n, v in vars(m).items() if isinstance(v, LRU) and (getattr(v, '__module__', '') or '').split('.')[0] == package]
        self.funcs = [f for f in fns.values() if (f.__module__ or '').split('.')[0] == package and (
            any(mutable(x) for x in f.__defaults__ or ()) or any(mutable(x) for x in (f.__kwdefaults__ or {}).values()))]
        self.cells = []
        for f in fns.values():
            if (f.__module__ or '').split('.')[0] == package:
                for c in f.__closure__ or ():
                    try:
                        v = c.cell_contents
                    except ValueError:
                        continue
                    if isinstance(v, (int, list, dict, set, bytearray, collections.deque, itertools.count)) and not isinstance(v, bool):
                        self.cells.append(c)
        self.fattrs = [f for f in fns.values() if (f.__module__ or '').split('.')[0] == package and f.__dict__ and set(f.__dict__) != {'__wrapped__'}
                       and set(f.__dict__) != {'__isabstractmethod__'}]

    @staticmethod
    def to_class(ins, k):
        """Whether this store may go to a class (or module) rather than to an object that lives shorter."""
        i = ins[k]
        p = ins[k - 1]
        if p.opname == 'SWAP':      # x.n += ...
            for q in range(k - 2, 1, -1):
                if ins[q].opname == 'LOAD_ATTR' and ins[q].argval == i.argval and ins[q - 1].opname == 'COPY':
                    p = ins[q - 2]
                    break
        return not (p.opname.startswith('LOAD_FAST') and p.argval not in ('cls', 'klass', 'owner', '__class__'))

    def get(self):
        """The present values (references)."""
        return ([g.get(n, ABSENT) for g, n in self.globals],
                [vars(c).get(n, ABSENT) for c, n in self.attrs],
                [(f.__defaults__, f.__kwdefaults__) for f in self.funcs],
                [c.cell_contents for c in self.cells],
                [vars(o)[n] for o, n in self.lru],
                [dict(f.__dict__) if f.__dict__ else None for f in self.fattrs])

    def put(self, st):
        for (g, n), v in zip(self.globals, st[0]):
            if v is ABSENT:
                g.pop(n, None)
            else:
                g[n] = v
        for (c, n), v in zip(self.attrs, st[1]):
            if vars(c).get(n, ABSENT) is v:
                continue
            if v is ABSENT:
                delattr(c, n)
            else:
                setattr(c, n, v)
        for f, (d, k) in zip(self.funcs, st[2]):
            f.__defaults__ = d
            f.__kwdefaults__ = k
        for c, v in zip(self.cells, st[3]):
            c.cell_contents = v
        for (o, n), v in zip(self.lru, st[4]):
            if vars(o)[n] is not v:
                setattr(o, n, v)
        for f, d in zip(self.fattrs, st[5]):
            if d is None:
                if f.__dict__:
                    f.__dict__.clear()
            elif f.__dict__ != d:
                f.__dict__.clear()
                f.__dict__.update(d)


SLOTS = None
IMAGE = None


def find(package='ccnpy'):
    global SLOTS, IMAGE
    SLOTS = Slots(package)
    IMAGE = fresh(SLOTS.get())      # nobody's: only copied
    return SLOTS


def clone(v, memo):
    """A copy of v, sharing what cannot be copied."""
    if not mutable(v):
        return v
    try:
        return copy.deepcopy(v, memo)
    except Exception:  # noqa
        return v


def fresh(st):
    memo = {}
    lru = []
    for v in st[4]:
        f = getattr(v, '__func__', v)
        q = f.cache_parameters()
        n = functools.lru_cache(maxsize=q['maxsize'], typed=q['typed'])(f.__wrapped__)
        lru.append(type(v)(n) if f is not v else n)
    return ([clone(x, memo) for x in st[0]], [clone(x, memo) for x in st[1]],
            [(tuple(clone(x, memo) for x in d) if d else d, {a: clone(b, memo) for a, b in k.items()} if k else k) for d, k in st[2]],
            [clone(x, memo) for x in st[3]], lru, [clone(x, memo) for x in st[5]])


class Memory:
    def __init__(self):
        self.states = {}
        self.cur = ('main',)
        self.swaps = 0

    def enter(self, key):
        if key == self.cur:
            return
        self.states[self.cur] = SLOTS.get()
        st = self.states.get(key)
        if st is None:
            st = fresh(IMAGE)
        SLOTS.put(st)
        self.cur = key
        self.swaps += 1

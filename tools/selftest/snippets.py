"""small programs; the abstract interpreter must reach the result of the Python interpreter on each of them"""
import numpy as np

def first_iter():
    d = {"a": 1, "b": 2}
    return next(iter(d)), next(iter(d.values())), next(iter([]), 7)

def namedtuple_():
    from collections import namedtuple
    P = namedtuple("P", ["x", "y"])
    p = P(1, y=2)
    x, y = p
    q = p._replace(x=5)
    return p.x, p.y, p[1], x, y, q.x, p._asdict()["y"], len(p), isinstance(p, tuple)

def namedtuple_string():
    from collections import namedtuple
    P = namedtuple("P", "x y z", defaults=(3,))
    return tuple(P(1, 2))

def typing_namedtuple():
    from typing import NamedTuple
    class P(NamedTuple):
        x: int
        y: int = 4
        def total(self):
            return self.x + self.y
    p = P(1)
    a, b = p
    return a, b, p.total(), p.y

def dataclass_():
    from dataclasses import dataclass, field
    @dataclass
    class P:
        x: int
        y: int = 2
        z: list = field(default_factory=list)
        def total(self):
            return self.x + self.y
    p = P(1)
    q = P(3, y=5)
    p.z.append(4)
    return p.x, p.y, p.z, q.z, p.total(), q.total()

def dataclass_frozen():
    from dataclasses import dataclass, replace, astuple, asdict
    @dataclass(frozen=True)
    class P:
        x: int
        y: int = 2
    p = P(1)
    q = replace(p, y=7)
    return q.x, q.y, p.y, astuple(q), asdict(p)

def dataclass_post():
    import dataclasses
    @dataclasses.dataclass
    class P:
        x: int
        w: int = dataclasses.field(init=False, default=0)
        def __post_init__(self):
            self.w = self.x * 2
    return P(4).w

def simple_namespace():
    from types import SimpleNamespace
    n = SimpleNamespace(a=1, b=2)
    n.c = 3
    return n.a + n.b + n.c

def none_ne():
    return [x for x in filter(None.__ne__, [1, None, 2])]

def filter_none():
    return list(filter(None, [0, 1, "", "a", None]))

def filter_lambda():
    return list(filter(lambda x: x > 1, [0, 1, 2, 3]))

def map_two():
    return list(map(lambda a, b: a * b, [1, 2, 3], [4, 5, 6]))

def starmap_():
    from itertools import starmap
    return list(starmap(pow, [(2, 3), (3, 2)]))

def chain_():
    from itertools import chain
    return list(chain([1], (2, 3), {4: 1})), list(chain.from_iterable([[1], [2, 3]]))

def islice_():
    from itertools import islice, count, repeat, product, combinations, accumulate, zip_longest, tee
    return list(islice(count(3), 3)), list(repeat(1, 2)), list(product([1, 2], "ab")), list(combinations([1, 2, 3], 2)), list(accumulate([1, 2, 3])), list(zip_longest([1], [2, 3], fillvalue=0))

def groupby_():
    from itertools import groupby
    return [(k, list(g)) for k, g in groupby([1, 1, 2, 3, 3])]

def reduce_():
    from functools import reduce
    import operator
    return reduce(operator.add, [1, 2, 3]), reduce(lambda a, b: a * b, [1, 2, 3], 10)

def partial_():
    from functools import partial
    def f(a, b, c=0):
        return a, b, c
    return partial(f, 1, c=5)(2), partial(int, base=2)("101")

def partialmethod_():
    from functools import partialmethod
    class A:
        def f(self, a, b=0):
            return a + b
        g = partialmethod(f, 1, b=3)
    return A().g()

def operator_():
    import operator
    class A:
        x = 4
        def m(self, k):
            return k + 1
    return operator.attrgetter("x")(A()), operator.itemgetter(1)([3, 4]), operator.methodcaller("m", 5)(A()), operator.itemgetter("a", "b")({"a": 1, "b": 2}), operator.and_(True, False), operator.mul(3, 4), operator.not_(3), operator.truediv(1, 4)

def attrgetter_dotted():
    from operator import attrgetter
    class A: pass
    a = A(); a.b = A(); a.b.c = 5
    return attrgetter("b.c")(a)

def contextmanager_():
    from contextlib import contextmanager
    log = []
    @contextmanager
    def cm(x):
        log.append("in")
        try:
            yield x + 1
        finally:
            log.append("out")
    with cm(1) as y:
        log.append(y)
    try:
        with cm(2):
            raise ValueError("x")
    except ValueError:
        log.append("caught")
    return log

def exitstack_():
    from contextlib import ExitStack
    log = []
    with ExitStack() as st:
        st.callback(log.append, 1)
        st.callback(log.append, 2)
        log.append(0)
    return log

def suppress_():
    from contextlib import suppress, nullcontext
    r = []
    with suppress(KeyError):
        {}["a"]
        r.append(1)
    with nullcontext(5) as x:
        r.append(x)
    return r

def generator_():
    def g(n):
        for i in range(n):
            yield i * 2
        return 3
    return list(g(3)), sum(g(4)), max(g(3)), tuple(x + 1 for x in g(2))

def yield_from():
    def a():
        yield 1
        yield 2
    def b():
        r = yield from a()
        yield 3
    return list(b())

def generator_next():
    def g():
        yield 1
        yield 2
    it = g()
    return next(it), next(it), next(it, None)

def generator_conditional():
    def g(d):
        for k, v in d.items():
            if v is None:
                continue
            yield k, v
    return dict(g({"a": 1, "b": None, "c": 3}))

def comprehension_nested():
    return [(i, j) for i in range(3) for j in range(i) if i + j > 1], {k: v for k, v in zip("ab", [1, 2])}, {x % 2 for x in [1, 2, 3]} == {0, 1}

def walrus_():
    r = []
    if (n := len([1, 2])) > 1:
        r.append(n)
    while (n := n - 1) >= 0:
        r.append(n)
    return r

def star_unpack():
    a, *b, c = [1, 2, 3, 4]
    d = [*b, a]
    e = {**{"x": 1}, "y": 2}
    def f(*args, k=0, **kw):
        return args, k, kw
    return a, b, c, d, e, f(1, *b, k=3, **e)

def ternary_chain():
    def f(x):
        return "a" if x < 1 else "b" if x < 2 else "c"
    return [f(x) for x in range(3)]

def chained_compare():
    return 1 < 2 < 3, 1 < 3 < 2, 1 == 1 != 2

def any_all():
    return any(x > 2 for x in [1, 2, 3]), all(x > 2 for x in [1, 2, 3]), any([]), all([])

def sorted_():
    return sorted([3, 1, 2]), sorted(["b", "a"], reverse=True), sorted({"a": 2, "b": 1}.items(), key=lambda kv: kv[1]), min([3, 1, 2], key=lambda x: -x), max(1, 5, 2)

def reversed_enumerate():
    return list(reversed([1, 2, 3])), list(enumerate("ab", start=1)), list(zip(*[(1, 2), (3, 4)])), [1, 2, 3][::-1]

def dict_methods():
    d = {"a": 1}
    d.setdefault("b", []).append(2)
    d.update(c=3)
    d.update([("e", 5)])
    d |= {"f": 6}
    p = d.pop("a")
    q = d.pop("zz", None)
    return d, p, q, d.get("b"), "c" in d, list(d), dict(d, g=1), d | {"z": 0}, dict.fromkeys(["a", "b"], 0), d.popitem()

def list_methods():
    l = [3, 1]
    l.extend([2, 5])
    l.insert(0, 9)
    l.remove(1)
    p = l.pop()
    l.sort()
    l2 = l.copy()
    l2.reverse()
    l += [7]
    del l[0]
    return l, p, l2, l.index(7), l.count(7), [0] * 3, l + [1], l[1:], l[-1]

def list_clear():
    l = [1]; m = l
    l.clear()
    m.append(2)
    l[:] = [4, 5]
    return l, m

def set_methods():
    s = {1, 2}
    s.add(3)
    s.discard(1)
    t = s | {7}
    return sorted(s), sorted(t), sorted(t - s), sorted(s & {3}), s <= t, s.isdisjoint({9}), frozenset([1]) == {1}, sorted(set("aab"))

def string_methods():
    return "a,b".split(","), "-".join(["x", "y"]), "abc".upper(), " a ".strip(), "abc".replace("b", "x"), "abc".startswith("ab"), "a_b".partition("_"), "abc"[1:], "%s=%d" % ("a", 3), "{} {x}".format(1, x=2), f"{3}-{'a'}", "abc".endswith(("c", "d")), "A".lower(), "ab" in "cabd", len("abc"), "a" * 3, "b".join("xyz"), "x".isidentifier(), "a b".title(), "abc".find("c")

def removeprefix_():
    return "true_x".removeprefix("true_"), "x_obs".removesuffix("_obs"), "a:b:c".rsplit(":", 1)

def try_else_finally():
    r = []
    def f(x):
        try:
            if x:
                raise KeyError("k")
        except (KeyError, IndexError) as e:
            r.append("except")
            return 1
        else:
            r.append("else")
        finally:
            r.append("finally")
        return 2
    return f(0), f(1), r

def raise_from():
    try:
        try:
            raise ValueError("a")
        except ValueError as e:
            raise RuntimeError("b") from e
    except RuntimeError as e:
        return str(e), e.args, isinstance(e.__cause__, ValueError)

def reraise_():
    r = []
    try:
        try:
            raise ValueError("a")
        except ValueError:
            r.append(1)
            raise
    except Exception as e:
        r.append(type(e).__name__)
    return r

def for_else():
    def f(l):
        for x in l:
            if x == 2:
                break
        else:
            return "none"
        return "found"
    return f([1, 2]), f([1]), f([])

def while_break():
    i = 0
    while True:
        i += 1
        if i == 3:
            continue
        if i > 4:
            break
    else:
        i = 100
    return i

def nonlocal_():
    n = 0
    def inc(k=1):
        nonlocal n
        n += k
        return n
    inc(); inc(3)
    return n

def closures():
    fs = [lambda x, i=i: x + i for i in range(3)]
    return [f(10) for f in fs]

def decorators():
    from functools import wraps
    def twice(f):
        @wraps(f)
        def g(*a, **k):
            return f(*a, **k) * 2
        return g
    @twice
    def h(x):
        return x + 1
    def scale(n):
        def deco(f):
            def g(*a):
                return f(*a) * n
            return g
        return deco
    @scale(3)
    @twice
    def k(x):
        return x
    return h(2), h.__name__, k(2)

def cached():
    from functools import lru_cache, cached_property
    @lru_cache(maxsize=None)
    def f(x):
        return x + 1
    class A:
        n = 0
        @cached_property
        def v(self):
            self.n += 1
            return 5
    a = A()
    return f(1), f(1), a.v + a.v, a.n

def singledispatch_():
    from functools import singledispatch
    @singledispatch
    def f(x):
        return "object"
    @f.register(int)
    def _(x):
        return "int"
    return f(3), f("a")

def properties():
    class A:
        def __init__(self):
            self._x = 1
        @property
        def x(self):
            return self._x
        @x.setter
        def x(self, v):
            self._x = v * 2
        @staticmethod
        def s(a):
            return a
        @classmethod
        def c(cls, a):
            return cls.__name__, a
        y = property(lambda self: self._x + 10)
    a = A()
    a.x = 4
    return a.x, A.s(1), a.s(2), A.c(3), a.y

def inheritance():
    class A:
        def __init__(self, x, **kw):
            self.x = x
        def f(self):
            return "A"
    class M:
        def f(self):
            return "M" + super().f()
    class B(M, A):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
        def f(self):
            return "B" + super(B, self).f()
    b = B(3)
    return b.f(), b.x, isinstance(b, A), issubclass(B, M), [c.__name__ for c in B.__mro__], type(b).__name__, b.__class__ is B, hasattr(b, "x"), hasattr(b, "zz")

def class_attributes():
    class A:
        items = ("a", "b")
        table = {k: i for i, k in enumerate(items)}
        def get(self):
            return self.table["b"], type(self).items, self.__class__.items[0]
    return A().get(), A.__name__, vars(A)["items"], "items" in A.__dict__

def getattr_setattr():
    class A: pass
    a = A()
    setattr(a, "x", 1)
    a.__dict__["y"] = 2
    a.__dict__.update(z=3)
    for k, v in {"p": 1, "q": 2}.items():
        setattr(a, "_%s" % k, v)
    delattr(a, "x")
    return getattr(a, "x", None), a.y, a.z, a._p, a._q, vars(a)["y"], sorted(vars(a))

def dunders():
    class A:
        def __init__(self, v): self.v = v
        def __len__(self): return 3
        def __getitem__(self, i): return i * 2
        def __setitem__(self, i, x): self.v = (i, x)
        def __contains__(self, x): return x == 1
        def __call__(self, x): return x + self.v
        def __eq__(self, o): return True
        def __add__(self, o): return "add"
        def __radd__(self, o): return "radd"
        def __iadd__(self, o): self.v = o; return self
        def __bool__(self): return False
        def __iter__(self): return iter([1, 2])
        def __neg__(self): return "neg"
        def __and__(self, o): return "and"
        def __lt__(self, o): return True
        def __enter__(self): return "e"
        def __exit__(self, *a): return True
        def __getattr__(self, n): return n
        def __str__(self): return "str"
        def __repr__(self): return "repr"
        def __hash__(self): return 1
    a = A(1)
    r = [len(a), a[4], 1 in a, a(5), a + 1, 1 + a, list(a), -a, a & 1, a < 1, a.foo, bool(a), str(a), repr(a), f"{a}", f"{a!r}", "%s" % a]
    a[3] = 4
    r.append(a.v)
    a += 9
    r.append(a.v)
    with a as e:
        r.append(e)
        raise ValueError
    return r

def iterator_class():
    class It:
        def __init__(self, n): self.n = n; self.i = 0
        def __iter__(self): return self
        def __next__(self):
            if self.i >= self.n:
                raise StopIteration
            self.i += 1
            return self.i
    return list(It(3)), [x for x in It(2)]

def descriptor():
    class D:
        def __set_name__(self, owner, name): self.name = "_" + name
        def __get__(self, obj, typ=None):
            if obj is None:
                return self
            return getattr(obj, self.name, 0)
        def __set__(self, obj, v): setattr(obj, self.name, v + 1)
    class A:
        x = D()
    a = A()
    b = a.x
    a.x = 4
    return b, a.x

def enum_():
    from enum import Enum
    class C(Enum):
        RED = 1
        BLUE = "b"
    return C.RED.value, C.BLUE.name, C("b") is C.BLUE, C.RED == C.RED, [c.name for c in C], C["RED"].value

def abc_():
    from abc import ABC, abstractmethod
    class A(ABC):
        @abstractmethod
        def f(self): ...
    class B(A):
        def f(self): return 1
    return B().f()

def metaclass_():
    reg = {}
    class M(type):
        def __new__(mcs, name, bases, ns):
            c = super().__new__(mcs, name, bases, ns)
            reg[name] = c
            return c
    class A(metaclass=M): pass
    class B(A): pass
    return sorted(reg)

def init_subclass():
    reg = []
    class A:
        def __init_subclass__(cls, tag=None, **kw):
            super().__init_subclass__(**kw)
            reg.append((cls.__name__, tag))
    class B(A, tag=1): pass
    class C(B): pass
    return reg

def ordered_default_counter():
    from collections import OrderedDict, defaultdict, Counter, deque, ChainMap
    d = defaultdict(list)
    d["a"].append(1)
    c = Counter("aab")
    c["z"] += 1
    q = deque([1, 2], maxlen=3)
    q.appendleft(0)
    q.append(5)
    o = OrderedDict([("x", 1), ("y", 2)])
    o.move_to_end("x")
    return dict(d), c["a"], c["z"], list(q), list(o), q.popleft(), ChainMap({"a": 1}, {"a": 2, "b": 3})["b"]

def copy_():
    import copy
    a = {"x": [1]}
    b = copy.copy(a); c = copy.deepcopy(a)
    a["x"].append(2)
    return b, c

def slices_():
    l = list(range(6))
    s = slice(1, 5, 2)
    l2 = l[:]
    l2[1:3] = [9]
    return l[s], l[::2], l2, l[-2:]

def bool_ops():
    return (None or 3), (0 and 1), (not 0), (1 and 2), ([] or "x"), (5 or 1 / 0), not None, bool(""), True & False, True ^ True, True | False, ~0

def int_ops():
    return 7 // 2, 7 % 3, 2 ** 5, -7 // 2, divmod(7, 2), abs(-3), round(2.567, 1), int("5"), float("2.5"), pow(2, 3), int(2.7), 7 / 2, 1e3, 5 & 3, 1 << 3, complex(1, 2).real, sum([1, 2], 10)

def is_checks():
    a = None
    return a is None, a is not None, isinstance(3, int), isinstance(True, int), isinstance("a", (int, str)), isinstance([], list), callable(len), type(3) is int, isinstance(2.0, float), isinstance({}, dict), isinstance((), tuple), issubclass(bool, int), isinstance(None, type(None))

def del_():
    d = {"a": 1, "b": 2}
    del d["a"]
    x = 1
    del x
    return d

def global_state():
    acc = {"n": 0}
    def f():
        acc["n"] += 1
        return acc["n"] > 2
    while not f():
        pass
    return acc["n"]

def lambda_default():
    return (lambda a, *b, c=2, **d: (a, b, c, d))(1, 2, 3, e=4)

def recursion():
    def fact(n):
        return 1 if n < 2 else n * fact(n - 1)
    def depth(t):
        return 1 + max((depth(c) for c in t), default=0)
    return fact(5), depth([[], [[]]])

def dict_dispatch():
    class A:
        def f(self, x): return x + 1
        def g(self, x): return x * 10
        def run(self, k, x):
            return {"f": self.f, "g": self.g}.get(k, lambda y: -y)(x)
    a = A()
    return a.run("f", 1), a.run("g", 1), a.run("h", 1)

def stack_traversal():
    tree = {"a": ["b", "c"], "b": ["d"], "c": [], "d": []}
    out, stack = [], ["a"]
    while stack:
        n = stack.pop()
        out.append(n)
        stack.extend(reversed(tree[n]))
    return out

def queue_traversal():
    tree = {"a": ["b", "c"], "b": ["d"], "c": [], "d": []}
    todo = ["a"]
    for n in todo:
        todo += tree[n]
    i = 0
    seen = []
    while i < len(todo):
        seen.append(todo[i]); i += 1
    return todo, seen

def zip_strict():
    names = ["a", "b"]; vals = [1, 2]
    out = {}
    for (i, n), v in zip(enumerate(names), vals):
        out[n] = (i, v)
    return out

def multiple_targets():
    a = b = [1]
    (c, d), e = (2, 3), 4
    a.append(5)
    x, y = 1, 2
    x, y = y, x
    return b, c, d, e, x, y

def augmented():
    x = 5
    x -= 1; x *= 3; x //= 2; x **= 2; x %= 7
    d = {"a": 1}
    d["a"] += 4
    l = [1, 2]
    l[0] -= 1
    return x, d, l

def annotated():
    x: int = 3
    y: "list[int]"
    y = [x]
    return y

def match_():
    def f(x):
        match x:
            case 0:
                return "zero"
            case {"k": v}:
                return v
            case [a, b]:
                return a + b
            case str() as s:
                return s
            case _:
                return "other"
    return f(0), f({"k": 3}), f([1, 2]), f("q"), f(None)

def try_in_loop():
    r = []
    for x in ["1", "a", "2"]:
        try:
            r.append(int(x))
        except ValueError:
            continue
    return r

def finally_return():
    def f():
        try:
            return 1
        finally:
            g.append(2)
    g = []
    return f(), g

def exceptions_custom():
    class E(RuntimeError):
        def __init__(self, code):
            super().__init__("code %d" % code)
            self.code = code
    try:
        raise E(3)
    except RuntimeError as e:
        return e.code, str(e), isinstance(e, E)

def assert_():
    try:
        assert 1 == 2, "no"
    except AssertionError as e:
        return str(e)

def kwonly_posonly():
    def f(a, /, b, *, c=3):
        return a, b, c
    try:
        f(1, 2, 3)
        r = "ok"
    except TypeError:
        r = "type"
    return f(1, b=2), f(1, 2, c=5), r

def starred_call_dict():
    def f(**kw):
        return kw
    return f(**dict(a=1), **{"b": 2}), dict(zip(["x"], [1]), y=2)

def type_new():
    A = type("A", (object,), {"x": 3, "f": lambda self: self.x})
    return A().f(), A.__name__

def slots_():
    class A:
        __slots__ = ("x", "y")
        def __init__(self, x):
            self.x = x
    return A(3).x

def vars_locals():
    def f(a, b):
        return dict(locals())
    return f(1, 2)

def typing_cast():
    from typing import cast, Optional, List, TYPE_CHECKING
    x = cast(int, 3)
    return x, bool(TYPE_CHECKING)

def conditional_import():
    try:
        import does_not_exist_xyz
        r = 1
    except ImportError:
        r = 2
    return r

def math_():
    import math
    return math.sqrt(16), math.pi > 3, math.log10(100), math.isfinite(1.0), math.floor(2.5), math.ceil(2.1), math.prod([2, 3]), math.exp(0), math.hypot(3, 4), math.inf > 5, math.cos(0), math.radians(180), math.log(1), math.pow(2, 3)

def partial_closure_loop():
    out = {}
    for name, val in [("a", 1), ("b", 2)]:
        def get(v=val):
            return v * 3
        out[name] = get
    return {k: f() for k, f in out.items()}

# ------------------------------------------------------------- numpy
A = np.array([3.0, 1.0, 2.0, 5.0])
M = np.array([True, False, True, True])

def np_masks():
    return A[M], A[~M], np.compress(M, A), np.extract(M, A), A[np.where(M)[0]], A[np.flatnonzero(M)], np.take(A, np.flatnonzero(M)), A[M.nonzero()], A[np.nonzero(M)[0]], A.compress(M), A[np.argwhere(M).ravel()]

def np_counts():
    return np.sum(M), M.sum(), np.count_nonzero(M), int(np.add.reduce(M)), len(A[M]), sum(M), M.astype(int).sum(), A[M].size, A.shape[0], np.size(A), A[M].shape[0], len(np.flatnonzero(M))

def np_logic():
    N = np.array([True, True, False, True])
    return M & N, np.logical_and(M, N), np.logical_and.reduce([M, N]), np.all([M, N], axis=0), M * N, np.bitwise_and(M, N), np.where(N, M, False), M | N, np.logical_or(M, N), np.logical_not(M), np.invert(M), M ^ N, np.logical_xor(M, N), np.any([M, N], axis=0), np.minimum(M, N), np.array([a and b for a, b in zip(M, N)]), np.stack([M, N]).all(axis=0), M != N, M == N, np.not_equal(M, N)

def np_arith():
    return np.multiply(A, 2), np.divide(A, 2), np.add(A, 1), np.subtract(A, 1), np.power(A, 2), np.square(A), np.sqrt(A * A), np.reciprocal(A), np.negative(A), np.abs(-A), np.true_divide(A, 4), A ** 0.5, 10 ** A, np.float_power(10.0, A), np.exp2(A), np.hypot(A, A), np.cbrt(A), np.sign(A), np.mod(A, 2), np.fmax(A, 2), np.maximum(A, 2), np.clip(A, 2, 3), A.clip(2, 3), np.floor(A / 2), np.log1p(A), np.expm1(A), np.exp(A), np.log(A), np.log10(A), np.log2(A)

def np_build():
    return np.ones(3), np.zeros(3), np.full(3, 2.0), np.ones_like(A), np.zeros_like(A), np.full_like(A, 7), np.empty(3).shape, np.arange(3), np.linspace(0, 1, 3), np.repeat(2.0, 3), np.tile(2.0, 3), np.array([2.0] * 3), np.asarray([1, 2]), np.ones(3, dtype=bool), np.zeros(2, dtype=int), np.logspace(0, 2, 3), np.geomspace(1, 100, 3), np.concatenate([A, A]), np.append(A, 1.0), np.hstack([A, A]), np.atleast_1d(3.0), np.array(A, copy=True), A.copy(), np.broadcast_to(2.0, (3,)), np.fromiter((x for x in [1.0, 2.0]), dtype=float), np.r_[A, A], np.eye(2)[0]

def np_inplace():
    a = np.zeros(4)
    a[:] = A
    a += 1
    a[M] = 0
    a[0] = 9
    b = np.empty(4); b.fill(2.0)
    c = np.zeros(4); np.add(A, 1, out=c)
    d = A.copy(); d[~M] *= 2
    np.copyto(b, 3.0, where=M)
    e = np.zeros(4, dtype=bool); e[[0, 2]] = True
    f = A.copy(); np.putmask(f, M, 0.0)
    g = A.copy(); np.place(g, M, [7.0])
    return a, b, c, d, e, f, g

def np_where():
    return np.where(A > 2, A, 0), np.select([A > 4, A > 2], [1, 2], default=3), np.piecewise(A, [A > 2, A <= 2], [lambda x: x, lambda x: -x]), np.choose(M.astype(int), [A, -A])

def np_reduce():
    return A.sum(), A.max(), A.min(), A.mean(), np.prod(A), np.cumsum(A), A.any(), A.all(), np.median(A), A.argmax(), np.std(A) > 0, A.ptp() if hasattr(A, "ptp") else np.ptp(A), np.argsort(A), np.sort(A), np.isfinite(A).all(), np.any(A > 4), np.nanmax(A), max(A), min(A), np.amax(A), np.dot(A, A), A @ A, np.diff(A), np.unique([1, 1, 2])

def np_convert():
    return A.tolist(), float(A[0]), A.astype(int), A.item(0), list(A), tuple(A), A.size, A.ndim, A.shape, len(A), A.dtype == float, np.float64(3.0), int(np.int64(4)), A.reshape(2, 2)[0], A.ravel(), A.flatten(), np.isscalar(3.0), np.ndim(A), np.shape(A), A.T, np.squeeze(A[None, :]), A[:, None][0], A[np.newaxis][0], A[::-1], A[1:], A[-1], A[..., 0]

def np_trig():
    return np.sin(A), np.cos(A), np.arccos(np.cos(A) ), np.arcsin(0.5), np.arctan2(A, 2), np.deg2rad(A), np.rad2deg(A), np.radians(A), np.degrees(A), np.pi, np.tan(A), np.sinh(A), np.pi / 2 - A

def np_loops():
    out = np.empty(len(A))
    for i, x in enumerate(A):
        out[i] = x * 2
    o2 = np.array([x * 2 for x in A])
    o3 = np.zeros(A.shape)
    i = 0
    while i < len(A):
        o3[i] = A[i] * 2
        i += 1
    o4 = []
    for x in A:
        o4.append(x * 2)
    o5 = np.array(list(map(lambda x: x * 2, A)))
    return out, o2, o3, np.array(o4), o5, np.vectorize(lambda x: x * 2)(A), np.fromiter((2 * x for x in A), float), np.array([2 * A[j] for j in range(A.shape[0])])

def np_index():
    idx = np.arange(len(A))
    return idx[M], np.where(M)[0] + 1, np.flatnonzero(~M), np.delete(A, 1), np.setdiff1d(idx, idx[M]), np.in1d(idx, idx[M]) if hasattr(np, "in1d") else np.isin(idx, idx[M]), np.isin(idx, idx[M]), np.searchsorted([1, 2, 3], 2.5), np.argwhere(M).flatten(), [i for i, m in enumerate(M) if m]

def np_stats():
    return np.allclose(A, A), np.array_equal(A, A), np.isclose(A[0], 3.0), np.interp(1.5, [1, 2], [10, 20]), np.trapz([1, 1], [0, 1]) if hasattr(np, "trapz") else 1.0, np.heaviside(A - 2, 1.0)

def np_errstate():
    with np.errstate(divide="ignore"):
        r = A / 2
    return r, np.isnan(np.nan), np.isinf(np.inf), np.isneginf(-np.inf), np.nan_to_num(np.array([1.0]))

def np_stack():
    return np.vstack([A, A])[1], np.column_stack([A, A])[0], np.stack([A, A], axis=1)[:, 0], np.split(A, 2)[0], np.dstack([A, A]).shape, np.meshgrid([1, 2], [3, 4])[0][0], np.outer([1, 2], [3, 4])[1], np.c_[A, A][1], np.transpose([A, A])[0]

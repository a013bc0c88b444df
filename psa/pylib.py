"""Parts of the standard library, given as programs of the analysed language: the interpreter analyses these bodies in
place of the C or frozen originals, so that iteration, closures and attribute access in them follow the same rules as
the code under analysis."""
import ast

SOURCE = '''
class NamedTupleBase(tuple):
    _fields = ()
    _field_defaults = {}

    def __init__(self, *args, **kw):
        fields = type(self)._fields
        if len(args) > len(fields):
            raise TypeError("too many arguments")
        n = 0
        for a in args:
            setattr(self, fields[n], a)
            n = n + 1
        for f in fields[n:]:
            if f in kw:
                setattr(self, f, kw[f])
            elif f in type(self)._field_defaults:
                setattr(self, f, type(self)._field_defaults[f])
            else:
                raise TypeError("missing argument")
        for k in kw:
            if k not in fields[n:]:
                raise TypeError("unexpected argument")

    def _astuple(self):
        return tuple([getattr(self, f) for f in type(self)._fields])

    def __iter__(self):
        return iter([getattr(self, f) for f in type(self)._fields])

    def __getitem__(self, i):
        return self._astuple()[i]

    def __len__(self):
        return len(type(self)._fields)

    def __contains__(self, x):
        return x in self._astuple()

    def __eq__(self, other):
        return self._astuple() == tuple(other)

    def __ne__(self, other):
        return not self == other

    def __add__(self, other):
        return self._astuple() + tuple(other)

    def __repr__(self):
        return type(self).__name__ + repr(self._astuple())

    def index(self, x):
        return self._astuple().index(x)

    def count(self, x):
        return self._astuple().count(x)

    def _asdict(self):
        d = {}
        for f in type(self)._fields:
            d[f] = getattr(self, f)
        return d

    def _replace(self, **kw):
        d = self._asdict()
        for k in kw:
            if k not in d:
                raise ValueError("unexpected field")
        d.update(kw)
        return type(self)(**d)

    @classmethod
    def _make(cls, it):
        return cls(*it)


def starmap(f, it):
    for x in it:
        yield f(*x)


def chain_from_iterable(its):
    for it in its:
        for x in it:
            yield x


def islice(it, *args):
    lo, hi, st = 0, None, 1
    if len(args) == 1:
        hi = args[0]
    elif len(args) == 2:
        lo, hi = args
    else:
        lo, hi, st = args
    if lo is None:
        lo = 0
    if st is None:
        st = 1
    return iter(list(it)[lo:hi:st])


def product(*its, repeat=1):
    pools = [tuple(x) for x in its] * repeat
    res = [()]
    for pool in pools:
        res = [x + (y,) for x in res for y in pool]
    return iter(res)


def combinations(it, r):
    pool = list(it)
    res = [((), 0)]
    for _ in range(r):
        res = [(c + (pool[j],), j + 1) for c, i in res for j in range(i, len(pool))]
    return iter([c for c, i in res])


def permutations(it, r=None):
    pool = list(it)
    n = len(pool) if r is None else r
    res = [()]
    for _ in range(n):
        res = [c + (j,) for c in res for j in range(len(pool)) if j not in c]
    return iter([tuple([pool[j] for j in c]) for c in res])


def accumulate(it, func=None, *, initial=None):
    first = True
    acc = None
    if initial is not None:
        acc = initial
        first = False
        yield acc
    for x in it:
        if first:
            acc = x
            first = False
        elif func is None:
            acc = acc + x
        else:
            acc = func(acc, x)
        yield acc


def zip_longest(*its, fillvalue=None):
    ls = [list(x) for x in its]
    n = max([len(x) for x in ls]) if ls else 0
    for i in range(n):
        yield tuple([x[i] if i < len(x) else fillvalue for x in ls])


def groupby(it, key=None):
    groups = []
    have = False
    last = None
    for x in it:
        k = x if key is None else key(x)
        if not have or not (k == last):
            cur = []
            groups.append((k, cur))
            have = True
            last = k
        cur.append(x)
    for k, g in groups:
        yield k, iter(g)


def takewhile(pred, it):
    for x in it:
        if not pred(x):
            break
        yield x


def dropwhile(pred, it):
    dropping = True
    for x in it:
        if dropping and pred(x):
            continue
        dropping = False
        yield x


def compress(data, selectors):
    for d, s in zip(data, selectors):
        if s:
            yield d


def filterfalse(pred, it):
    for x in it:
        if pred is None:
            if not x:
                yield x
        elif not pred(x):
            yield x


def pairwise(it):
    ls = list(it)
    return iter(list(zip(ls, ls[1:])))


def tee(it, n=2):
    ls = list(it)
    return tuple([iter(ls) for _ in range(n)])


def repeat_n(x, times):
    return iter([x for _ in range(times)])


def _resolve(o, name):
    for p in name.split("."):
        o = getattr(o, p)
    return o


def attrgetter(*names):
    def get(o):
        if len(names) == 1:
            return _resolve(o, names[0])
        return tuple([_resolve(o, n) for n in names])
    return get


def itemgetter(*keys):
    def get(o):
        if len(keys) == 1:
            return o[keys[0]]
        return tuple([o[k] for k in keys])
    return get


def methodcaller(name, *args, **kw):
    def call(o):
        return getattr(o, name)(*args, **kw)
    return call


def op_contains(a, b):
    return b in a


def op_is(a, b):
    return a is b


def op_is_not(a, b):
    return a is not b


def op_setitem(o, k, v):
    o[k] = v


def op_delitem(o, k):
    del o[k]


def op_getitem(o, k):
    return o[k]


def op_iand(a, b):
    a &= b
    return a


def op_ior(a, b):
    a |= b
    return a


def op_iadd(a, b):
    a += b
    return a


def op_isub(a, b):
    a -= b
    return a


def op_imul(a, b):
    a *= b
    return a


def op_itruediv(a, b):
    a /= b
    return a


def op_truth(a):
    return bool(a)


def op_length_hint(a):
    return len(a)


def op_index(a):
    return a


def op_countOf(a, b):
    n = 0
    for x in a:
        if x == b:
            n = n + 1
    return n


def op_indexOf(a, b):
    return list(a).index(b)


def op_call(f, *args, **kw):
    return f(*args, **kw)


class SimpleNamespace:
    def __init__(self, *args, **kw):
        for a in args:
            for k in a:
                setattr(self, k, a[k])
        for k in kw:
            setattr(self, k, kw[k])

    def __eq__(self, other):
        return vars(self) == vars(other)


class ExitStack:
    def __init__(self):
        self._callbacks = []

    def enter_context(self, cm):
        v = cm.__enter__()
        self._callbacks.append((1, cm, (), {}))
        return v

    def push(self, cm):
        self._callbacks.append((1, cm, (), {}))
        return cm

    def callback(self, f, *args, **kw):
        self._callbacks.append((0, f, args, kw))
        return f

    def pop_all(self):
        new = ExitStack()
        new._callbacks = self._callbacks
        self._callbacks = []
        return new

    def close(self):
        self.__exit__(None, None, None)

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        done = False
        for kind, f, args, kw in reversed(self._callbacks):
            if kind == 1:
                if f.__exit__(et, ev, tb):
                    done = True
                    et = None
                    ev = None
                    tb = None
            else:
                f(*args, **kw)
        self._callbacks = []
        return done


class nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, *exc):
        return None


class suppress:
    def __init__(self, *excs):
        self._excs = excs

    def __enter__(self):
        return None

    def __exit__(self, et, ev, tb):
        return et is not None and issubclass(et, self._excs)


class closing:
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *exc):
        self.thing.close()


class cached_property:
    def __init__(self, func):
        self.func = func
        self.attrname = None

    def __set_name__(self, owner, name):
        self.attrname = name

    def __get__(self, instance, owner=None):
        if instance is None:
            return self
        if self.attrname not in vars(instance):
            vars(instance)[self.attrname] = self.func(instance)
        return vars(instance)[self.attrname]


class partialmethod:
    def __init__(self, func, *args, **kw):
        self.func = func
        self.args = args
        self.kw = kw

    def __get__(self, instance, owner=None):
        def call(*a, **k):
            return self.func(instance, *self.args, *a, **{**self.kw, **k})
        return call


class _Dispatcher:
    def __init__(self, func):
        self._func = func
        self._registry = []
        self.__name__ = func.__name__

    def register(self, cls, func=None):
        if func is None:
            def deco(f):
                self._registry.insert(0, (cls, f))
                return f
            return deco
        self._registry.insert(0, (cls, func))
        return func

    def dispatch(self, cls):
        best = None
        for c, f in self._registry:
            if issubclass(cls, c) and (best is None or issubclass(c, best[0])):
                best = (c, f)
        return self._func if best is None else best[1]

    def __call__(self, *args, **kw):
        best = None
        for c, f in self._registry:
            if isinstance(args[0], c) and (best is None or issubclass(c, best[0])):
                best = (c, f)
        f = self._func if best is None else best[1]
        return f(*args, **kw)


def singledispatch(func):
    return _Dispatcher(func)


def dc_fields(o):
    cls = o if isinstance(o, type) else type(o)
    return tuple([SimpleNamespace(name=n) for n in psa_dataclass_fields(cls)])


def dc_replace(o, **kw):
    d = {}
    for n in psa_dataclass_fields(type(o)):
        d[n] = getattr(o, n)
    d.update(kw)
    return type(o)(**d)


def _dc_conv(v, conv):
    if psa_is_dataclass(v):
        return conv(v)
    if isinstance(v, list):
        return [_dc_conv(x, conv) for x in v]
    if isinstance(v, tuple):
        return tuple([_dc_conv(x, conv) for x in v])
    if isinstance(v, dict):
        return {k: _dc_conv(v[k], conv) for k in v}
    return v


def dc_asdict(o, *, dict_factory=dict):
    return dict_factory([(n, _dc_conv(getattr(o, n), dc_asdict)) for n in psa_dataclass_fields(type(o))])


def dc_astuple(o, *, tuple_factory=tuple):
    return tuple_factory([_dc_conv(getattr(o, n), dc_astuple) for n in psa_dataclass_fields(type(o))])


class Counter(dict):
    def __init__(self, it=None, **kw):
        super().__init__()
        if it is not None:
            self.update(it)
        for k in kw:
            self[k] = kw[k]

    def update(self, it):
        if hasattr(it, "keys"):
            for k in it:
                self[k] = self.get(k, 0) + it[k]
        else:
            for k in it:
                self[k] = self.get(k, 0) + 1

    def __missing__(self, key):
        return 0

    def elements(self):
        for k in self:
            for _ in range(self[k]):
                yield k

    def total(self):
        n = 0
        for k in self:
            n = n + self[k]
        return n


class ChainMap:
    def __init__(self, *maps):
        self.maps = list(maps) if maps else [{}]

    def __getitem__(self, key):
        for m in self.maps:
            if key in m:
                return m[key]
        raise KeyError(key)

    def get(self, key, default=None):
        for m in self.maps:
            if key in m:
                return m[key]
        return default

    def __contains__(self, key):
        for m in self.maps:
            if key in m:
                return True
        return False

    def _merged(self):
        d = {}
        for m in reversed(self.maps):
            d.update(m)
        return d

    def __iter__(self):
        return iter(self._merged())

    def __len__(self):
        return len(self._merged())

    def keys(self):
        return self._merged().keys()

    def values(self):
        return self._merged().values()

    def items(self):
        return self._merged().items()

    def __setitem__(self, key, value):
        self.maps[0][key] = value

    def __delitem__(self, key):
        del self.maps[0][key]

    def update(self, *a, **kw):
        self.maps[0].update(*a, **kw)

    def new_child(self, m=None):
        return ChainMap({} if m is None else m, *self.maps)


class deque:
    def __init__(self, it=(), maxlen=None):
        self._l = []
        self.maxlen = maxlen
        self.extend(it)

    def _trim(self, left):
        if self.maxlen is not None and len(self._l) > self.maxlen:
            self._l.pop(0 if left else -1)

    def append(self, x):
        self._l.append(x)
        self._trim(True)

    def appendleft(self, x):
        self._l.insert(0, x)
        self._trim(False)

    def extend(self, it):
        if self.maxlen is None:
            self._l.extend(it)
        else:
            for x in it:
                self.append(x)

    def extendleft(self, it):
        for x in it:
            self.appendleft(x)

    def pop(self):
        return self._l.pop()

    def popleft(self):
        return self._l.pop(0)

    def clear(self):
        self._l.clear()

    def remove(self, x):
        self._l.remove(x)

    def rotate(self, n=1):
        for _ in range(n):
            self._l.insert(0, self._l.pop())

    def __iter__(self):
        return iter(self._l)

    def __len__(self):
        return len(self._l)

    def __contains__(self, x):
        return x in self._l

    def __getitem__(self, i):
        return self._l[i]

    def __setitem__(self, i, x):
        self._l[i] = x

    def __eq__(self, other):
        return self._l == list(other)


def mapping_proxy(d):
    return d
'''

NAMES = {
    "collections.ChainMap": "ChainMap", "collections.Counter": "Counter", "collections.deque": "deque",
    "types.SimpleNamespace": "SimpleNamespace", "types.MappingProxyType": "mapping_proxy",
    "contextlib.ExitStack": "ExitStack", "contextlib.nullcontext": "nullcontext", "contextlib.suppress": "suppress",
    "contextlib.closing": "closing",
    "functools.cached_property": "cached_property", "functools.partialmethod": "partialmethod",
    "functools.singledispatch": "singledispatch",
    "dataclasses.replace": "dc_replace", "dataclasses.asdict": "dc_asdict", "dataclasses.astuple": "dc_astuple",
    "dataclasses.fields": "dc_fields",
    "itertools.chain.from_iterable": "chain_from_iterable",
    "operator.attrgetter": "attrgetter", "operator.itemgetter": "itemgetter", "operator.methodcaller": "methodcaller",
    "operator.contains": "op_contains", "operator.is_": "op_is", "operator.is_not": "op_is_not",
    "operator.setitem": "op_setitem", "operator.delitem": "op_delitem", "operator.getitem": "op_getitem",
    "operator.iand": "op_iand", "operator.ior": "op_ior", "operator.iadd": "op_iadd", "operator.isub": "op_isub",
    "operator.imul": "op_imul", "operator.itruediv": "op_itruediv", "operator.truth": "op_truth",
    "operator.length_hint": "op_length_hint", "operator.index": "op_index", "operator.countOf": "op_countOf",
    "operator.indexOf": "op_indexOf", "operator.call": "op_call",
}
for _n in ("starmap", "islice", "product", "combinations", "permutations", "accumulate", "zip_longest", "groupby", "takewhile",
           "dropwhile", "compress", "filterfalse", "pairwise", "tee"):
    NAMES["itertools." + _n] = _n

NAME = "psa_pylib"


def setup(I):
    """load the shims (called once per scene, before anything else runs)"""
    from .terms import raw
    m = I.add_module(SOURCE, NAME)
    for n in ("psa_dataclass_fields", "psa_is_dataclass"):
        I.put(("M", NAME, n), raw("ext", n))
    I.load(NAME)
    return m


def module(I):
    return I.P.modules[NAME]


def namedtuple(I, args, kwargs):
    """collections.namedtuple: a class made for this call site"""
    from .terms import cval, is_str, const, FALSE
    kw = dict(kwargs)
    defaults = kw.get("defaults")
    name = args[0]
    spec = args[1] if len(args) > 1 else kw.get("field_names")
    if not is_str(name) or spec is None:
        return None
    if is_str(spec):
        names = cval(spec).replace(",", " ").split()
    else:
        its = I.lib.iter_items(I, spec)
        if its is None or not all(is_str(x) for _, x in its):
            return None
        names = [cval(x) for _, x in its]
    n = cval(name)
    key = (I.loc(), n, tuple(names))
    cache = I.__dict__.setdefault("_namedtuples", {})
    node = cache.get(key)
    m = module(I)
    if node is None:
        src = "class %s(NamedTupleBase):\n    _fields = (%s)\n" % (n, "".join("%r, " % x for x in names))
        tree = ast.parse(src)
        for x in ast.walk(tree):
            x._mod = NAME + ".py"
        node = tree.body[0]
        cache[key] = node
    v = I.in_module(m, node)
    if defaults is not None:
        ds = I.lib.iter_items(I, defaults)
        if ds is None:
            return None
        d = I.new_dict([(const(f), x) for f, (_, x) in zip(names[len(names) - len(ds):], ds)])
    else:
        d = I.new_dict([])
    I.put(("C", v.args[0], "_field_defaults"), d)
    return v

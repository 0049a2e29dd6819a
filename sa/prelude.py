"""parts of the standard library, as source the interpreter reads (never executed by the checks themselves)"""

SOURCE = '''
def contextmanager(f):
    def helper(*args, **kwargs):
        return __ctxmgr__(f(*args, **kwargs))
    return helper
class suppress:
    def __init__(self, *kinds):
        self.kinds = kinds
    def __enter__(self):
        return None
    def __exit__(self, kind, value, tb):
        return kind is not None and isinstance(value, self.kinds)

class nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result
    def __enter__(self):
        return self.enter_result
    def __exit__(self, kind, value, tb):
        return None

class closing:
    def __init__(self, thing):
        self.thing = thing
    def __enter__(self):
        return self.thing
    def __exit__(self, kind, value, tb):
        self.thing.close()

def repeat(object, times=None):
    for _ in range(times):
        yield object

def starmap(function, iterable):
    for x in iterable:
        yield function(*x)

def takewhile(predicate, iterable):
    for x in iterable:
        if not predicate(x):
            break
        yield x

def dropwhile(predicate, iterable):
    on = False
    for x in iterable:
        if on or not predicate(x):
            on = True
            yield x

def filterfalse(predicate, iterable):
    for x in iterable:
        if not (x if predicate is None else predicate(x)):
            yield x

def compress(data, selectors):
    for x, keep in zip(data, selectors):
        if keep:
            yield x

def zip_longest(*iterables, fillvalue=None):
    lists = [list(x) for x in iterables]
    for i in range(max([len(x) for x in lists], default=0)):
        yield tuple([x[i] if i < len(x) else fillvalue for x in lists])

def groupby(iterable, key=None):
    groups = []
    for x in iterable:
        k = x if key is None else key(x)
        if groups and groups[-1][0] == k:
            groups[-1][1].append(x)
        else:
            groups.append((k, [x]))
    for k, g in groups:
        yield k, iter(g)

def accumulate(iterable, func=None, initial=None):
    first = initial is None
    total = initial
    if not first:
        yield total
    for x in iterable:
        total = x if first else (total + x if func is None else func(total, x))
        first = False
        yield total

def tee(iterable, n=2):
    l = list(iterable)
    return tuple([iter(l) for _ in range(n)])

class deque:
    def __init__(self, iterable=(), maxlen=None):
        self._l = list(iterable)
        if maxlen is not None:
            __undecided__()
    def append(self, x):
        self._l.append(x)
    def appendleft(self, x):
        self._l.insert(0, x)
    def extend(self, xs):
        self._l.extend(xs)
    def extendleft(self, xs):
        for x in xs:
            self._l.insert(0, x)
    def pop(self):
        return self._l.pop()
    def popleft(self):
        return self._l.pop(0)
    def clear(self):
        self._l.clear()
    def remove(self, x):
        self._l.remove(x)
    def insert(self, i, x):
        self._l.insert(i, x)
    def count(self, x):
        return self._l.count(x)
    def index(self, x):
        return self._l.index(x)
    def reverse(self):
        self._l.reverse()
    def rotate(self, n=1):
        if self._l:
            n = n % len(self._l)
            self._l[:] = self._l[len(self._l) - n:] + self._l[:len(self._l) - n]
    def __len__(self):
        return len(self._l)
    def __iter__(self):
        return iter(self._l)
    def __getitem__(self, i):
        return self._l[i]
    def __setitem__(self, i, v):
        self._l[i] = v
    def __contains__(self, x):
        return x in self._l
    def __eq__(self, other):
        return isinstance(other, deque) and self._l == other._l

class NT(tuple):
    def __init__(self, *args, **kwargs):
        names = self._fields
        if len(args) > len(names):
            raise TypeError('too many arguments')
        for i, n in enumerate(names):
            if i < len(args):
                if n in kwargs:
                    raise TypeError('multiple values for argument')
                object.__setattr__(self, n, args[i])
            elif n in kwargs:
                object.__setattr__(self, n, kwargs[n])
            elif n in self._field_defaults:
                object.__setattr__(self, n, self._field_defaults[n])
            else:
                raise TypeError('missing argument')
        for n in kwargs:
            if n not in names:
                raise TypeError('unexpected argument')
    def __setattr__(self, name, value):
        raise AttributeError("can't set attribute")
    def _t(self):
        return tuple([getattr(self, n) for n in self._fields])
    def _asdict(self):
        return {n: getattr(self, n) for n in self._fields}
    def _replace(self, **kw):
        d = self._asdict()
        for k in kw:
            if k not in d:
                raise ValueError('unexpected field name')
            d[k] = kw[k]
        return type(self)(**d)
    @classmethod
    def _make(cls, it):
        return cls(*it)
    def __iter__(self):
        return iter(self._t())
    def __len__(self):
        return len(self._fields)
    def __getitem__(self, i):
        return self._t()[i]
    def __contains__(self, x):
        return x in self._t()
    def __eq__(self, other):
        return isinstance(other, tuple) and self._t() == tuple(other)
    def __lt__(self, other):
        return self._t() < tuple(other)
    def __gt__(self, other):
        return self._t() > tuple(other)
    def __le__(self, other):
        return self._t() <= tuple(other)
    def __ge__(self, other):
        return self._t() >= tuple(other)
    def __add__(self, other):
        return self._t() + tuple(other)
    def __radd__(self, other):
        return tuple(other) + self._t()
    def __bool__(self):
        return len(self._fields) > 0
    def index(self, x):
        return self._t().index(x)
    def count(self, x):
        return self._t().count(x)

def namedtuple(typename, field_names, *, rename=False, defaults=None, module=None):
    if isinstance(field_names, str):
        field_names = field_names.replace(',', ' ').split()
    names = tuple(field_names)
    d = {}
    if defaults is not None:
        defaults = list(defaults)
        for i, v in enumerate(defaults):
            d[names[len(names) - len(defaults) + i]] = v
    return type(typename, (NT,), {'_fields': names, '_field_defaults': d})

class singledispatch:
    def __init__(self, f):
        self._f = f
        self._kinds = []
    def register(self, kind, f=None):
        if f is None:
            if isinstance(kind, type):
                return lambda f: self.register(kind, f)
            __undecided__()
        self._kinds.append((kind, f))
        return f
    def dispatch(self, kind):
        __undecided__()
    def __call__(self, *args, **kw):
        best = None
        for kind, f in self._kinds:
            if isinstance(args[0], kind):
                if best is not None and issubclass(best[0], kind):
                    continue
                best = (kind, f)
        if best is None:
            return self._f(*args, **kw)
        return best[1](*args, **kw)

def trunc(x):
    return int(x)
'''

NAMES = {
    "contextlib": "suppress nullcontext closing contextmanager",
    "itertools": "repeat starmap takewhile dropwhile filterfalse compress zip_longest groupby tee accumulate",
    "collections": "deque namedtuple",
    "functools": "singledispatch",
    "math": "trunc",
}
# the class a NamedTuple is made from
EXTRA = {"collections.namedtuple.NT": "NT"}
MAP = {**EXTRA, **{m + "." + n: n for m, ns in NAMES.items() for n in ns.split()}}

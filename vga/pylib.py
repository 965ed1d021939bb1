"""Standard-library helpers given as programs of the analysed language.

They are evaluated by the same abstract semantics as the analysed code, on
containers whose length is known; with anything else the call stays
unmodelled and the verdict undecided.
"""

CONTEXTLIB = '''
class ExitStack:
    def __init__(self):
        self.todo = []
    def __enter__(self):
        return self
    def callback(self, f, *args, **kwargs):
        self.todo.append((f, args, kwargs))
        return f
    def push(self, f):
        self.todo.append((f.__exit__, (None, None, None), {}))
        return f
    def enter_context(self, cm):
        r = cm.__enter__()
        self.todo.append((cm.__exit__, (None, None, None), {}))
        return r
    def close(self):
        self.__exit__(None, None, None)
    def __exit__(self, *exc):
        while self.todo:
            f, args, kwargs = self.todo.pop()
            f(*args, **kwargs)
        return False

class closing:
    def __init__(self, thing):
        self.thing = thing
    def __enter__(self):
        return self.thing
    def __exit__(self, *exc):
        self.thing.close()

class nullcontext:
    def __init__(self, value=None):
        self.value = value
    def __enter__(self):
        return self.value
    def __exit__(self, *exc):
        return None
'''

ITERTOOLS = '''
def islice(items, *args):
    s = slice(*args)
    start = s.start or 0
    step = s.step or 1
    out = []
    for n, x in enumerate(items):
        if s.stop is not None and n >= s.stop:
            break
        if n >= start and (n - start) % step == 0:
            out.append(x)
    return iter(out)

def takewhile(f, items):
    out = []
    for x in items:
        if not f(x):
            break
        out.append(x)
    return iter(out)

def dropwhile(f, items):
    out = []
    on = False
    for x in items:
        if not on and f(x):
            continue
        on = True
        out.append(x)
    return iter(out)

def from_iterable(items):
    out = []
    for x in items:
        out.extend(x)
    return iter(out)

def zip_longest(*items, fillvalue=None):
    cols = [list(x) for x in items]
    n = max([len(c) for c in cols])
    return iter([tuple([c[i] if i < len(c) else fillvalue for c in cols]) for i in range(n)])

def combinations(items, r):
    pool = list(items)
    if r == 0:
        return iter([()])
    out = []
    for i in range(len(pool)):
        for rest in combinations(pool[i + 1:], r - 1):
            out.append((pool[i],) + rest)
    return iter(out)

def permutations(items, r=None):
    pool = list(items)
    if r is None:
        r = len(pool)
    if r == 0:
        return iter([()])
    out = []
    for i in range(len(pool)):
        for rest in permutations(pool[:i] + pool[i + 1:], r - 1):
            out.append((pool[i],) + rest)
    return iter(out)

def repeat(x, times):
    return iter([x for _ in range(times)])

def starmap(f, items):
    return iter([f(*t) for t in items])

def pairwise(items):
    pool = list(items)
    return iter([(pool[i], pool[i + 1]) for i in range(len(pool) - 1)])

def compress(items, on):
    return iter([x for x, s in zip(items, on) if s])

def groupby(items, key=None):
    out = []
    last = None
    for x in items:
        k = x if key is None else key(x)
        if out and last == k:
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
        last = k
    return iter([(k, iter(g)) for k, g in out])
'''

COLLECTIONS = '''
class deque:
    def __init__(self, items=(), maxlen=None):
        self.maxlen = maxlen
        self.items = []
        self.extend(items)
    def append(self, x):
        self.items.append(x)
        if self.maxlen is not None and len(self.items) > self.maxlen:
            self.items.pop(0)
    def appendleft(self, x):
        self.items.insert(0, x)
        if self.maxlen is not None and len(self.items) > self.maxlen:
            self.items.pop()
    def extend(self, items):
        for x in items:
            self.append(x)
    def extendleft(self, items):
        for x in items:
            self.appendleft(x)
    def pop(self):
        return self.items.pop()
    def popleft(self):
        return self.items.pop(0)
    def clear(self):
        self.items = []
    def remove(self, x):
        self.items.remove(x)
    def reverse(self):
        self.items.reverse()
    def index(self, x):
        return self.items.index(x)
    def count(self, x):
        return self.items.count(x)
    def rotate(self, n=1):
        k = n % len(self.items) if self.items else 0
        self.items = self.items[len(self.items) - k:] + self.items[:len(self.items) - k]
    def __len__(self):
        return len(self.items)
    def __iter__(self):
        return iter(list(self.items))
    def __getitem__(self, i):
        return self.items[i]
    def __setitem__(self, i, x):
        self.items[i] = x
    def __contains__(self, x):
        return x in self.items
    def __bool__(self):
        return len(self.items) > 0

class defaultdict:
    def __init__(self, default_factory=None, *args, **kwargs):
        self.default_factory = default_factory
        self.data = dict(*args, **kwargs)
    def __getitem__(self, k):
        if k not in self.data and self.default_factory is not None:
            self.data[k] = self.default_factory()
        return self.data[k]
    def __setitem__(self, k, x):
        self.data[k] = x
    def __contains__(self, k):
        return k in self.data
    def __len__(self):
        return len(self.data)
    def __bool__(self):
        return len(self.data) > 0
    def __iter__(self):
        return iter(list(self.data))
    def get(self, k, default=None):
        return self.data.get(k, default)
    def keys(self):
        return self.data.keys()
    def values(self):
        return self.data.values()
    def items(self):
        return self.data.items()
    def pop(self, *args):
        return self.data.pop(*args)
    def update(self, *args, **kwargs):
        self.data.update(*args, **kwargs)
    def setdefault(self, k, x=None):
        return self.data.setdefault(k, x)
'''

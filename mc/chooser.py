"""Controlled randomness: every outcome of the random choices a computation makes, as a stateless exploration of its choice tree.

While `controlled(ch)` is active the functions of numpy.random and random ask the chooser; real numbers in [0, 1) have two outcomes,
0 and the largest one below 1 (they are only compared with probabilities)."""
import sys, random, contextlib
import numpy as np

HIGH = 1.0 - 2.0 ** -53


class Chooser(object):
    def __init__(self, prefix, default):
        self.prefix, self.default, self.trace = prefix, default, []

    def pick(self, n):
        n = int(n)
        if n <= 1:
            if n < 1:
                raise ValueError("choice among nothing")
            return 0
        p = len(self.trace)
        k = self.prefix[p] if p < len(self.prefix) else self.default(p, n)
        if not 0 <= k < n:
            raise ValueError("a choice of the replayed prefix is out of range: the computation is not deterministic")
        self.trace.append((n, k))
        return k

    # ---- stand-ins
    def unit(self, *shape):
        if not shape or shape == (None,):
            return (0.0, HIGH)[self.pick(2)]
        s = shape[0] if len(shape) == 1 else shape
        return np.array([(0.0, HIGH)[self.pick(2)] for _ in range(int(np.prod(s)))]).reshape(s)

    def unit_size(self, size=None):
        return self.unit(size) if size is not None else self.unit()

    def uniform(self, low=0.0, high=1.0, size=None):
        # three outcomes: both ends and the middle
        one = lambda: (low, low + (high - low) * 0.5, low + (high - low) * HIGH)[self.pick(3)]
        return one() if size is None else np.array([one() for _ in range(int(np.prod(size)))]).reshape(size)

    def randint_np(self, low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        one = lambda: int(lo) + self.pick(int(hi) - int(lo))
        return one() if size is None else np.array([one() for _ in range(int(np.prod(size)))]).reshape(size)

    def choice_np(self, a, size=None, replace=True, p=None):
        pool = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if p is not None:
            pool = [v for v, q in zip(pool, p) if q > 0]
        if size is None:
            return pool[self.pick(len(pool))]
        out = []
        for _ in range(int(np.prod(size))):
            k = self.pick(len(pool))
            out.append(pool[k])
            if not replace:
                del pool[k]
        return np.array(out).reshape(size)

    def shuffle(self, x):
        for i in range(len(x) - 1, 0, -1):
            j = self.pick(i + 1)
            x[i], x[j] = (x[j].copy(), x[i].copy()) if isinstance(x, np.ndarray) and x.ndim > 1 else (x[j], x[i])

    def permutation(self, x):
        x = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        self.shuffle(x)
        return x

    def sample(self, pop, k):
        pop, out = list(pop), []
        for _ in range(k):
            out.append(pop.pop(self.pick(len(pop))))
        return out


@contextlib.contextmanager
def controlled(ch):
    new_np = dict(rand=ch.unit, random=ch.unit_size, random_sample=ch.unit_size, ranf=ch.unit_size, uniform=ch.uniform, randint=ch.randint_np, choice=ch.choice_np,
                  shuffle=ch.shuffle, permutation=ch.permutation)
    new_py = dict(random=lambda: ch.unit(), uniform=lambda a, b: ch.uniform(a, b), randint=lambda a, b: a + ch.pick(b - a + 1),
                  randrange=lambda a, b=None, s=1: (lambda r: r[ch.pick(len(r))])(range(0, a, s) if b is None else range(a, b, s)),
                  choice=lambda s: s[ch.pick(len(s))], shuffle=lambda x: ch.shuffle(x), sample=ch.sample)
    undo, swap = [], {}
    np.random.seed(1); random.seed(1)
    for mod, new in ((np.random, new_np), (random, new_py)):
        for n, f in new.items():
            old = getattr(mod, n)
            swap[id(old)] = f
            undo.append((mod, n, old))
            setattr(mod, n, f)
    # names imported into the library's modules
    for name, m in list(sys.modules.items()):
        if name.startswith("acv_explainers") and m is not None:
            for n, v in list(vars(m).items()):
                # bound methods are created on access: compare by equality with the originals
                for mod, k, old in undo[:len(new_np) + len(new_py)]:
                    if callable(v) and type(v) is type(old) and v == old:
                        undo.append((m, n, v))
                        setattr(m, n, swap[id(old)])
                        break
    try:
        yield
    finally:
        for m, n, old in reversed(undo):
            setattr(m, n, old)


POLICIES = {"first": lambda p, n: 0, "last": lambda p, n: n - 1, "mixed": lambda p, n: (p * 7 + 3) % n}


def explore(f, default="first", deviations=None, limit=None):
    """calls f() under every choice sequence (with at most so many deviations from the default policy); yields (result, choices).
    stops after `limit` runs; explore.complete tells whether everything was covered"""
    explore.complete = True
    pol = POLICIES[default]
    stack, runs = [([], 0)], 0
    while stack:
        prefix, dev = stack.pop()
        if limit is not None and runs >= limit:
            explore.complete = False
            return
        ch = Chooser(prefix, pol)
        with controlled(ch):
            r = f()
        runs += 1
        if deviations is None or dev < deviations:
            for p in range(len(prefix), len(ch.trace)):
                n, k = ch.trace[p]
                for alt in range(n):
                    if alt != k:
                        stack.append(([c for _, c in ch.trace[:p]] + [alt], dev + 1))
        yield r, [c for _, c in ch.trace]

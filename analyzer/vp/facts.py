"""What is known on a path: truth of atoms, variants of enum values, equalities and linear inequalities."""
from .terms import *


def _rank(t):
    tag = t[0]
    r = {'int': 0, 'bool': 0, 'adt': 1, 'tup': 1, 'arr': 1, 'sym': 2, 'whole': 2, 'bits': 2, 'fld': 3, 'pay': 4}.get(tag, 5)
    return (r, len(repr(t)), repr(t))


COMPLEMENT = {'Some': 'None', 'None': 'Some', 'Ok': 'Err', 'Err': 'Ok'}


class Facts:
    __slots__ = ('lits', 'var', 'lin', 'eqs', 'enums', 'log')
    # set by the interpreter: number of value bits of an unsigned atom, variants of a closed enum value
    bits_of = staticmethod(lambda a: None)
    variants_of = staticmethod(lambda t: None)

    def __init__(self):
        self.lits = {}
        self.var = {}
        self.lin = ()
        self.eqs = {}
        self.log = ()

    def copy(self):
        f = Facts()
        f.lits = dict(self.lits)
        f.var = dict(self.var)
        f.lin = self.lin
        f.eqs = self.eqs
        f.log = self.log
        return f

    # ---------------------------------------------------------------- canonical form
    def canon(self, t):
        if not self.eqs or not isinstance(t, tuple):
            return t
        return self._canon(t, {})

    def _canon(self, t, memo):
        if not isinstance(t, tuple) or not t:
            return t
        if t in memo:
            return memo[t]
        r = t
        if t in self.eqs:
            r = self._canon(self.eqs[t], memo) if self.eqs[t] != t else t
        else:
            n = tuple(self._canon(x, memo) if isinstance(x, tuple) else x for x in t)
            if n != t:
                r = n
                if n and n[0] == 'lin':
                    acc = I(n[2])
                    for a, c in n[1]:
                        acc = ladd(acc, lmul(a, c))
                    r = acc
                if r in self.eqs:
                    r = self._canon(self.eqs[r], memo)
        memo[t] = r
        return r

    # ---------------------------------------------------------------- deciding
    def variant(self, t):
        """known variant of t, or None"""
        if t[0] == 'adt':
            return t[2]
        e = self.var.get(self.canon(t))
        return e[0] if e else None

    def decide_is(self, t, v):
        t = self.canon(t)
        if t[0] == 'adt':
            return t[2] == v
        e = self.var.get(t)
        if e is None:
            return None
        pos, neg = e
        if pos is not None:
            return pos == v
        if v in neg:
            return False
        if v in COMPLEMENT and COMPLEMENT[v] in neg:
            return True
        return None

    def le(self, a, b):
        """True if a <= b is certain, False if a > b is certain"""
        a, b = self.canon(a), self.canon(b)
        if a == b:
            return True
        d, k = lin(ladd(b, a, -1))  # b - a >= 0 ?
        if self._entails(d, k):
            return True
        dn = {x: -c for x, c in d.items()}
        if self._entails(dn, -k - 1):  # a - b - 1 >= 0
            return False
        return None

    def _entails(self, d, k):
        if not d:
            return k >= 0
        if all(c >= 0 and not signed(x) for x, c in d.items()) and k >= 0:
            return True
        neg = ({x: -c for x, c in d.items()}, -k - 1)
        return infeasible(self._relevant(neg[0]) + [neg])

    def _relevant(self, d):
        atoms = set(d)
        rows = [r for r in self.lin]
        out = []
        changed = True
        pool = list(rows)
        while changed:
            changed = False
            rest = []
            for r in pool:
                if atoms & set(r[0]):
                    out.append(r)
                    if not set(r[0]) <= atoms:
                        atoms |= set(r[0])
                    changed = True
                else:
                    rest.append(r)
            pool = rest
        for a in atoms:
            if a[0] == 'whole':
                out.append(({a: -1}, (1 << a[2]) - 1))
            elif a[0] == 'bits':
                out.append(({a: -1}, (1 << len(bits_key(a))) - 1))
            elif a[0] in ('pay', 'fld', 'elem', 'sym', 'ret', 'app'):
                w = Facts.bits_of(a)
                if w:
                    out.append(({a: -1}, (1 << w) - 1))
        return out

    def decide(self, t):
        """True, False or None (unknown)"""
        t = self.canon(t)
        tag = t[0]
        if tag == 'bool':
            return t[1]
        if tag == 'not':
            r = self.decide(t[1])
            return None if r is None else not r
        if tag == 'is':
            return self.decide_is(t[1], t[2])
        if tag == 'eq':
            return self.decide_eq(t[1], t[2])
        if tag == 'lt':
            r = self.le(t[2], t[1])
            return None if r is None else not r
        if tag == 'and':
            rs = [self.decide(x) for x in t[1]]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
            return self.lits.get(t)
        if tag == 'or':
            rs = [self.decide(x) for x in t[1]]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return self.lits.get(t)
        return self.lits.get(t)

    def decide_eq(self, a, b):
        a, b = self.canon(a), self.canon(b)
        if a == b:
            return True
        if a[0] == 'ref' or b[0] == 'ref':
            return None
        if a[0] == b[0] and a[0] in ('bool', 'int', 'char', 'str'):
            return False
        if a[0] in ('int', 'bits') and b[0] in ('int', 'bits'):
            ka, kb = bits_key(a), bits_key(b)
            if ka == kb:
                return True
            n = max(len(ka), len(kb))
            ka += (0,) * (n - len(ka))
            kb += (0,) * (n - len(kb))
            if any(x in (0, 1) and y in (0, 1) and x != y for x, y in zip(ka, kb)):
                return False
        if a[0] == 'adt' and b[0] == 'adt':
            if a[2] != b[2] or (a[1] != b[1] and a[2] is None):
                return False
            fa, fb = dict(a[3]), dict(b[3])
            if set(fa) != set(fb):
                return None
            rs = [self.decide_eq(fa[k], fb[k]) for k in fa]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
            return None
        if a[0] in ('tup', 'arr') and b[0] == a[0]:
            if len(a[1]) != len(b[1]):
                return False
            rs = [self.decide_eq(x, y) for x, y in zip(a[1], b[1])]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
            return None
        for x, y in ((a, b), (b, a)):
            if x[0] == 'adt' and x[2] is None and x[3] and y[0] != 'adt':
                rs = [self.decide_eq(fv, self.canon(('fld', y, fn))) for fn, fv in x[3]]
                if all(z is True for z in rs):
                    return True
                if any(z is False for z in rs):
                    return False
            if x[0] == 'adt' and x[2] is not None:
                r = self.decide_is(y, x[2])
                if r is False:
                    return False
                if r is True:
                    rs = [self.decide_eq(fv, self.canon(('pay', y, x[2], fn))) for fn, fv in x[3]]
                    if all(z is True for z in rs):
                        return True
                    if any(z is False for z in rs):
                        return False
        va, vb = self.variant(a), self.variant(b)
        if va is not None and vb is not None and va != vb:
            return False
        k = ('eq',) + tuple(sorted((a, b), key=repr))
        if k in self.lits:
            return self.lits[k]
        if intish(a) and intish(b):
            d, c = lin(lsub(a, b))
            if not d:
                return c == 0
            if self._entails(d, c) and self._entails({x: -y for x, y in d.items()}, -c):
                return True
            if self._entails(d, c - 1) or self._entails({x: -y for x, y in d.items()}, -c - 1):
                return False
        return None

    # ---------------------------------------------------------------- assuming
    def assume(self, t, val=True):
        """facts with t known to be val, or None if that is impossible"""
        t = self.canon(t)
        d = self.decide(t)
        if d is not None:
            if d and val and t[0] == 'eq' and t[1] != t[2] and 'int' in (t[1][0], t[2][0]):
                return self.merge(t[1], t[2])       # known from inequalities: make it the canonical form
            return self if d == val else None
        f = self.copy()
        tag = t[0]
        f.log = self.log + ((t, val),)
        if tag == 'not':
            return self.assume(t[1], not val)
        if tag == 'and' and val:
            g = self
            for x in t[1]:
                g = g and g.assume(x, True)
            return g
        if tag == 'or' and not val:
            g = self
            for x in t[1]:
                g = g and g.assume(x, False)
            return g
        if tag == 'is':
            x, v = t[1], t[2]
            pos, neg = f.var.get(x, (None, frozenset()))
            if val:
                f.var[x] = (v, frozenset())
            elif v in COMPLEMENT and v != 'None':        # None is also a variant of origins
                f.var[x] = (COMPLEMENT[v], frozenset())
            else:
                neg = neg | {v}
                allv = Facts.variants_of(x)
                rest = set(allv) - neg if allv else None
                if rest is not None and not rest:
                    return None
                f.var[x] = (next(iter(rest)), frozenset()) if rest is not None and len(rest) == 1 else (None, neg)
            return f
        if tag == 'lt':
            a, b = t[1], t[2]
            if val:      # b - a - 1 >= 0
                d_, k = lin(lsub(b, a))
                f.lin = f.lin + ((d_, k - 1),)
            else:        # a - b >= 0
                d_, k = lin(lsub(a, b))
                f.lin = f.lin + ((d_, k),)
            f = f.tighten()
            d_, k = f.lin[-1]
            if len(d_) == 1 and abs(next(iter(d_.values()))) == 1 and f._entails({x: -c for x, c in d_.items()}, -k):
                # bounded from both sides by one number
                (x, c), = d_.items()
                return f.merge(x, I(-k * c))
            return f
        if tag == 'eq':
            a, b = t[1], t[2]
            k = ('eq',) + tuple(sorted((a, b), key=repr))
            f.lits[k] = val
            if val:
                return f.merge(a, b)
            for x, y in ((a, b), (b, a)):
                if x[0] == 'adt' and x[2] is not None and not x[3]:
                    f.lits.pop(k, None)
                    f.log = self.log
                    return f.assume(('is', y, 'Some'), True) if x[1] == 'Option' else f.assume(('is', y, x[2]), False)
                if x == ('int', 0) and intish(y):
                    d_, kk = lin(y)
                    f.lin = f.lin + ((d_, kk - 1),)
            return f.tighten()
        f.lits[t] = val
        return f

    def consistent(self):
        """do the facts taken so far still stand in the light of the later ones?"""
        return all(self.decide(t) in (None, v) for t, v in self.log)

    def tighten(self):
        """a <> b together with a <= b is a < b"""
        changed = True
        n = 0
        while changed and n < 5:
            changed = False
            n += 1
            for k, v in self.lits.items():
                if v or k[0] != 'eq':
                    continue
                a, b = k[1], k[2]
                if not (intish(a) and intish(b)):
                    continue
                d, c = lin(lsub(a, b))
                for dd, cc in ((d, c), ({x: -y for x, y in d.items()}, -c)):
                    if self._entails(dd, cc) and not self._entails(dd, cc - 1):
                        self.lin = self.lin + ((dd, cc - 1),)
                        changed = True
        return self

    def merge(self, a, b):
        if a == b:
            return self
        # structural decomposition
        if a[0] == 'adt' and b[0] == 'adt':
            if a[2] != b[2]:
                return None
            f = self
            fa, fb = dict(a[3]), dict(b[3])
            for k in fa:
                if k in fb:
                    f = f and f.assume(('eq', fa[k], fb[k]), True)
            return f
        if a[0] in ('tup', 'arr') and b[0] == a[0]:
            if len(a[1]) != len(b[1]):
                return None
            f = self
            for x, y in zip(a[1], b[1]):
                f = f and f.assume(('eq', x, y), True)
            return f
        f = self.copy()
        for x, y in ((a, b), (b, a)):
            if x[0] == 'adt' and x[2] is not None:
                f = f.assume(('is', y, x[2]), True)
                if f is None:
                    return None
                for fn, fv in x[3]:
                    f = f.assume(('eq', fv, ('pay', y, x[2], fn)), True)
                    if f is None:
                        return None
                return f
        if intish(a) and intish(b):
            d, k = lin(lsub(a, b))
            f.lin = f.lin + ((d, k), ({x: -y for x, y in d.items()}, -k))
            if a[0] in ('lin',) or b[0] in ('lin',):
                if len(d) == 1 and abs(next(iter(d.values()))) == 1:
                    (x, c), = d.items()
                    return f.merge(x, I(-k * c))
                return f
        if _rank(b) < _rank(a):
            a, b = b, a
        # b becomes a
        if occurs(b, a):
            return f
        f.eqs = dict(f.eqs)
        f.eqs[b] = a
        # re-key
        lits = {}
        for k, v in f.lits.items():
            ck = f.canon(k)
            if ck[0] == 'eq':
                if ck[1] == ck[2]:
                    if not v:
                        return None
                    continue
                ck = ('eq',) + tuple(sorted(ck[1:], key=repr))
            if ck in lits and lits[ck] != v:
                return None
            lits[ck] = v
        f.lits = lits
        var = {}
        for k, (pos, neg) in f.var.items():
            ck = f.canon(k)
            if ck[0] == 'adt':
                if pos is not None and ck[2] != pos:
                    return None
                if ck[2] in neg:
                    return None
                continue
            if ck in var:
                p2, n2 = var[ck]
                if pos and p2 and pos != p2:
                    return None
                pos = pos or p2
                neg = neg | n2
                if pos in neg:
                    return None
            var[ck] = (pos, neg)
        f.var = var
        rows = []
        for d, k in f.lin:
            acc = I(k)
            for x, c in d.items():
                acc = ladd(acc, lmul(f.canon(x), c))
            rows.append(lin(acc))
        f.lin = tuple(rows)
        return f


def occurs(x, t):
    if x == t:
        return True
    return isinstance(t, tuple) and any(occurs(x, y) for y in t if isinstance(y, tuple))


def intish(t):
    return t[0] in ('int', 'lin', 'bits', 'whole', 'sym', 'fld', 'pay', 'elem', 'app', 'ret', 'len', 'sum', 'acc')

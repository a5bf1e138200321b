"""Abstract values and the domains they live in.

An abstract value is an immutable tuple whose first element is its tag:

  ('int', n)                      known integer
  ('bits', ty, (b0, b1, ...))     integer whose bits are known, each 0, 1 or (source, i): "bit i of source"
  ('lin', ((atom, c), ...), k)    linear combination of atoms
  ('bool', b)                     known truth value
  ('tup', (v, ...))               tuple
  ('arr', (v, ...))               array, vector or slice of known length
  ('seq', (seg, ...))             byte or character sequence made of segments (see seqs.py)
  ('adt', type, variant, ((field, v), ...))
  ('sym', name, ty)               unknown input
  ('fld', v, name)                field of an unknown value
  ('pay', v, variant, field)      payload of an unknown enum value known to be that variant
  ('elem', v, i)                  element of an unknown sequence
  ('app', f, (v, ...))            result of a pure function we do not look into
  ('ret', id, f, (v, ...))        result of an effectful call
  ('ref', addr, proj)             mutable reference to a place
  ('clo', id)                     closure
  ('fn', ...)                     function item
"""

UNIT = ('tup', ())
TRUE = ('bool', True)
FALSE = ('bool', False)
NONE = ('adt', 'Option', 'None', ())

WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64,
         'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}


def some(v):
    return ('adt', 'Option', 'Some', (('0', v),))


def ok(v=UNIT):
    return ('adt', 'Result', 'Ok', (('0', v),))


def err(v):
    return ('adt', 'Result', 'Err', (('0', v),))


def I(n):
    return ('int', n)


def B(b):
    return TRUE if b else FALSE


def app(f, *args):
    return ('app', f, tuple(args))


def sym(name, ty=None):
    return ('sym', name, ty)


def is_adt(v, variant=None):
    return v[0] == 'adt' and (variant is None or v[2] == variant)


def fields(v):
    return dict(v[3])


# ------------------------------------------------------------------ bits
def sym_bits(name, ty, width=None):
    """An unknown integer of type ty; only the low `width` bits can be set."""
    w = WIDTH[ty]
    width = w if width is None else width
    return ('bits', ty, tuple((name, i) if i < width else 0 for i in range(w)))


def int_bits(v, ty):
    """bits of v as a ty (extended or truncated), or None"""
    w = WIDTH[ty]
    if v[0] == 'int':
        n = v[1]
        return tuple((n >> i) & 1 for i in range(w))
    if v[0] == 'bits':
        b = v[2]
        return (b + ((b[-1] if v[1][0] == 'i' and b else 0),) * w)[:w]
    if v[0] == 'bool':
        return ((1 if v[1] else 0),) + (0,) * (w - 1)
    return None


def mk_bits(ty, bits):
    bits = tuple(bits)
    if all(b in (0, 1) and not isinstance(b, tuple) for b in bits):
        n = sum(b << i for i, b in enumerate(bits))
        if ty[0] == 'i' and bits and bits[-1] == 1:
            n -= 1 << len(bits)
        return ('int', n)
    return ('bits', ty, bits)


def bits_key(v):
    """significant bits, so that zero-extension does not matter"""
    if v[0] == 'int':
        n = v[1]
        out = []
        if n < 0:
            return ('negative', n)
        while n:
            out.append(n & 1)
            n >>= 1
        return tuple(out)
    b = list(v[2])
    if v[1][0] == 'i' and b and b[-1] != 0:
        return tuple(b) + ('signed',)
    while b and b[-1] == 0:
        b.pop()
    return tuple(b)


# ------------------------------------------------------------------ linear forms
def lin(v):
    """(dict atom -> coefficient, constant)"""
    if v[0] == 'int':
        return {}, v[1]
    if v[0] == 'lin':
        return dict(v[1]), v[2]
    if v[0] == 'bits':
        src = whole(v)
        if src is not None:
            return {src: 1}, 0
    return {v: 1}, 0


def whole(v):
    """('whole', source, n) if the integer is exactly bits 0..n of one source"""
    b = bits_key(v)
    if b and all(isinstance(x, tuple) and x[0] == b[0][0] and x[1] == i for i, x in enumerate(b)):
        return ('whole', b[0][0], len(b))
    return None


def signed(v):
    return v[0] == 'bits' and v[1][0] == 'i' and v[2][-1] != 0


def mk_lin(d, k):
    items = tuple(sorted(((a, c) for a, c in d.items() if c != 0), key=repr))
    if not items:
        return ('int', k)
    if len(items) == 1 and items[0][1] == 1 and k == 0:
        return items[0][0]
    return ('lin', items, k)


def ladd(a, b, sign=1):
    da, ka = lin(a)
    db, kb = lin(b)
    d = dict(da)
    for x, c in db.items():
        d[x] = d.get(x, 0) + sign * c
    return mk_lin(d, ka + sign * kb)


def lsub(a, b):
    return ladd(a, b, -1)


def lmul(a, n):
    d, k = lin(a)
    return mk_lin({x: c * n for x, c in d.items()}, k * n)


def lsum(vs):
    out = I(0)
    for v in vs:
        out = ladd(out, v)
    return out


# ------------------------------------------------------------------ emptiness of a system of linear inequalities
def infeasible(sys):
    """sys: list of (dict, k) each meaning sum + k >= 0, over integers >= 0 (atoms are unsigned).

    Fourier-Motzkin elimination over the rationals: True only if there is certainly no solution."""
    rows = []
    atoms = set()
    for d, k in sys:
        d = {a: c for a, c in d.items() if c}
        if not d:
            if k < 0:
                return True
            continue
        rows.append((d, k))
        atoms |= set(d)
    # keep only what is connected; add non-negativity
    for a in atoms:
        if not signed(a):
            rows.append(({a: 1}, 0))
    atoms = sorted(atoms, key=repr)
    while atoms:
        best = None
        for a in atoms:
            pos = sum(1 for d, k in rows if d.get(a, 0) > 0)
            neg = sum(1 for d, k in rows if d.get(a, 0) < 0)
            cost = pos * neg - pos - neg
            if best is None or cost < best[0]:
                best = (cost, a)
        a = best[1]
        atoms.remove(a)
        P = [(d, k) for d, k in rows if d.get(a, 0) > 0]
        N = [(d, k) for d, k in rows if d.get(a, 0) < 0]
        rest = [(d, k) for d, k in rows if d.get(a, 0) == 0]
        seen = set()
        for dp, kp in P:
            for dn, kn in N:
                cp, cn = dp[a], -dn[a]
                d = {}
                for x, c in dp.items():
                    if x != a:
                        d[x] = d.get(x, 0) + c * cn
                for x, c in dn.items():
                    if x != a:
                        d[x] = d.get(x, 0) + c * cp
                d = {x: c for x, c in d.items() if c}
                k = kp * cn + kn * cp
                if not d:
                    if k < 0:
                        return True
                    continue
                key = (tuple(sorted(d.items(), key=repr)), k)
                if key not in seen:
                    seen.add(key)
                    rest.append((d, k))
        rows = rest
        if len(rows) > 400:
            return False
    return False


# ------------------------------------------------------------------ printing
def show(v, depth=0):
    if not isinstance(v, tuple) or not v:
        return str(v)
    if depth > 8:
        return '…'
    d = depth + 1
    t = v[0]
    if t == 'int':
        return str(v[1])
    if t == 'bool':
        return str(v[1]).lower()
    if t == 'bits':
        w = whole(v)
        if w:
            return '%s' % (show(w[1], d) if isinstance(w[1], tuple) else w[1])
        return 'bits[' + ' '.join(_bits(v[2])) + ']'
    if t == 'lin':
        s = ' + '.join(('%s*' % c if c != 1 else '') + show(a, d) for a, c in v[1])
        return '(' + s + (' + %s' % v[2] if v[2] else '') + ')'
    if t == 'tup':
        return '(' + ', '.join(show(x, d) for x in v[1]) + ')'
    if t == 'arr':
        return '[' + ', '.join(show(x, d) for x in v[1]) + ']'
    if t == 'adt':
        n = v[2] or v[1]
        if not v[3]:
            return str(n).split('::')[-1]
        if v[3][0][0] == '0':
            return str(n).split('::')[-1] + '(' + ', '.join(show(x, d) for _, x in v[3]) + ')'
        return str(n).split('::')[-1] + '{' + ', '.join('%s: %s' % (k, show(x, d)) for k, x in v[3]) + '}'
    if t == 'sym':
        return str(v[1])
    if t == 'fld':
        return show(v[1], d) + '.' + v[2]
    if t == 'pay':
        return show(v[1], d) + '~' + str(v[2]) + ('' if v[3] in ('0', None) else '.' + str(v[3]))
    if t == 'elem':
        return show(v[1], d) + '[' + (show(v[2], d) if isinstance(v[2], tuple) else str(v[2])) + ']'
    if t == 'app':
        return str(v[1]) + '(' + ', '.join(show(x, d) for x in v[2]) + ')'
    if t == 'ret':
        return str(v[2]) + '#' + str(v[1]) + '(' + ', '.join(show(x, d) for x in v[3]) + ')'
    if t == 'whole':
        return show(v[1], d)
    if t in ('enc', 'dec'):
        return t + '<' + ' ++ '.join(show_seg(x, d) for x in v[1]) + '>'
    if not isinstance(t, str):
        return '(' + ', '.join(show(x, d) for x in v) + ')'
    if t == 'seq':
        return 'seq<' + ' ++ '.join(show_seg(x, d) for x in v[1]) + '>'
    return t + '(' + ', '.join(show(x, d) if isinstance(x, tuple) else str(x) for x in v[1:]) + ')'


def show_seg(s, d):
    if s[0] == 'vals':
        if all(x[0] == 'int' for x in s[1]):
            return repr(bytes(x[1] & 255 for x in s[1]))
        return '[' + ', '.join(show(x, d) for x in s[1]) + ']'
    if s[0] == 'part':
        return '%s[%s..%s]' % (show(s[1], d), show(s[2], d), show(s[3], d))
    if s[0] == 'fill':
        return '%s;%s' % (show(s[1], d), show(s[2], d))
    return str(s)


def _bits(bs):
    out = []
    i = 0
    while i < len(bs):
        b = bs[i]
        if isinstance(b, tuple):
            j = i
            while j + 1 < len(bs) and isinstance(bs[j + 1], tuple) and bs[j + 1] == (b[0], b[1] + (j + 1 - i)):
                j += 1
            n = show(b[0]) if isinstance(b[0], tuple) else str(b[0])
            out.append('%s.%d..%d' % (n, b[1], bs[j][1]))
            i = j + 1
        else:
            j = i
            while j + 1 < len(bs) and bs[j + 1] == b:
                j += 1
            out.append('%d*%d' % (b, j - i + 1))
            i = j + 1
    return out


ANY_DEFAULT = ('conv', 'default', UNIT)     # the default of a type not told yet


def zero(v):
    """where an amount is meant, the default of a type not told yet is zero"""
    return I(0) if v == ANY_DEFAULT else v

"""What the standard library (and the few external crates the common crate uses) does to abstract values."""
from .terms import *
from .facts import intish
from . import prog as P

U = lambda n: ('t', n, ())
JUNCTION = U('Junction')

EXT_ENUMS = {
    'Option': {'Some': [None], 'None': []},
    'Result': {'Ok': [None], 'Err': [None]},
    'Ordering': {'Less': [], 'Equal': [], 'Greater': []},
    'Junction': {
        'Parachain': [U('u32')], 'AccountId32': {'network': None, 'id': None}, 'AccountIndex64': {'network': None, 'index': U('u64')},
        'AccountKey20': {'network': None, 'key': None}, 'PalletInstance': [U('u8')], 'GeneralIndex': [U('u128')],
        'GeneralKey': {'length': U('u8'), 'data': None}, 'OnlyChild': [],
        'Plurality': {'id': U('BodyId'), 'part': U('BodyPart')}, 'GlobalConsensus': [U('NetworkId')],
    },
    'NetworkId': {
        'ByGenesis': [None], 'ByFork': {'block_number': U('u64'), 'block_hash': None}, 'Polkadot': [], 'Kusama': [],
        'Westend': [], 'Rococo': [], 'Wococo': [], 'Ethereum': {'chain_id': U('u64')}, 'BitcoinCore': [],
        'BitcoinCash': [], 'PolkadotBulletin': [],
    },
    'AssetFilter': {'Definite': [U('Assets')], 'Wild': [U('WildAsset')]},
    'WildAsset': {'All': [], 'AllOf': {'id': None, 'fun': U('WildFungibility')}, 'AllCounted': [U('u32')], 'AllOfCounted': {'id': None, 'fun': U('WildFungibility'), 'count': U('u32')}},
    'WildFungibility': {'Fungible': [], 'NonFungible': []},
    'TypeDefPrimitive': {k: [] for k in 'Bool Char Str U8 U16 U32 U64 U128 U256 I8 I16 I32 I64 I128 I256'.split()},
    'BodyId': {'Unit': [], 'Moniker': [None], 'Index': [U('u32')], 'Executive': [], 'Technical': [], 'Legislative': [],
               'Judicial': [], 'Defense': [], 'Administration': [], 'Treasury': []},
    'BodyPart': {'Voice': [], 'Members': {'count': U('u32')}, 'Fraction': {'nom': U('u32'), 'denom': U('u32')},
                 'AtLeastProportion': {'nom': U('u32'), 'denom': U('u32')}, 'MoreThanProportion': {'nom': U('u32'), 'denom': U('u32')}},
}
CLOSED = {'Option', 'Result', 'Ordering'}
JUNCTIONS = {'X1', 'X2', 'X3', 'X4', 'X5', 'X6', 'X7', 'X8'}

IDENT_METHODS = {'clone', 'cloned', 'copied', 'to_owned', 'borrow', 'as_ref', 'as_mut', 'deref', 'by_ref', 'iter_ref', 'as_slice',
                 'as_mut_slice', 'as_bytes', 'as_str', 'into_boxed_slice', 'to_vec', 'into_vec', 'into_inner', 'as_mut_ptr_range',
                 'into_bytes', 'into_boxed_str', 'as_mut_str', 'borrow_mut', 'to_string_lossy', 'into_string', 'as_array',
                 'into_owned', 'as_deref', 'to_ne_order'}

INTS = set(WIDTH)


def V(v, st):
    return [('v', v, st)]


def tname(t):
    return t[1] if t and t[0] == 't' else None


def unraw(base):
    return base[1] if base[0] == 'raw' else base


def unraw_segs(segs):
    return tuple(('part', s[1][1], s[2], s[3]) if s[0] == 'part' and s[1][0] == 'raw' else s for s in segs)


INPLACE = {'saturating_accrue': 'saturating_add', 'saturating_reduce': 'saturating_sub', 'saturating_inc': 'saturating_add', 'saturating_dec': 'saturating_sub',
           'defensive_saturating_accrue': 'saturating_add', 'defensive_saturating_reduce': 'saturating_sub', 'add_assign': 'add', 'sub_assign': 'sub', 'mul_assign': 'mul'}
SAME_INT = {'saturating_add', 'saturating_sub', 'saturating_mul', 'wrapping_add', 'wrapping_sub', 'wrapping_mul', 'min', 'max', 'pow', 'abs_diff',
            'clone', 'to_owned', 'add', 'sub', 'mul', 'div', 'rem'}


class Std:
    TRAITS = {'Into', 'From', 'TryFrom', 'TryInto', 'Clone', 'AsRef', 'PartialEq', 'Eq', 'Ord', 'PartialOrd', 'Display', 'Debug',
              'FromStr', 'Default', 'Encode', 'Iterator', 'IntoIterator', 'ToString', 'Borrow', 'Saturating', 'Zero', 'Write', 'Add', 'Sub'}

    def __init__(self, I_):
        self.I = I_

    @property
    def strict(self):
        m = self.I.model
        return bool(m and getattr(m, 'strict', False))

    # ---------------------------------------------------------------- sequences
    def lit_str(self, bs):
        return ('seq', (('vals', tuple(I(b) for b in bs)),) if bs else ())

    def byte(self, base, i):
        base = unraw(base)
        return ('bits', 'u8', tuple(((('byte', base, i)), k) for k in range(8)))

    def base_len(self, base):
        if base[0] == 'raw':
            return self.base_len(base[1])
        if base[0] == 'seqv':
            return self.segs_len(base[1])
        if base[0] == 'sym' and base[2] and base[2][0] == 'arr' and str(base[2][2]).isdigit():
            return I(int(base[2][2]))
        return ('len', base)

    def as_seq(self, v, st=None):
        """segments of a byte or character sequence, or None"""
        t = v[0]
        if t == 'seq':
            return v[1]
        if t == 'arr':
            return (('vals', v[1]),) if v[1] else ()
        if t == 'char':
            return (('vals', tuple(I(b) for b in v[1].encode())),)
        if t in ('sym', 'enc', 'dec', 'fld', 'pay', 'elem', 'app', 'ret', 'text', 'opaque', 'raw', 'seqv'):
            return (('part', v, I(0), self.base_len(v)),)
        return None

    def norm(self, segs, st):
        """canonical segments"""
        f = st.facts
        out = []
        for s in segs:
            if s[0] == 'vals':
                for x in s[1]:
                    src = None
                    if x[0] == 'bits':
                        w = whole(x)
                        if w and w[2] == 8 and w[1][0] == 'byte':
                            src = w[1]
                    if src and src[2][0] in ('int', 'lin', 'len', 'app', 'sym'):
                        b = ('part', ('raw', src[1]) if self.is_text(src[1]) else src[1], src[2], ladd(src[2], I(1)))
                        self._push(out, b, f)
                    else:
                        self._push(out, ('vals', (x,)), f)
            else:
                self._push(out, s, f)
        # a sequence seen byte by byte and put together again
        for i, s in enumerate(out):
            if s[0] == 'part' and s[1][0] == 'seqv' and s[2] == I(0) and f.decide_eq(s[3], self.segs_len(s[1][1])) is True:
                return self.norm(tuple(out[:i]) + s[1][1] + tuple(out[i + 1:]), st)
        return tuple(out)

    def _push(self, out, s, f):
        if s[0] == 'part':
            a, b = f.canon(s[2]), f.canon(s[3])
            s = ('part', s[1], a, b)
            if a == b or f.decide_eq(a, b) is True:
                return
            if out and out[-1][0] == 'part' and unraw(out[-1][1]) == unraw(s[1]) and (out[-1][3] == a or f.decide_eq(out[-1][3], a) is True):
                out[-1] = ('part', s[1] if s[1][0] == 'raw' else out[-1][1], out[-1][2], b)
                return
        if s[0] == 'fill':
            n = f.canon(s[2])
            if n == I(0) or f.decide_eq(n, I(0)) is True:
                return
            if n[0] == 'int' and n[1] <= 64:
                for _ in range(n[1]):
                    self._push(out, ('vals', (s[1],)), f)
                return
        if s[0] == 'vals':
            if not s[1]:
                return
            if out and out[-1][0] == 'vals':
                out[-1] = ('vals', out[-1][1] + s[1])
                return
        out.append(s)

    def seg_len(self, s):
        if s[0] == 'vals':
            return I(len(s[1]))
        if s[0] == 'part':
            return lsub(s[3], s[2])
        return s[2]

    def segs_len(self, segs):
        return lsum(self.seg_len(s) for s in segs)

    def length(self, v, st):
        v = self.I.rv(v, st)
        if v[0] == 'arr':
            return I(len(v[1]))
        if v[0] == 'iter':
            return I(len(v[1]))
        if v[0] == 'seq':
            return self.segs_len(v[1])
        s = self.as_seq(v, st)
        if s is not None:
            return self.segs_len(s)
        return ('len', v)

    def mk_seq(self, segs, st):
        segs = self.norm(segs, st)
        if len(segs) == 1 and segs[0][0] == 'part' and segs[0][2] == I(0) and segs[0][3] == self.base_len(segs[0][1]):
            return segs[0][1] if segs[0][1][0] not in ('enc', 'dec', 'raw', 'seqv') else ('seq', segs)
        if len(segs) == 1 and segs[0][0] == 'vals':
            return ('arr', segs[0][1])
        if not segs:
            return ('arr', ())
        # known total length: spell out the elements
        n = st.facts.canon(self.segs_len(segs))
        return ('seq', segs)

    def elems(self, v, st):
        """list of element values when the length is a known constant, else None"""
        v = self.I.rv(v, st)
        if v[0] in ('arr', 'iter'):
            return list(v[1])
        if v[0] == 'range':
            a, b = v[1], v[2]
            if a and b and a[0] == 'int' and b[0] == 'int':
                hi = b[1] + (1 if v[3] else 0)
                if hi - a[1] <= 4096:
                    return [I(x) for x in range(a[1], hi)]
            return None
        if v[0] == 'adt' and v[1] == 'Option':
            return [x for _, x in v[3]] if v[2] == 'Some' else []
        segs = self.as_seq(v, st)
        if segs is None:
            return None
        n = self.const(self.segs_len(segs), st)
        if n is None or n > 4096:
            return None
        out = []
        for s in segs:
            if s[0] == 'vals':
                out += list(s[1])
            elif s[0] == 'fill':
                m = self.const(s[2], st)
                if m is None:
                    return self.blur(segs, n, st)
                out += [s[1]] * m
            else:
                m = self.const(lsub(s[3], s[2]), st)
                if m is None:
                    return self.blur(segs, n, st)
                for i in range(m):
                    out.append(self.byte_of(s[1], ladd(s[2], I(i))))
        return out

    def blur(self, segs, n, st):
        """single bytes of a sequence whose total length is known but whose inner boundaries are not"""
        base = ('seqv', unraw_segs(self.norm(segs, st)))
        return [self.byte(base, I(i)) for i in range(n)]

    def raw_bytes(self, v, st):
        """the bytes of a text: slicing them needs no character boundary"""
        segs = self.as_seq(v, st)
        if segs is None or not self.is_text_seq(v):
            return v
        return ('seq', tuple(('part', ('raw', s[1]), s[2], s[3]) if s[0] == 'part' and self.is_text(s[1]) else s for s in segs))

    def as_text(self, v, st):
        """bytes known to be text, as text again"""
        if v[0] == 'seq' and any(s[0] == 'part' and s[1][0] == 'raw' for s in v[1]):
            return self.mk_seq(unraw_segs(v[1]), st)
        return v

    def const(self, t, st):
        t = st.facts.canon(t)
        if t[0] == 'int':
            return t[1]
        # pinned by inequalities?
        return None

    def byte_of(self, base, i):
        ty = self.I.typeof(base)
        if base[0] in ('enc', 'dec', 'text') or ty is None or is_bytes(ty):
            return self.byte(base, i)
        e = ('elem', base, i)
        if ty and ty[0] in ('sl', 'arr'):
            self.I.note_type(e, ty[1])
        elif ty and ty[0] == 't' and ty[1] in ('Vec', 'BoundedVec', 'BTreeSet', 'VecDeque') and ty[2]:
            self.I.note_type(e, ty[2][0])
        return e

    def index(self, v, i, st):
        """element i (bounds already checked)"""
        v = self.I.rv(v, st)
        if v[0] in ('arr', 'iter') and i[0] == 'int':
            return v[1][i[1]] if 0 <= i[1] < len(v[1]) else self.I.opaque('index out of range')
        segs = self.as_seq(v, st)
        if segs is not None and v[0] != 'arr':
            pos = I(0)
            for s in segs:
                end = ladd(pos, self.seg_len(s))
                lo = st.facts.le(pos, i)
                hi = st.facts.le(ladd(i, I(1)), end)
                if lo is True and hi is True:
                    if s[0] == 'part':
                        return self.byte_of(s[1], st.facts.canon(ladd(s[2], lsub(i, pos))))
                    if s[0] == 'fill':
                        return s[1]
                    off = st.facts.canon(lsub(i, pos))
                    if off[0] == 'int':
                        return s[1][off[1]]
                    break
                if hi is None:
                    break
                pos = end
        return ('elem', v, i)

    def set_index(self, v, i, new, st):
        if v[0] == 'arr' and i[0] == 'int' and i[1] < len(v[1]):
            l = list(v[1])
            l[i[1]] = new
            return ('arr', tuple(l))
        r = self.set_slice(v, i, ladd(i, I(1)), ('arr', (new,)), st)
        return r if r is not None else self.I.opaque('element write')

    def split_at(self, segs, k, st):
        """segments before and after position k, or None when undecided"""
        f = st.facts
        pos = I(0)
        pre = []
        for n, s in enumerate(segs):
            ln = self.seg_len(s)
            end = f.canon(ladd(pos, ln))
            if f.decide_eq(k, pos) is True or k == pos:
                return tuple(pre), tuple(segs[n:])
            ge = f.le(end, k)
            if ge is True:
                pre.append(s)
                pos = end
                continue
            if f.le(pos, k) is True and f.le(k, end) is True:
                off = f.canon(lsub(k, pos))
                if s[0] == 'vals':
                    if off[0] != 'int':
                        return None
                    return tuple(pre) + (('vals', s[1][:off[1]]),), (('vals', s[1][off[1]:]),) + tuple(segs[n + 1:])
                if s[0] == 'part':
                    m = f.canon(ladd(s[2], off))
                    return tuple(pre) + (('part', s[1], s[2], m),), (('part', s[1], m, s[3]),) + tuple(segs[n + 1:])
                return tuple(pre) + (('fill', s[1], off),), (('fill', s[1], lsub(s[2], off)),) + tuple(segs[n + 1:])
            # a constant-filled block can be split at an unknown offset when all values are equal
            if s[0] == 'vals' and len(set(s[1])) == 1 and f.le(pos, k) is True and n == len(segs) - 1:
                segs = tuple(segs[:n]) + (('fill', s[1][0], ln),)
                return self.split_at(segs, k, st)
            return None
        if f.decide_eq(k, pos) is True or k == pos:
            return tuple(pre), ()
        return None

    def fillify(self, segs):
        """runs of one value as fillings, which can be cut at unknown places"""
        out = []
        for s in segs:
            if s[0] != 'vals':
                out.append(s)
                continue
            vs, i = s[1], 0
            while i < len(vs):
                j = i
                while j < len(vs) and vs[j] == vs[i]:
                    j += 1
                if j - i > 1:
                    out.append(('fill', vs[i], I(j - i)))
                elif out and out[-1][0] == 'vals':
                    out[-1] = ('vals', out[-1][1] + (vs[i],))
                else:
                    out.append(('vals', (vs[i],)))
                i = j
        return tuple(out)

    def slice(self, v, a, b, st):
        v = self.I.rv(v, st)
        if v[0] == 'arr' and a[0] == 'int' and b[0] == 'int':
            return ('arr', v[1][a[1]:b[1]])
        segs = self.as_seq(v, st)
        if segs is None:
            return ('app', 'slice', (v, a, b))
        for attempt in (segs, self.fillify(segs)):
            r = self.split_at(attempt, b, st)
            if r is None:
                continue
            r2 = self.split_at(r[0], a, st)
            if r2 is None:
                continue
            return self.mk_seq(r2[1], st)
        # inner boundaries unknown: a part of the whole
        if len(segs) > 1 and v[0] == 'seq' and all(s[0] == 'part' or s[0] == 'fill' or s[0] == 'vals' for s in segs):
            return ('seq', (('part', ('seqv', unraw_segs(self.norm(segs, st))), a, b),))
        return None

    def set_slice(self, v, a, b, new, st):
        v = self.I.rv(v, st)
        segs = self.as_seq(v, st)
        ns = self.as_seq(self.I.rv(new, st), st)
        if segs is None or ns is None:
            return None
        for attempt in (segs, self.fillify(segs)):
            r = self.split_at(attempt, b, st)
            if r is None:
                continue
            r2 = self.split_at(r[0], a, st)
            if r2 is None:
                continue
            out = self.norm(tuple(r2[0]) + tuple(ns) + tuple(r[1]), st)
            if len(out) == 1 and out[0][0] == 'vals':
                return ('arr', out[0][1])
            if out and all(self.const(self.seg_len(x), st) is not None for x in out) and v[0] == 'arr' and len(v[1]) <= 8:
                el = self.elems(('seq', out), st)
                if el is not None:
                    return ('arr', tuple(el))
            return ('seq', out) if out else ('arr', ())
        return None

    def range_bounds(self, r, ln):
        a = r[1] if r[1] is not None else I(0)
        b = r[2] if r[2] is not None else ln
        if r[3] and r[2] is not None:
            b = ladd(b, I(1))
        return a, b

    def is_text(self, v):
        """is a char-boundary check needed when slicing v?"""
        if v[0] in ('raw', 'seqv'):
            return False
        t = self.I.typeof(v)
        return v[0] == 'text' or (t is not None and tname(t) in ('str', 'String'))

    def ascii_at(self, base, k, st):
        """is byte k of a base certainly ASCII (or its end)?"""
        if base[0] == 'enc' or st.facts.lits.get(('ascii', unraw(base))) is True:
            return True
        if base[0] == 'seqv':
            return all(self.ascii_seg(s, st) is True for s in base[1])
        for l, val in st.facts.lits.items():
            if val and l[0] == 'asciipart' and l[1][1] == unraw(base) and st.facts.le(l[1][2], k) is True and st.facts.le(k, l[1][3]) is True:
                return True
        return False

    def boundary_ok(self, v, segs, k, st):
        """True when position k is certainly between characters (or v is not text / is ASCII)"""
        if segs and all(self.ascii_seg(s, st) is True for s in segs):
            return True
        r = self.split_at(segs, k, st) or self.split_at(self.fillify(segs), k, st)
        if r is None:
            return False
        pre, post = r
        pre = [s for s in pre if self.seg_len(s) != I(0)]
        post = [s for s in post if self.seg_len(s) != I(0)]
        if not pre or not post:
            return True
        s, t = pre[-1], post[0]
        for seg in (t,):
            if seg[0] == 'vals' and seg[1][0][0] == 'int' and (seg[1][0][1] & 0xC0) != 0x80:
                return True
            if seg[0] == 'part':
                if self.ascii_at(seg[1], seg[2], st):
                    return True
                if seg[2] == I(0) or seg[2] in st.glob.get('bounds', {}).get(seg[1], ()):
                    return True
                if st.facts.decide_eq(seg[2], self.base_len(seg[1])) is True:
                    return True
        return False

    def check_range(self, v, r, st, node):
        """-> [(a, b, st)], panics"""
        ln = self.length(v, st)
        a, b = self.range_bounds(r, ln)
        out, bad = [], []
        oks, p = self.I.require(st, ('not', ('lt', b, a)), 'slice index starts after its end', node) if r[1] is not None and r[2] is not None else ([st], [])
        bad += p
        for s in oks:
            lim = b if r[2] is not None else a
            oks2, p = self.I.require(s, ('not', ('lt', ln, lim)), 'slice index out of range', node)
            bad += p
            for s2 in oks2:
                out.append((s2.facts.canon(a), s2.facts.canon(b), s2))
        if self.is_text_seq(v):
            segs = self.as_seq(v)
            keep = []
            for a2, b2, s2 in out:
                good = [s2]
                for k in (a2, b2):
                    ng = []
                    for g in good:
                        if self.boundary_ok(v, segs, k, g):
                            ng.append(g)
                        else:
                            oks3, p = self.I.require(g, ('boundary', v, k), 'byte index is not a character boundary', node)
                            ng += oks3
                            bad += p
                    good = ng
                keep += [(a2, b2, g) for g in good]
            out = keep
        return out, bad

    def is_text_seq(self, v):
        if v[0] == 'seq' or v[0] == 'arr':
            return any(s[0] == 'part' and self.is_text(s[1]) for s in (self.as_seq(v) or ()))
        return self.is_text(v)

    def index_value(self, base, i, st, node):
        if i[0] == 'range':
            rs, bad = self.check_range(base, i, st, node)
            out = list(bad)
            for a, b, s in rs:
                r = self.slice(base, a, b, s)
                out.append(('v', r if r is not None else self.I.opaque('slice', node), s))
            return out
        if base[0] in ('arr', 'seq') or self.as_seq(base) is not None and (is_bytes(self.I.typeof(base)) or self.strict):
            oks, bad = self.I.require(st, ('lt', i, self.length(base, st)), 'index out of range', node)
            return bad + [('v', self.index(base, i, s), s) for s in oks]
        return V(('elem', base, i), st)

    def index_place(self, base, pl, iv, st, node):
        if iv[0] == 'range':
            rs, bad = self.check_range(base, iv, st, node)
            return bad + [('v', (pl[0], tuple(pl[1]) + (('sl', a, b),)), s) for a, b, s in rs]
        if self.strict or base[0] == 'arr':
            oks, bad = self.I.require(st, ('lt', iv, self.length(base, st)), 'index out of range', node)
        else:
            oks, bad = [st], []
        return bad + [('v', (pl[0], tuple(pl[1]) + (('i', iv),)), s) for s in oks]

    def pm_slice(self, pat, v, env, st):
        base = self.I.rv(v, st)
        el = pat['elems']

        def is_rest(e):
            return e['k'] == 'PatRest' or (e['k'] == 'PatIdent' and e['sub'] is not None and e['sub']['k'] == 'PatRest')
        rest = [i for i, e in enumerate(el) if is_rest(e)]
        n = len(el) - len(rest)
        ln = self.length(base, st)
        if base[0] == 'sym' or base[0] == 'app':
            ln = st.facts.canon(ln)
        out = []
        cond = ('eq', ln, I(n)) if not rest else ('not', ('lt', ln, I(n)))
        for b, s in self.I.branch(st, cond):
            if not b:
                out.append((s, None))
                continue
            subs = []
            extra = {}
            for i, e in enumerate(el):
                if is_rest(e):
                    if e['k'] == 'PatIdent':
                        r = self.slice(base, I(i), lsub(ln, I(len(el) - 1 - i)), s)
                        extra[e['id']] = r if r is not None else self.I.opaque('rest pattern', pat)
                    continue
                idx = I(i) if not rest or i < rest[0] else s.facts.canon(lsub(ln, I(len(el) - i)))
                if v[0] == 'ref':
                    subs.append((e, ('ref', v[1], v[2] + (('i', idx),))))
                else:
                    x = self.index(base, idx, s)
                    subs.append((e, x))
            for s2, b2 in self.I.pm_subs(subs, env, s):
                out.append((s2, dict(b2, **extra) if b2 is not None else None))
        return out

    # ---------------------------------------------------------------- equality, arithmetic
    def align(self, a, b, st):
        ta, tb = self.I.typeof(a), self.I.typeof(b)
        if b[0] == 'conv' and ta:
            b, st = self.coerce(b, ta, st)
        if a[0] == 'conv' and tb:
            a, st = self.coerce(a, tb, st)
        return a, b

    def eq(self, a, b, st):
        a, b = self.I.deep(a, st), self.I.deep(b, st)
        if 'seq' in (a[0], b[0]) or (a[0] in ('arr', 'char') and b[0] not in ('arr', 'bits', 'int')) or (b[0] in ('arr', 'char') and a[0] not in ('arr', 'bits', 'int')):
            sa, sb = self.as_seq(a, st), self.as_seq(b, st)
            if a[0] == 'char' and b[0] in ('int', 'bits', 'lin'):
                return ('eq', I(ord(a[1])), b)
            if sa is not None and sb is not None:
                na, nb = unraw_segs(self.norm(sa, st)), unraw_segs(self.norm(sb, st))
                if na == nb:
                    return TRUE
                if st.facts.decide_eq(self.segs_len(na), self.segs_len(nb)) is False:
                    return FALSE
                return ('eq', ('seq', na), ('seq', nb))
        if a[0] == 'char' and b[0] in ('bits', 'int'):
            a = I(ord(a[1]))
        if b[0] == 'char' and a[0] in ('bits', 'int'):
            b = I(ord(b[1]))
        if a[0] == 'bool' and b[0] != 'bool':
            return b if a[1] else ('not', b)
        if b[0] == 'bool' and a[0] != 'bool':
            return a if b[1] else ('not', a)
        if a == b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if x[0] == 'int' and y[0] == 'bits' and x[1] in b58_not and self.enc_byte(y):
                return FALSE
        return ('eq', a, b)

    def enc_byte(self, x):
        srcs = {b[0] for b in x[2] if isinstance(b, tuple)}
        src = next(iter(srcs)) if len(srcs) == 1 else None
        return isinstance(src, tuple) and len(src) == 3 and isinstance(src[1], tuple) and unraw(src[1])[0] == 'enc' and x == self.byte(src[1], src[2])

    def user_eq(self, a, b):
        """a hand-written PartialEq for the type of a, if any"""
        t = self.I.typeof(a)
        if not t or t[0] != 't':
            return None
        for im in self.I.p.find_impls(t, 'PartialEq', 'eq'):
            if im.self_ty[0] == 't' and im.self_ty[1] == t[1]:
                return im
        return None

    def bnot(self, v, want):
        if v[0] == 'bool':
            return B(not v[1])
        if v[0] == 'not':
            return v[1]
        if v[0] == 'int' and want and tname(want) in INTS:
            w = WIDTH[tname(want)]
            return I((1 << w) - 1 - v[1])
        if v[0] in ('int', 'bits'):
            return app('bitnot', v)
        return ('not', v)

    def width(self, v):
        t = self.I.typeof(v)
        n = tname(t)
        return n if n in INTS else None

    def binop(self, op, a, b, st, node, want, env=None):
        I_ = self.I
        if op in ('==', '!='):
            im = self.user_eq(a, b)
            if im is not None:
                outs = I_.call_fn(im.fns['eq'], im.mod, im.self_ty, [a, b], st, node, im.gen, im)
                if op == '!=':
                    return I_.bind(outs, lambda v, s: V(self.bnot(v, None), s))
                return outs
            e = self.eq(a, b, st)
            return V(e if op == '==' else self.bnot(e, None), st)
        if op not in ('&&', '||'):
            # a default that is compared with or added to an amount is an amount
            a, b = zero(a), zero(b)
        if op in ('<', '>', '<=', '>='):
            if a[0] == 'char':
                a = I(ord(a[1]))
            if b[0] == 'char':
                b = I(ord(b[1]))
            t = {'<': ('lt', a, b), '>': ('lt', b, a), '<=': ('not', ('lt', b, a)), '>=': ('not', ('lt', a, b))}[op]
            d = st.facts.decide(t)
            return V(B(d) if d is not None else t, st)
        if op in ('&', '|', '^') and (a[0] in ('bool', 'not', 'is', 'eq', 'lt', 'and', 'or') or b[0] in ('bool', 'not', 'is', 'eq', 'lt')):
            if op == '^':
                return V(('not', self.eq(a, b, st)), st)
            res = []
            for t, s in I_.branch(st, a):
                if (op == '&') == t:
                    res.append(('v', b, s))
                else:
                    res.append(('v', B(t), s))
            return res
        ty = (self.node_int(node, env) if env is not None and op not in ('<<', '>>') and a[0] != 'bits' else None) \
            or self.width(a) or self.width(b) or (tname(want) if tname(want) in INTS else None)
        if op in ('&', '|', '^', '<<', '>>'):
            return V(self.bitop(op, a, b, ty), st)
        return self.arith(op, a, b, st, node, ty)

    def bitop(self, op, a, b, ty):
        if ty is None and a[0] == 'int' and b[0] == 'int':
            return I({'&': a[1] & b[1], '|': a[1] | b[1], '^': a[1] ^ b[1], '<<': a[1] << b[1] if b[1] < 256 else 0, '>>': a[1] >> b[1]}[op])
        ty = ty or 'u128'
        ba = int_bits(a, ty)
        if op in ('<<', '>>'):
            if b[0] == 'int' and ba is not None:
                n = b[1]
                w = len(ba)
                if op == '<<':
                    return mk_bits(ty, ((0,) * n + ba)[:w])
                return mk_bits(ty, (ba[n:] + (0,) * n)[:w])
            return app(op, a, b)
        bb = int_bits(b, ty)
        if ba is None or bb is None:
            return app(op, a, b)
        out = []
        for x, y in zip(ba, bb):
            if op == '&':
                r = 0 if x == 0 or y == 0 else y if x == 1 else x if y == 1 else x if x == y else None
            elif op == '|':
                r = 1 if x == 1 or y == 1 else y if x == 0 else x if y == 0 else x if x == y else None
            else:
                r = y if x == 0 else x if y == 0 else 0 if x == y else (1 - x - y + 2 * x * y if isinstance(x, int) and isinstance(y, int) and False else None)
                if x in (0, 1) and y in (0, 1) and not isinstance(x, tuple) and not isinstance(y, tuple):
                    r = x ^ y
            if r is None:
                return app(op, a, b)
            out.append(r)
        return mk_bits(ty, out)

    def arith(self, op, a, b, st, node, ty=None):
        I_ = self.I
        res = None
        if not self.strict:
            a, b = (x[2] if x[0] == 'conv' else x for x in (a, b))
        if op == '+':
            ba = int_bits(a, ty) if ty and a[0] in ('bits',) else None
            bb = int_bits(b, ty) if ty and b[0] in ('bits', 'int') else None
            if ba and bb and all(x == 0 or y == 0 for x, y in zip(ba, bb)):
                return V(mk_bits(ty, [y if x == 0 else x for x, y in zip(ba, bb)]), st)
            if intish(a) and intish(b):
                res = ladd(a, b)
            if res and a[0] == 'int' and b[0] == 'int' and ty is None:
                return V(res, st)
            if res and self.strict and ty and ty != 'usize':
                oks, bad = I_.require(st, ('not', ('lt', I((1 << WIDTH[ty]) - 1), res)), 'addition overflows', node)
                return bad + [('v', res, s) for s in oks]
            st = self.note_arith('add', a, b, st, node, ty)
        elif op == '-':
            if intish(a) and intish(b):
                res = lsub(a, b)
            if res and self.strict:
                oks, bad = I_.require(st, ('not', ('lt', a, b)), 'subtraction underflows', node)
                return bad + [('v', s.facts.canon(res), s) for s in oks]
            if res and a[0] == 'int' and b[0] == 'int' and res[1] >= 0:
                return V(res, st)
            st = self.note_arith('sub', a, b, st, node, ty)
        elif op == '*':
            for x, y in ((a, b), (b, a)):
                if y[0] == 'int':
                    if x[0] == 'bits' and ty and y[1] and y[1] & (y[1] - 1) == 0:
                        n = y[1].bit_length() - 1
                        bx = int_bits(x, ty)
                        if all(z == 0 for z in bx[len(bx) - n:]):
                            return V(self.bitop('<<', x, I(n), ty), st)
                    if intish(x):
                        res = lmul(x, y[1])
                    break
            if res is None:
                res = app('mul', *sorted((a, b), key=repr))
            if not (a[0] == 'int' and b[0] == 'int'):
                st = self.note_arith('mul', a, b, st, node, ty)
        elif op in ('/', '%'):
            if a[0] == 'int' and b[0] == 'int' and b[1]:
                return V(I(a[1] // b[1] if op == '/' else a[1] % b[1]), st)
            if a[0] == 'bits' and b[0] == 'int' and b[1] and b[1] & (b[1] - 1) == 0:
                n = b[1].bit_length() - 1
                return V(self.bitop('>>', a, I(n), a[1]) if op == '/' else self.bitop('&', a, I(b[1] - 1), a[1]), st)
            if b[0] != 'int' or b[1] == 0:
                st = self.note_arith('div', a, b, st, node, ty)
            res = app('div' if op == '/' else 'rem', a, b)
        if res is None:
            res = app(op, a, b)
        return V(res, st)

    def note_arith(self, op, a, b, st, node, ty):
        m = self.I.model
        if m and hasattr(m, 'on_arith'):
            return m.on_arith(op, a, b, st, node, ty)
        return st

    def cast(self, v, t, st, node):
        n = tname(t)
        if t[0] == 'ptr':
            if v[0] == 'ptr':
                return ('ptr', v[1], t[1])
            return ('ptr', v, t[1])
        if n == 'char':
            if v[0] == 'int':
                return ('char', chr(v[1]))
            return v
        if n not in INTS:
            return v
        if v[0] == 'char':
            return I(ord(v[1]) & ((1 << WIDTH[n]) - 1))
        if v[0] == 'bool':
            return I(1 if v[1] else 0)
        if v[0] == 'int':
            x = v[1] & ((1 << WIDTH[n]) - 1)
            return I(x - (1 << WIDTH[n])) if n[0] == 'i' and x >> (WIDTH[n] - 1) else I(x)
        if v[0] == 'bits':
            return mk_bits(n, int_bits(v, n))
        w = self.width(v)
        if w and (WIDTH[w] <= WIDTH[n] if w[0] == n[0] else WIDTH[w] < WIDTH[n] and w[0] == 'u'):
            return v
        if v[0] == 'len' or (v[0] == 'lin' and WIDTH[n] >= 64):
            if WIDTH[n] >= 64:
                return v
        if v[0] == 'adt' and not v[3]:
            d = self.I.p.def_of(v[1])
            if d and d.kind == 'enum':
                k = 0
                for x in d.node['variants']:
                    if x.get('disc') is not None and x['disc']['k'] == 'Lit':
                        k = int(x['disc']['v'])
                    if x['id'] == v[2]:
                        return I(k)
                    k += 1
        # the path may bound the value
        if st.facts.le(v, I((1 << (WIDTH[n] - (n[0] == 'i'))) - 1)) is True and not (w and w[0] == 'i'):
            return v
        t_ = app('trunc', v, I(WIDTH[n]))
        self.I.note_type(t_, t)
        return t_

    # ---------------------------------------------------------------- conversions
    def coerce(self, v, want, st):
        """settle a pending conversion against an expected type"""
        if v == ANY_DEFAULT and want and want != ('inf',):
            outs = self.default(want, st, None)
            if len(outs) == 1 and outs[0][0] == 'v':
                return outs[0][1], outs[0][2]
            return v, st
        if v[0] == 'conv' and want and want != ('inf',):
            outs = self.convert(v[2], want, st, None, v[1])
            if len(outs) == 1 and outs[0][0] == 'v':
                return outs[0][1], outs[0][2]
            return v, st
        if v[0] == 'adt' and v[1] in ('Option', 'Result') and want and want[0] == 't' and want[1] == v[1] and want[2] and len(v[3]) == 1:
            w = want[2][0] if v[2] != 'Err' else (want[2][1] if len(want[2]) > 1 else None)
            x, st = self.coerce(v[3][0][1], w, st)
            return ('adt', v[1], v[2], ((v[3][0][0], x),)), st
        if v[0] == 'tup' and want and want[0] == 'tup' and len(want[1]) == len(v[1]):
            out = []
            for x, w in zip(v[1], want[1]):
                x, st = self.coerce(x, w, st)
                out.append(x)
            return ('tup', tuple(out)), st
        return v, st

    def conv_impl(self, v, want, trait):
        """impl From<typeof v> for want / TryFrom"""
        t = self.I.typeof(v)
        best = None
        for im in self.I.p.find_impls(want, trait):
            if im.self_ty[0] in ('param', 'proj') or want[0] in ('param', 'proj', 'inf'):
                continue
            if not im.trait_args:
                continue
            src = im.trait_args[0]
            if t is None:
                if v[0] == 'int' and tname(src) in INTS:
                    best = best or im
                elif v[0] not in ('int', 'bool'):
                    best = best or im
                continue
            if t[0] == 'proj' and src[0] == 't' and self.I.p.def_of(src[1]) is not None:
                continue
            if loose(src, t):
                if src == t:
                    return im
                best = best or im
        if best is None and tname(t) in INTS:
            # conversions between integers keep the value, so the value alone does not tell its present type
            ints = [im for im in self.I.p.find_impls(want, trait) if im.trait_args and tname(im.trait_args[0]) in INTS and im.self_ty[0] == 't']
            if len(ints) == 1:
                return ints[0]
        return best

    def into_impl(self, v, want):
        t = self.I.typeof(v)
        if t is None:
            return None
        for im in self.I.p.find_impls(t, 'Into', 'into'):
            if im.trait_args and loose(im.trait_args[0], want):
                return im
        return None

    def convert(self, v, want, st, node, how='into'):
        """value of v converted to type `want` with From/Into"""
        I_ = self.I
        v = I_.rv(v, st)
        if want is None or want == ('inf',) or want[0] in ('impl',):
            return V(('conv', how, v), st)
        if want[0] == 't' and want[1] == 'Try':
            return self.convert(v, want[2][0], st, node, how)
        if v[0] == 'conv':
            v = v[2]
        if I_.model:
            r = I_.model.convert(v, want, st, node)
            if r is not None:
                return r
        im = self.conv_impl(v, want, 'From')
        if im is not None and 'from' in im.fns:
            return I_.call_fn(im.fns['from'], im.mod, im.self_ty, [v], st, node or im.node, I_.match_gen(im, want), im, want)
        im = self.into_impl(v, want)
        if im is not None:
            return I_.call_fn(im.fns['into'], im.mod, I_.typeof(v), [v], st, node or im.node, dict(im.gen), im, want)
        n = tname(want)
        if n in INTS:
            if v[0] == 'char':
                return V(I(ord(v[1])), st)
            if v[0] == 'bool':
                return V(I(1 if v[1] else 0), st)
            if v[0] == 'bits':
                return V(('bits', n, int_bits(v, n)), st) if WIDTH[n] >= len(v[2]) else V(v, st)
            return V(v, st)
        if n == 'Option' and not (v[0] == 'adt' and v[1] == 'Option'):
            t = I_.typeof(v)
            if tname(t) != 'Option':
                return I_.bind(self.convert(v, want[2][0], st, node) if want[2] else V(v, st), lambda x, s: V(some(x), s))
        if n == 'Junctions' or n == 'Location' or n == 'Arc':
            return V(v, st)
        return V(v, st)

    def try_convert(self, v, want, st, node):
        """TryInto/TryFrom: outcomes with Ok/Err"""
        I_ = self.I
        v = I_.rv(v, st)
        if v[0] == 'conv':
            v = v[2]
        w = want
        if w is not None and w[0] == 't' and w[1] in ('Try', 'Result', 'Option'):
            w = w[2][0] if w[2] else None
        if w is None or w == ('inf',) or w[0] in ('impl', 'param', 'proj'):
            if I_.model:
                r = I_.model.try_convert(v, w, st, node)
                if r is not None:
                    return r
            res = []
            for b, s in I_.branch(st, ('fits', v, None)):
                res.append(('v', ok(v) if b else err(app('conversion error', v)), s))
            return res
        if I_.model:
            r = I_.model.try_convert(v, w, st, node)
            if r is not None:
                return r
        im = self.conv_impl(v, w, 'TryFrom')
        if im is not None and 'try_from' in im.fns:
            return I_.call_fn(im.fns['try_from'], im.mod, im.self_ty, [v], st, node, I_.match_gen(im, w), im, None)
        n = tname(w)
        if n in INTS:
            src = self.width(v)
            if src and WIDTH[src] <= WIDTH[n] and not (src[0] == 'i' and n[0] == 'u'):
                return V(ok(v), st)
            if v[0] == 'bits' and len(bits_key(v)) <= WIDTH[n]:
                return V(ok(mk_bits(n, int_bits(v, n))), st)
            res = []
            for b, s in I_.branch(st, ('not', ('lt', I((1 << WIDTH[n]) - 1), v))):
                res.append(('v', ok(v) if b else err(app('TryFromIntError')), s))
            return res
        if w[0] == 'arr' or n == 'BoundedVec':
            k = w[2] if w[0] == 'arr' else None
            ln = self.length(v, st)
            if k is not None and str(k).isdigit():
                d = st.facts.decide(('eq', ln, I(int(k))))
                res = []
                for b, s in I_.branch(st, ('eq', ln, I(int(k)))):
                    if b:
                        el = self.elems(v, s)
                        if el is None:
                            sg = self.as_seq(v, s)
                            if sg is not None and len(sg) == 1 and sg[0][0] == 'part':
                                el = [self.byte_of(sg[0][1], ladd(sg[0][2], I(i))) for i in range(int(k))]
                        res.append(('v', ok(('arr', tuple(el)) if el is not None else v), s))
                    else:
                        res.append(('v', err(app('TryFromSliceError')), s))
                return res
            res = []
            for b, s in I_.branch(st, ('fits', v, w)):
                res.append(('v', ok(v) if b else err(app('conversion error', v)), s))
            return res
        im = self.conv_impl(v, w, 'From')
        if im is not None:
            return I_.bind(self.convert(v, w, st, node), lambda x, s: V(ok(x), s))
        res = []
        for b, s in I_.branch(st, ('fits', v, w)):
            res.append(('v', ok(v) if b else err(app('conversion error', v)), s))
        return res

    def default(self, t, st, node):
        I_ = self.I
        if t is None or t == ('inf',):
            return V(ANY_DEFAULT, st)
        if t[0] == 'tup':
            outs = [([], st)]
            vals = []
            for x in t[1]:
                r = self.default(x, st, node)
                vals.append(r[0][1])
            return V(('tup', tuple(vals)), st)
        if t[0] == 'arr' and str(t[2]).isdigit():
            r = self.default(t[1], st, node)
            return V(('arr', (r[0][1],) * int(t[2])), st)
        n = tname(t)
        if n in INTS:
            return V(I(0), st)
        if n == 'bool':
            return V(FALSE, st)
        if n == 'Option':
            return V(NONE, st)
        if n in ('Vec', 'String', 'str', 'BoundedVec', 'BTreeMap', 'BTreeSet'):
            if n.startswith('BTree'):
                return V(('map', ()), st)
            return V(('arr', ()), st)
        if n == 'PhantomData':
            return V(('adt', 'PhantomData', None, ()), st)
        for im in I_.p.find_impls(t, 'Default', 'default'):
            if im.self_ty[0] == 't' and im.self_ty[1] == n:
                return I_.call_fn(im.fns['default'], im.mod, t, [], st, node, I_.match_gen(im, t), im)
        d = I_.p.def_of(n) if n else None
        if d is not None and 'Default' in P.derives(d.node, d.mod.crate.cfg):
            g = I_.gen_of(d, t[2])
            if d.kind == 'struct':
                fs = []
                for f in d.node['fields']['fields']:
                    r = self.default(I_.p.ty(f['ty'], d.mod, g, t), st, node)
                    fs.append((f['id'], r[0][1]))
                return V(('adt', n, None, tuple(fs)), st)
            for v in d.node['variants']:
                if any(a['path'] == 'default' for a in v.get('attrs') or ()):
                    return V(('adt', n, v['id'], ()), st)
        if t[0] == 'proj' and t[-1] in ('Balance', 'BlockNumber', 'Rank'):        # numbers: the default is zero
            return V(I(0), st)
        return V(app('default', ('ty', t)), st)

    # ---------------------------------------------------------------- layout
    def size_align(self, t):
        n = tname(t)
        if n in INTS:
            return WIDTH[n] // 8, WIDTH[n] // 8
        if n == 'bool':
            return 1, 1
        if t[0] == 'arr' and str(t[2]).isdigit():
            s = self.size_align(t[1])
            return (s[0] * int(t[2]), s[1]) if s else None
        d = self.I.p.def_of(n) if n else None
        if d is not None and d.kind == 'struct':
            lay = self.layout(d, t)
            if lay:
                return lay[1], lay[2]
        return None

    def reprs(self, d):
        out = set()
        for p_, tt, _ in P.live_attrs(d.node.get('attrs'), d.mod.crate.cfg):
            if p_ == 'repr':
                for x in P.split_commas(tt):
                    out |= {y for y in x if isinstance(y, str)}
        return out

    def layout(self, d, t):
        """([(offset, field, type)], size, align, ordered) for a struct; ordered False when the order is up to the compiler"""
        g = self.I.gen_of(d, t[2])
        r = self.reprs(d)
        packed = 'packed' in r
        off, al = 0, 1
        out = []
        for f in d.node['fields']['fields']:
            if not P.cfg_ok(f.get('attrs'), d.mod.crate.cfg):
                continue
            ft = self.I.p.ty(f['ty'], d.mod, g, t)
            sa = self.size_align(ft)
            if sa is None:
                return None
            s, a = sa
            if packed:
                a = 1
            off = (off + a - 1) // a * a
            out.append((off, f['id'], ft))
            off += s
            al = max(al, a)
        if 'align' in r:
            nums = [x for x in r if x.isdigit()]
            for x in nums:
                al = max(al, int(x))
        raw = sum(self.size_align(x[2])[0] for x in out)
        size = (off + al - 1) // al * al
        ordered = bool(r & {'C', 'packed', 'transparent'}) and ('C' in r or 'transparent' in r)
        if not ordered:
            # the compiler may reorder; the size is that of the tightest order
            size = (raw + al - 1) // al * al
        return out, size, al, ordered

    def bytes_of(self, v, t, st):
        """memory image of a value on a little-endian target, as a list of byte values, or None"""
        n = tname(t)
        if n in INTS:
            b = int_bits(v, n)
            if b is None:
                return None
            return [mk_bits('u8', b[i:i + 8]) for i in range(0, len(b), 8)]
        if t[0] == 'arr':
            el = self.elems(v, st)
            if el is None:
                return None
            out = []
            for x in el:
                r = self.bytes_of(x, t[1], st)
                if r is None:
                    return None
                out += r
            return out
        d = self.I.p.def_of(n) if n else None
        if d is not None and d.kind == 'struct':
            lay = self.layout(d, t)
            if lay is None or not lay[3]:
                return None
            out = [None] * lay[1]
            for off, f, ft in lay[0]:
                r = self.bytes_of(self.I.field(v, f, st), ft, st)
                if r is None:
                    return None
                out[off:off + len(r)] = r
            return [x if x is not None else self.I.opaque('padding byte') for x in out]
        return None

    # ---------------------------------------------------------------- paths and associated functions
    def assoc_path(self, n, env, st, want):
        ids = tuple(x['id'] for x in n['segs'])
        if 'qself' in n:
            t = self.I.ty(n['qself'], env)
            tn = tname(t)
        elif len(ids) >= 2:
            tn = ids[-2]
        else:
            return None
        if tn in INTS:
            w = WIDTH[tn]
            if ids[-1] == 'MAX':
                return V(I((1 << w) - 1 if tn[0] == 'u' else (1 << (w - 1)) - 1), st)
            if ids[-1] == 'MIN':
                return V(I(0 if tn[0] == 'u' else -(1 << (w - 1))), st)
            if ids[-1] == 'BITS':
                return V(I(w), st)
        if ids[-1] in JUNCTIONS or ids[-1] == 'Here' and len(ids) > 1 and ids[-2] == 'Junctions':
            if ids[-1] == 'Here':
                return V(('arr', ()), st)
        return None

    def call_path(self, f, args, n, env, st, want):
        I_ = self.I
        ids = tuple(x['id'] for x in f['segs'])
        name = ids[-1]
        t = None
        tn = None
        if 'qself' in f:
            t = I_.ty(f['qself'], env)
            tn = tname(t)
            tr = I_.trait_of_path(f)
            if len(f['segs']) - f['qpos'] > 1:
                return None
        elif len(ids) >= 2:
            t, _ = I_.assoc_target(f, env)
            tn = tname(t) if t else None
            tr = None
        d, k, ext = (None, 0, None)
        if 'qself' not in f:
            d, k, ext = I_.p.resolve(env.mod, ids, 'values')
            if d is not None and d.kind not in ('type', 'struct', 'enum'):
                return None
        full = '::'.join(ext or ids)
        many = I_.many

        if tn in INTS:
            if name in ('from_le_bytes', 'from_be_bytes', 'from_ne_bytes'):
                w = ('arr', U('u8'), str(WIDTH[tn] // 8))

                def g(vs, s):
                    el = self.elems(I_.rv(vs[0], s), s)
                    if el is None or len(el) != WIDTH[tn] // 8:
                        return V(I_.opaque('bytes of unknown length', n), s)
                    if name == 'from_be_bytes':
                        el = el[::-1]
                    bits = []
                    for x in el:
                        b = int_bits(I_.rv(x, s), 'u8')
                        if b is None:
                            b = tuple((x, i) for i in range(8))
                        bits += list(b)
                    return V(mk_bits(tn, bits), s)
                return many(args, env, st, [w], g)
            if name in ('from',):
                return many(args, env, st, None, lambda vs, s: self.convert(vs[0], t, s, n))
            if name == 'try_from':
                return many(args, env, st, None, lambda vs, s: self.try_convert(vs[0], t, s, n))
            if name in ('default', 'zero'):
                return V(I(0), st)
            if name == 'one':
                return V(I(1), st)
            if name in ('max_value', 'min_value'):
                return V(I((1 << WIDTH[tn]) - 1 if name == 'max_value' else 0), st)
            if name == 'decode':
                return self.decode_at(t, args, n, env, st)
            if name == 'max_encoded_len' and not args:
                return V(I(WIDTH[tn] // 8), st)
            if name == 'encoded_fixed_size' and not args:
                return V(some(I(WIDTH[tn] // 8)), st)
            if name == 'type_info' and not args:
                return V(('adt', 'TypeDefPrimitive', tn.upper(), ()), st)
            # UFCS on integers: u32::saturating_add(a, b)
            if args:
                return I_.method_on(args[0], name, args[1:], n, env, st, want)
        if t is not None and t[0] == 'arr' and name in ('try_from', 'from'):
            return many(args, env, st, None, lambda vs, s: self.try_convert(vs[0], t, s, n) if name == 'try_from' else V(vs[0], s))
        if t is not None and t[0] in ('arr', 'tup') and name == 'decode':
            return self.decode_at(t, args, n, env, st)
        last2 = tuple((ext or ids)[-2:])
        if name == 'size_of' and 'mem' in (ext or ids)[:-1] or full.endswith('mem::size_of'):
            a = f['segs'][-1]['args']
            ty = I_.ty(a[0], env) if a else None
            sa = self.size_align(ty) if ty else None
            return V(I(sa[0]) if sa else I_.opaque('size', n), st)
        if name == 'size_of_val' and 'mem' in (ext or ids):
            def g(vs, s):
                v = I_.rv(vs[0], s)
                ty = I_.typeof(v)
                sa = self.size_align(ty) if ty and ty[0] != 'sl' else None
                if sa is None and ty and is_bytes(ty):
                    return V(self.length(v, s), s)
                return V(I(sa[0]) if sa else I_.opaque('size', n), s)
            return many(args, env, st, None, g)
        if name in ('from_raw_parts',) and 'slice' in (ext or ids):
            def g(vs, s):
                return self.raw_view(vs[0], vs[1], s, n)
            return many(args, env, st, None, g)
        if name in ('from_ref', 'addr_of') and ('ptr' in (ext or ids)):
            return many(args, env, st, None, lambda vs, s: V(('ptr', I_.rv(vs[0], s), None), s))
        if name == 'transmute':
            def g(vs, s):
                v = I_.rv(vs[0], s)
                a = f['segs'][-1]['args']
                src = I_.ty(a[0], env) if a else I_.typeof(v)
                dst = I_.ty(a[1], env) if a and len(a) > 1 else want
                if src and dst and src != ('inf',) and dst != ('inf',):
                    bs = self.bytes_of(v, src, s)
                    if bs is not None and dst[0] == 'arr':
                        return V(('arr', tuple(bs)), s)
                    if bs is not None and tname(dst) in INTS:
                        bits = []
                        for x in bs:
                            bits += list(int_bits(x, 'u8') or tuple((x, i) for i in range(8)))
                        return V(mk_bits(tname(dst), bits), s)
                    if bs is not None:
                        r = self.from_bytes(bs, dst, s)
                        if r is not None:
                            return V(r, s)
                return V(I_.opaque('transmute', n), s)
            return many(args, env, st, None, g)
        if name in ('swap', 'replace', 'take') and 'mem' in (ext or ids):
            def g(vs, s):
                a = I_.rv(vs[0], s)
                if name == 'swap':
                    b = I_.rv(vs[1], s)
                    s = I_.write(vs[0][1], vs[0][2], b, s)
                    return V(UNIT, I_.write(vs[1][1], vs[1][2], a, s))
                if name == 'replace':
                    return V(a, I_.write(vs[0][1], vs[0][2], vs[1], s))
                d_ = self.default(I_.typeof(a), s, n)[0][1]
                return V(a, I_.write(vs[0][1], vs[0][2], d_, s))
            return many(args, env, st, None, g)
        if name == 'drop' and len(args) == 1 and (len(ids) == 1 or 'mem' in ids):
            return many(args, env, st, None, lambda vs, s: V(UNIT, s))
        if name in ('min', 'max') and (len(ids) == 1 or 'cmp' in (ext or ids)) and len(args) == 2:
            return I_.method_on(args[0], name, args[1:], n, env, st, want)
        if name in ('from_utf8', 'from_utf8_unchecked', 'from_utf8_lossy') and ({'str', 'String', 'string'} & set(ext or ids)):
            return many(args, env, st, None, lambda vs, s: self.from_utf8(I_.rv(vs[0], s), s, name, n))
        if full.startswith('bs58::') and name in ('encode', 'decode'):
            return many(args, env, st, None, lambda vs, s: self.bs58(name, I_.rv(vs[0], s), s, n, env))
        if tn == 'Default' and name == 'default' or full.endswith('Default::default'):
            return self.default(want, st, n)
        if name in ('zero',) and tn == 'Zero':
            return V(I(0), st)
        if name in ('one',) and tn == 'One':
            return V(I(1), st)
        if t is not None and name == 'default' and not args and not self.has_assoc(t, name):
            return self.default(t, st, n)
        if tn in ('Vec', 'String', 'BoundedVec', 'VecDeque') and name in ('new', 'with_capacity', 'with_bounded_capacity', 'default'):
            return many(args, env, st, None, lambda vs, s: V(('arr', ()), s))
        if tn in ('BTreeMap', 'BTreeSet') and name == 'new':
            return V(('map', ()), st)
        if tn in ('Vec', 'String', 'Box', 'Arc', 'Rc', 'Cow', 'BoundedVec', 'Some', 'str') and name in ('from', 'new', 'truncate_from', 'clone', 'pin'):
            return many(args, env, st, None, lambda vs, s: V(I_.rv(vs[0], s), s))
        if t is not None and tn is not None and name in ('from', 'try_from') and len(args) == 1 and not self.has_inherent(t, name):
            if I_.p.def_of(tn) is not None:
                if name == 'from':
                    return many(args, env, st, None, lambda vs, s: self.convert(vs[0], t, s, n))
                return many(args, env, st, None, lambda vs, s: self.try_convert(vs[0], t, s, n))
            if name == 'try_from':
                return many(args, env, st, None, lambda vs, s: self.try_convert(vs[0], t, s, n))
            if t[0] == 't' and tn not in self.TRAITS:
                return many(args, env, st, None, lambda vs, s: self.convert(vs[0], t, s, n))
            if tn == 'Type' and full.startswith('scale_info::'):
                return many(args, env, st, None, lambda vs, s: V(I_.rv(vs[0], s), s))
        if tn in self.TRAITS and t is not None and I_.p.def_of(tn) is None and 'qself' not in f:
            if name in ('from', 'try_from') and len(args) == 1:
                if name == 'from':
                    return many(args, env, st, None, lambda vs, s: self.convert(vs[0], want, s, n))
                return many(args, env, st, None, lambda vs, s: self.try_convert(vs[0], want, s, n))
            if name == 'from_str':
                return many(args, env, st, None, lambda vs, s: self.parse(vs[0], want, s, n, env))
            if name == 'fmt' and len(args) == 2:
                return many(args, env, st, None, lambda vs, s: self.fmt_value(vs[0], vs[1], s, n, env, tn))
            if args:
                return I_.method_on(args[0], name, args[1:], n, env, st, want)
        if 'qself' in f and I_.trait_of_path(f) in ('Into', 'From', 'TryFrom', 'TryInto', 'AsRef', 'FromStr', 'Default', 'Clone', 'PartialEq', 'Display', 'ToString', 'Encode', 'Decode'):
            tr = I_.trait_of_path(f)
            seg = f['segs'][f['qpos'] - 1]
            targ = I_.ty(seg['args'][0], env) if seg.get('args') else None
            if tr == 'From' and name == 'from':
                return many(args, env, st, None, lambda vs, s: self.convert(vs[0], t, s, n))
            if tr == 'TryFrom' and name == 'try_from':
                return many(args, env, st, None, lambda vs, s: self.try_convert(vs[0], t, s, n))
            if tr == 'Into' and name == 'into':
                return many(args, env, st, None, lambda vs, s: self.convert(vs[0], targ or want, s, n))
            if tr == 'TryInto' and name == 'try_into':
                return many(args, env, st, None, lambda vs, s: self.try_convert(vs[0], targ or want, s, n))
            if tr == 'Default' and name == 'default':
                return self.default(t, st, n)
            if tr == 'FromStr' and name == 'from_str':
                return many(args, env, st, None, lambda vs, s: self.parse(vs[0], t, s, n, env))
            if tr in ('AsRef', 'Clone', 'PartialEq', 'ToString') and args:
                return I_.method_on(args[0], name, args[1:], n, env, st, want)
            if tr == 'Display' and name == 'fmt':
                return many(args, env, st, None, lambda vs, s: self.fmt_value(vs[0], vs[1], s, n, env, 'Display'))
        if t is not None and name == 'from_str' and len(args) == 1:
            return many(args, env, st, None, lambda vs, s: self.parse(vs[0], t, s, n, env))
        if tn == 'Location' and name == 'new':
            def g(vs, s):
                return V(self.mk_location(I_.rv(vs[0], s), I_.rv(vs[1], s), s), s)
            return many(args, env, st, [U('u8'), None], g)
        if tn == 'Location' and name in ('here', 'parent'):
            return V(self.mk_location(I(0 if name == 'here' else 1), ('arr', ()), st), st)
        if name in JUNCTIONS:
            def g(vs, s):
                v = I_.rv(vs[0], s)
                if len(vs) == 1 and v[0] == 'arr':
                    return V(v, s)
                return V(('arr', tuple(I_.rv(x, s) for x in vs)), s)
            return many(args, env, st, [JUNCTION] * len(args) if len(args) > 1 else None, g)
        if name == 'from_fn' and ('array' in ids):
            def g(vs, s):
                w = want
                k = None
                if w and w[0] == 'arr' and str(w[2]).isdigit():
                    k = int(w[2])
                a = f['segs'][-1]['args']
                if a and len(a) > 1 and a[1].get('k') in ('ConstArg', 'TyPath'):
                    tt = I_.ty(a[1], env)
                    if tt[0] == 'const' and tt[1].isdigit():
                        k = int(tt[1])
                if k is None:
                    return V(I_.opaque('array length', n), s)
                return self.map_each([I(i) for i in range(k)], vs[0], s, n, lambda xs, s2: V(('arr', tuple(xs)), s2))
            return many(args, env, st, None, g)
        if name in ('once', 'repeat', 'empty') and 'iter' in ids:
            return many(args, env, st, None, lambda vs, s: V(('iter', tuple(vs)) if name != 'repeat' else ('repeat', vs[0]), s))
        if tn in ('Option', 'Result', 'str', 'slice', 'Iterator', 'Vec', 'String', 'char', 'bool') and args and 'qself' not in f:
            return I_.method_on(args[0], name, args[1:], n, env, st, want)
        return None

    def has_assoc(self, t, name):
        return self.I.find_assoc(t, name)[1] is not None

    def has_inherent(self, t, name):
        im, fn = self.I.find_assoc(t, name)
        return fn is not None and im.trait is None

    def from_bytes(self, bs, t, st):
        n = tname(t)
        if n in INTS:
            bits = []
            for x in bs:
                bits += list(int_bits(x, 'u8') or tuple((x, i) for i in range(8)))
            return mk_bits(n, bits)
        if t[0] == 'arr' and str(t[2]).isdigit():
            s = self.size_align(t[1])
            if not s:
                return None
            k = int(t[2])
            return ('arr', tuple(self.from_bytes(bs[i * s[0]:(i + 1) * s[0]], t[1], st) for i in range(k)))
        d = self.I.p.def_of(n) if n else None
        if d is not None and d.kind == 'struct':
            lay = self.layout(d, t)
            if lay and lay[3]:
                fs = []
                for off, f, ft in lay[0]:
                    sz = self.size_align(ft)[0]
                    x = self.from_bytes(bs[off:off + sz], ft, st)
                    if x is None:
                        return None
                    fs.append((f, x))
                return ('adt', n, None, tuple(fs))
        return None

    def raw_view(self, p, ln, st, node):
        I_ = self.I
        p, ln = I_.rv(p, st), I_.rv(ln, st)
        if p[0] != 'ptr':
            p = ('ptr', p, None)
        v = I_.rv(p[1], st)
        t = I_.typeof(v)
        bs = self.bytes_of(v, t, st) if t and t[0] != 'sl' else self.elems(v, st)
        if bs is None or ln[0] != 'int':
            return V(I_.opaque('memory layout is not specified for this type', node), st)
        if ln[1] > len(bs):
            return [I_.panic(st, 'raw view longer than the value', node)]
        return V(('arr', tuple(bs[:ln[1]])), st)

    def deref_ptr(self, p, st, node):
        I_ = self.I
        v = I_.rv(p[1], st)
        t, want = I_.typeof(v), p[2]
        if want is None or want == ('inf',) or want == t:
            return V(v, st)
        bs = self.bytes_of(v, t, st) if t and t[0] != 'sl' else self.elems(v, st)
        sa = self.size_align(want)
        if bs is not None and sa is not None and sa[0] <= len(bs):
            bs = [I_.rv(x, st) for x in bs[:sa[0]]]
            if want[0] == 'arr' and tname(want[1]) == 'u8':
                return V(('arr', tuple(bs)), st)
            if tname(want) in INTS and all(int_bits(x, 'u8') is not None for x in bs):
                return V(mk_bits(tname(want), [b for x in bs for b in int_bits(x, 'u8')]), st)
        return V(I_.opaque('memory layout is not specified for this type', node), st)

    def mk_location(self, parents, interior, st):
        el = self.elems(interior, st) if interior[0] in ('arr', 'iter', 'tup') else None
        if interior[0] == 'adt' and interior[1] == 'Junction':
            el = [interior]
        if interior[0] == 'tup':
            el = list(interior[1])
        if el is not None:
            interior = ('arr', tuple(self.I.rv(x, st) for x in el))
        return ('adt', 'Location', None, (('parents', parents), ('interior', interior)))

    # ---------------------------------------------------------------- strings
    def from_utf8(self, v, st, name, node):
        v = self.as_text(v, st)
        segs = self.as_seq(v, st)
        good = segs is not None and all(self.utf8_seg(s, st) for s in segs)
        if name == 'from_utf8_unchecked':
            return V(v, st)
        if good:
            return V(ok(v) if name == 'from_utf8' else v, st)
        res = []
        for b, s in self.I.branch(st, ('utf8', v)):
            res.append(('v', ok(v) if b else err(app('Utf8Error')), s))
        return res

    def utf8_seg(self, s, st):
        if s[0] == 'vals':
            return all(x[0] == 'int' and x[1] < 128 for x in s[1])
        if s[0] == 'fill':
            return s[1][0] == 'int' and s[1][1] < 128
        if s[0] == 'part':
            if s[1][0] == 'enc' or self.ascii_seg(s, st) is True:
                return True
            if self.is_text(s[1]):
                ok_ = st.glob.get('bounds', {}).get(s[1], ())
                return all(k == I(0) or k == self.base_len(s[1]) or k in ok_ or st.facts.lits.get(('ascii', s[1])) is True for k in (s[2], s[3]))
        return False

    def ascii_seg(self, s, st):
        """True / None"""
        if s[0] == 'vals':
            if all(x[0] == 'int' for x in s[1]):
                return all(x[1] < 128 for x in s[1])
            return None
        if s[0] == 'fill':
            return s[1][0] == 'int' and s[1][1] < 128
        if s[0] == 'part':
            if s[1][0] == 'enc':
                return True
            s = ('part', unraw(s[1]), s[2], s[3])
            for k in (('ascii', s[1]), ('asciipart', s)):
                if st.facts.lits.get(k) is True:
                    return True
            if s[1][0] == 'seqv' and all(self.ascii_seg(x, st) is True for x in s[1][1]):
                return True
            for l, val in st.facts.lits.items():
                if val and l[0] == 'asciipart' and l[1][1] == s[1] and st.facts.le(l[1][2], s[2]) is True and st.facts.le(s[3], l[1][3]) is True:
                    return True
        return None

    def is_ascii(self, v, st):
        segs = self.as_seq(v, st)
        if segs is None:
            return ('ascii', v)
        segs = unraw_segs(segs)
        rs = [self.ascii_seg(s, st) for s in segs]
        if all(r is True for r in rs):
            return TRUE
        if any(r is False for r in rs):
            return FALSE
        if len(segs) == 1 and segs[0][0] == 'part' and segs[0][2] == I(0) and segs[0][3] == self.base_len(segs[0][1]):
            return ('ascii', segs[0][1])
        return ('and', tuple(('asciipart', s) for s, r in zip(segs, rs) if r is None))

    def find_sep(self, v, sep, st, last=False):
        """[(index or None, st)] of the first occurrence of a one-byte separator"""
        segs = self.as_seq(v, st)
        if segs is None:
            return None
        seq = unraw_segs(self.norm(segs, st))
        if last:
            return None if len(seq) != 1 else self._find_one(seq, sep, st, True)
        out = []
        pend = [(st, I(0))]
        for s in seq:
            nxt = []
            for s0, pos in pend:
                ln = self.seg_len(s)
                if s[0] == 'vals':
                    p2 = [(s0, 0)]
                    for j, x in enumerate(s[1]):
                        p3 = []
                        for s1, _ in p2:
                            for b, s2 in self.I.branch(s1, self.eq(x, I(sep), s1)):
                                if b:
                                    out.append((s2.facts.canon(ladd(pos, I(j))), s2))
                                else:
                                    p3.append((s2, 0))
                        p2 = p3
                    nxt += [(s1, ladd(pos, ln)) for s1, _ in p2]
                elif s[0] == 'fill':
                    for b, s1 in self.I.branch(s0, self.eq(s[1], I(sep), s0)):
                        if b:
                            out.append((pos, s1))
                        else:
                            nxt.append((s1, ladd(pos, ln)))
                elif self.const(ln, s0) is not None and self.const(ln, s0) <= 16 and (s[1][0] != 'enc' or sep not in b58_not):
                    p2 = [s0]
                    for j in range(self.const(ln, s0)):
                        p3 = []
                        x = self.byte_of(s[1], s0.facts.canon(ladd(s[2], I(j))))
                        for s1 in p2:
                            for b, s2 in self.I.branch(s1, self.eq(x, I(sep), s1)):
                                if b:
                                    i = s2.facts.canon(ladd(pos, I(j)))
                                    bd = dict(s2.glob.get('bounds', {}))
                                    m_ = s2.facts.canon(ladd(s[2], I(j)))
                                    bd[s[1]] = tuple(bd.get(s[1], ())) + (m_, s2.facts.canon(ladd(m_, I(1))))
                                    s2 = s2.copy()
                                    s2.glob['bounds'] = bd
                                    out.append((i, s2))
                                else:
                                    p3.append(s2)
                        p2 = p3
                    nxt += [(s1, ladd(pos, ln)) for s1 in p2]
                else:
                    base = s[1]
                    if base[0] == 'enc' and sep in b58_not:
                        nxt.append((s0, ladd(pos, ln)))
                        continue
                    for b, s1 in self.I.branch(s0, ('contains', s, I(sep))):
                        if not b:
                            nxt.append((s1, ladd(pos, ln)))
                            continue
                        i = app('find', ('seg', s), I(sep))
                        f = s1.facts.assume(('lt', i, ln), True)
                        if f is None:
                            continue
                        s2 = s1.with_facts(f)
                        bd = dict(s2.glob.get('bounds', {}))
                        m = f.canon(ladd(s[2], i))
                        bd[base] = tuple(bd.get(base, ())) + (m, f.canon(ladd(m, I(1))))
                        s2.glob['bounds'] = bd
                        out.append((f.canon(ladd(pos, i)), s2))
            pend = nxt
        return out + [(None, s0) for s0, _ in pend]

    def _find_one(self, seq, sep, st, last):
        s = seq[0]
        if s[0] != 'part':
            return None
        out = []
        for b, s1 in self.I.branch(st, ('contains', s, I(sep))):
            if not b:
                out.append((None, s1))
                continue
            i = app('rfind', ('seg', s), I(sep))
            f = s1.facts.assume(('lt', i, self.seg_len(s)), True)
            s2 = s1.with_facts(f)
            bd = dict(s2.glob.get('bounds', {}))
            m = f.canon(ladd(s[2], i))
            bd[s[1]] = tuple(bd.get(s[1], ())) + (m, f.canon(ladd(m, I(1))))
            s2.glob['bounds'] = bd
            out.append((i, s2))
        return out

    def sep_byte(self, v):
        if v[0] == 'char' and len(v[1].encode()) == 1:
            return ord(v[1])
        if v[0] in ('seq', 'arr'):
            s = self.as_seq(v)
            if len(s) == 1 and s[0][0] == 'vals' and len(s[0][1]) == 1 and s[0][1][0][0] == 'int':
                return s[0][1][0][1]
        if v[0] == 'int':
            return v[1]
        if v[0] == 'clo':
            # |c| c == X
            n, env = self.I.closures[v[1]]
            b = n['body']
            if b['k'] == 'Binary' and b['op'] == '==':
                for x in (b['lhs'], b['rhs']):
                    y = x
                    while y['k'] in ('Unary', 'Ref'):
                        y = y['e']
                    if y['k'] == 'Lit' and y['t'] in ('char', 'byte', 'int'):
                        return ord(y['v']) if y['t'] == 'char' else int(y['v'])
        return None

    # ---------------------------------------------------------------- bs58
    def bs58(self, name, v, st, node, env):
        if name == 'encode':
            # anything AsRef<[u8]>
            t = self.I.typeof(v)
            cand = self.I.find_method(v, t, 'as_ref', None) if t and t[0] == 't' else None
            if cand is not None:
                im, fn = cand
                outs = self.I.call_fn(fn, im.mod, t, [v], st, node, dict(im.gen), im)
                return self.I.bind(outs, lambda x, s: V(('adt', 'Bs58Encode', None, (('input', self.I.rv(x, s)),)), s))
            return V(('adt', 'Bs58Encode', None, (('input', v),)), st)
        return V(('adt', 'Bs58Decode', None, (('input', v),)), st)

    def enc_of(self, v, st):
        """(base term, state) of the base-58 text of bytes v"""
        segs = unraw_segs(self.norm(self.as_seq(v, st), st))
        if len(segs) == 1 and segs[0][0] == 'part' and segs[0][1][0] == 'dec' and segs[0][2] == I(0) \
                and (segs[0][3] == self.base_len(segs[0][1]) or st.facts.decide_eq(segs[0][3], self.base_len(segs[0][1])) is True):
            n = self.const(segs[0][3], st)
            f = st.facts
            if n is not None:
                ln = self.segs_len(segs[0][1][1])
                f = f.assume(('lt', ln, I(n)), False) or f
                f = f.assume(('lt', I(-(-n * 13658 // 10000)), ln), False) or f
            return segs[0][1][1], st.with_facts(f)        # encode(decode(x)) == x
        base = ('enc', segs)
        n = self.const(self.segs_len(segs), st)
        f = st.facts
        ln = ('len', base)
        if n is not None:
            hi = -(-n * 13658 // 10000)
            f = f.assume(('lt', ln, I(n)), False) or f
            f = f.assume(('lt', I(hi), ln), False) or f
        return (('part', base, I(0), ln),), st.with_facts(f)

    def dec_of(self, v, st):
        """[(valid, segments or None, st)]"""
        segs = unraw_segs(self.norm(self.as_seq(v, st), st))
        if len(segs) == 1 and segs[0][0] == 'part' and segs[0][1][0] == 'enc' and segs[0][2] == I(0) \
                and (segs[0][3] == self.base_len(segs[0][1]) or st.facts.decide_eq(segs[0][3], self.base_len(segs[0][1])) is True):
            return [(True, segs[0][1][1], st)]
        # a byte that is not in the alphabet
        for s in segs:
            if s[0] == 'vals' and any(x[0] == 'int' and x[1] in b58_not for x in s[1]):
                return [(False, None, st)]
        out = []
        for b, s in self.I.branch(st, ('b58', segs)):
            if not b:
                out.append((False, None, s))
                continue
            base = ('dec', segs)
            f = s.facts.assume(('lt', self.segs_len(segs), ('len', base)), False)
            for x in segs:
                if f is not None and x[0] == 'part':
                    f = f.assume(('asciipart', x), True)
            if f is None:
                continue
            s = s.with_facts(f)
            out.append((True, (('part', base, I(0), ('len', base)),), s))
        return out

    def bs58_method(self, v, m, args, n, env, st, want):
        I_ = self.I
        inp = I_.rv(dict(v[3])['input'], st)
        encode = v[1] == 'Bs58Encode'
        if m in ('with_alphabet', 'with_check', 'as_cb58', 'with_check_version'):
            return V(I_.opaque('base58 with another alphabet or checksum', n), st)

        def place(ps, vs, s):
            """write into target vs[0]"""
            tgt = vs[0]
            out = []
            if tgt[0] != 'ref':
                return [('v', I_.opaque('base58 target', n), s)]
            cur = I_.rv(tgt, s)
            t = I_.typeof(cur)
            grow = tname(t) in ('Vec', 'String') or (cur == ('arr', ()) and not tgt[2])
            for good, segs, s1 in ps:
                if not good:
                    s2 = I_.write(tgt[1], tgt[2], I_.opaque('buffer after failed conversion'), s1) if not encode else s1
                    out.append(('v', err(app('bs58 error')), s2))
                    continue
                ln = self.segs_len(segs)
                if grow:
                    s2 = I_.write(tgt[1], tgt[2], self.mk_seq(segs, s1), s1)
                    out.append(('v', ok(ln), s2))
                    continue
                cap = self.length(cur, s1)
                for b, s2 in I_.branch(s1, ('lt', cap, ln)):
                    if b:
                        s3 = I_.write(tgt[1], tgt[2], I_.opaque('buffer after failed conversion'), s2)
                        out.append(('v', err(app('bs58 buffer too small')), s3))
                        continue
                    new = self.set_slice(cur, I(0), ln, ('seq', segs), s2)
                    if new is None:
                        new = I_.opaque('buffer', n)
                    s3 = I_.write(tgt[1], tgt[2], new, s2)
                    out.append(('v', ok(s3.facts.canon(ln)), s3))
            return out
        if m == 'onto':
            def g(vs, s):
                if encode:
                    segs, s1 = self.enc_of(inp, s)
                    return place([(True, segs, s1)], vs, s1)
                return place(self.dec_of(inp, s), vs, s)
            return I_.many(args, env, st, None, g)
        if m in ('into_vec', 'into_string', 'to_vec', 'to_string'):
            if encode:
                segs, s1 = self.enc_of(inp, st)
                return V(self.mk_seq(segs, s1), s1)
            return [('v', ok(self.mk_seq(segs, s)) if good else err(app('bs58 error')), s) for good, segs, s in self.dec_of(inp, st)]
        if m in ('into_array_const', 'into_array'):
            k = None
            if want and want[0] == 't' and want[2] and want[2][0][0] == 'arr':
                k = want[2][0][2]
            if n.get('targs'):
                tt = I_.ty(n['targs'][0], env)
                k = tt[1] if tt[0] == 'const' else k
            res = []
            for good, segs, s in self.dec_of(inp, st):
                if not good:
                    res.append(('v', err(app('bs58 error')), s))
                    continue
                if k is None or not str(k).isdigit():
                    res.append(('v', I_.opaque('array length', n), s))
                    continue
                ln = self.segs_len(segs)
                for b, s2 in I_.branch(s, ('lt', I(int(k)), ln)):
                    if b:
                        res.append(('v', err(app('bs58 buffer too small')), s2))
                    else:
                        new = self.set_slice(('arr', (I(0),) * int(k)), I(0), ln, ('seq', segs), s2)
                        res.append(('v', ok(new if new is not None else I_.opaque('array', n)), s2))
            return res
        return None

    # ---------------------------------------------------------------- decoding input
    def read_input(self, ref, k, st, node):
        """[('v', Ok(list of bytes)/Err, st)]"""
        I_ = self.I
        v = I_.rv(ref, st)
        if not (v[0] == 'adt' and v[1] == 'Input'):
            return None
        d = dict(v[3])
        base, pos = d['base'], d['pos']
        out = []
        for b, s in I_.branch(st, ('lt', self.base_len(base), ladd(pos, k))):
            if b:
                out.append(('v', err(app('not enough data')), s))
            else:
                new = ('adt', 'Input', None, (('base', base), ('pos', s.facts.canon(ladd(pos, k)))))
                s2 = I_.write(ref[1], ref[2], new, s)
                kk = self.const(k, s2)
                if kk is None:
                    out.append(('v', ok(('seq', (('part', base, pos, ladd(pos, k)),))), s2))
                else:
                    out.append(('v', ok(('arr', tuple(self.byte(base, s2.facts.canon(ladd(pos, I(i)))) for i in range(kk)))), s2))
        return out

    def decode_at(self, t, args, n, env, st):
        def g(vs, s):
            r = self.decode_one(t, vs[0], s, n) if vs[0][0] == 'ref' else None
            return r if r is not None else V(self.I.opaque('decode', n), s)
        return self.I.many(args, env, st, None, g)

    def decode_one(self, t, ref, st, n):
        """a number, an array or a tuple of them read from an input; None when not told"""
        tn = tname(t)
        if tn in INTS:
            outs = self.read_input(ref, I(WIDTH[tn] // 8), st, n)
            if outs is None:
                return None

            def h(r, s2):
                if r[2] == 'Err':
                    return V(r, s2)
                el = self.elems(dict(r[3])['0'], s2)
                bits = []
                for x in el:
                    bits += list(int_bits(x, 'u8'))
                return V(ok(mk_bits(tn, bits)), s2)
            return self.I.bind(outs, h)
        if t[0] == 'arr' and str(t[2]).isdigit():
            if tname(t[1]) == 'u8':
                return self.read_input(ref, I(int(t[2])), st, n)
            ts = [t[1]] * int(t[2])
        elif t[0] == 'tup':
            ts = t[1]
        else:
            return None
        cur, res = [((), st)], []
        for x in ts:
            nxt = []
            for got, s in cur:
                outs = self.decode_one(x, ref, s, n)
                if outs is None:
                    return None
                for o in outs:
                    if o[0] != 'v' or o[1][2] == 'Err':
                        res.append(o)
                    else:
                        nxt.append((got + (dict(o[1][3])['0'],), o[2]))
            cur = nxt
        return res + [('v', ok((t[0], got)), s) for got, s in cur]

    # ---------------------------------------------------------------- formatting
    def parse(self, v, want, st, node, env):
        I_ = self.I
        w = want
        while w is not None and w[0] == 't' and w[1] in ('Try', 'Result', 'Option') and w[2]:
            w = w[2][0]
        if w is not None:
            for im in I_.p.find_impls(w, 'FromStr', 'from_str'):
                if im.self_ty == w or (im.self_ty[0] == w[0] == 't' and im.self_ty[1] == w[1]):
                    return I_.call_fn(im.fns['from_str'], im.mod, w, [I_.rv(v, st)], st, node, dict(im.gen), im)
        return V(app('parse', I_.rv(v, st)), st)

    def parse_fmt(self, s):
        """[('lit', text) | ('arg', name-or-index-or-None, spec)]"""
        out, i, cur = [], 0, ''
        while i < len(s):
            c = s[i]
            if c == '{':
                if s[i + 1:i + 2] == '{':
                    cur += '{'
                    i += 2
                    continue
                j = s.index('}', i)
                if cur:
                    out.append(('lit', cur))
                    cur = ''
                body = s[i + 1:j]
                nm, _, spec = body.partition(':')
                out.append(('arg', nm.strip() or None, spec))
                i = j + 1
                continue
            if c == '}':
                cur += '}'
                i += 2
                continue
            cur += c
            i += 1
        if cur:
            out.append(('lit', cur))
        return out

    def format_args(self, margs, env, st, node):
        """outcomes whose value is ('fmtargs', ((kind, ...), ...)) with evaluated arguments"""
        I_ = self.I
        if not margs:
            return V(('fmtargs', ()), st)
        fmt = margs[0]
        if fmt['k'] == 'Macro' and 'args' in fmt['m'] and fmt['m']['name'] == 'concat':
            s = ''.join(str(a.get('v', '')) for a in fmt['m']['args'])
        elif fmt['k'] != 'Lit' or fmt['t'] != 'str':
            return V(I_.opaque('format string', node), st)
        else:
            s = fmt['v']
        pieces = self.parse_fmt(s)
        pos, named = [], {}
        for a in margs[1:]:
            if a['k'] == 'Assign' and a['lhs']['k'] == 'Path':
                named[a['lhs']['segs'][0]['id']] = a['rhs']
            else:
                pos.append(a)
        nodes, plan, nxt = [], [], 0
        for p_ in pieces:
            if p_[0] == 'lit':
                plan.append(p_)
                continue
            nm = p_[1]
            if nm is None:
                if nxt >= len(pos):
                    return V(I_.opaque('format arguments', node), st)
                nd = pos[nxt]
                nxt += 1
            elif nm.isdigit():
                nd = pos[int(nm)]
            elif nm in named:
                nd = named[nm]
            else:
                nd = {'k': 'Path', 'l': node.get('l'), 'segs': [{'id': nm, 'args': None}]}
            plan.append(('arg', len(nodes), p_[2]))
            nodes.append(nd)

        def g(vs, s):
            out = []
            for p_ in plan:
                out.append(p_ if p_[0] == 'lit' else ('arg', I_.rv(vs[p_[1]], s), p_[2]))
            return V(('fmtargs', tuple(out)), s)
        return I_.many(nodes, env, st, None, g)

    def render(self, fa, st, node, env, alt=None):
        """outcomes whose value is the formatted sequence (or ('fmterr',))"""
        I_ = self.I
        cur = [((), st)]
        abn = []
        for p_ in fa[1]:
            nxt = []
            for segs, s in cur:
                if p_[0] == 'lit':
                    nxt.append((segs + (('vals', tuple(I(b) for b in p_[1].encode())),), s))
                    continue
                for o in self.render_value(p_[1], p_[2], s, node, env):
                    if o[0] != 'v':
                        abn.append(o)
                    elif o[1] == ('fmterr',):
                        abn.append(o)
                    else:
                        nxt.append((segs + tuple(self.as_seq(o[1], o[2])), o[2]))
            cur = nxt
        return abn + [('v', ('seq', self.norm(segs, s)), s) for segs, s in cur]

    def render_value(self, v, spec, st, node, env):
        I_ = self.I
        v = I_.rv(v, st)
        spec = spec.strip()
        t = I_.typeof(v)
        if v[0] == 'fmtargs':
            return self.render(v, st, node, env)
        if '?' not in spec and t and t[0] == 't' and I_.p.def_of(t[1]) is not None:
            for im in I_.p.find_impls(t, 'Display', 'fmt'):
                if im.self_ty[0] != 't':
                    continue
                f0 = ('adt', 'Formatter', None, (('alt', B('#' in spec)), ('out', ('arr', ()))))
                a, s = I_.alloc(f0, st)
                outs = I_.call_fn(im.fns['fmt'], im.mod, t, [v, ('ref', a, ())], s, node, dict(im.gen), im)
                res = []
                for o in outs:
                    if o[0] != 'v':
                        res.append(o)
                        continue
                    r = I_.rv(o[1], o[2])
                    for b, s2 in I_.test_variant(r, 'Result', 'Ok', o[2]):
                        if b:
                            res.append(('v', dict(I_.rv(('ref', a, ()), s2)[3])['out'], s2))
                        else:
                            res.append(('v', ('fmterr',), s2))
                return res
        if spec not in ('', '#') and any(c.isdigit() or c in '<>^.x' for c in spec):
            return V(I_.opaque('padded or radix formatting', node), st)
        sg = self.as_seq(v, st) if (v[0] in ('seq', 'arr', 'char') or self.is_text(v)) else None
        if sg is not None and '?' not in spec:
            return V(('seq', sg) if sg else ('arr', ()), st)
        x = ('text', app('show' + spec, v))
        return V(x, st)

    def fmt_value(self, v, fref, st, node, env, trait):
        """Display::fmt(v, f)"""
        I_ = self.I
        f = I_.rv(fref, st)
        alt = dict(f[3]).get('alt', FALSE) if f[0] == 'adt' else FALSE
        res = []
        for b, s in I_.branch(st, alt):
            for o in self.render_value(v, '#' if b else '', s, node, env):
                if o[0] != 'v':
                    res.append(o)
                elif o[1] == ('fmterr',):
                    res.append(('v', err(app('fmt error')), o[2]))
                else:
                    res += self.emit(fref, o[1], o[2], node)
        return res

    def ascii_byte(self, x, st):
        if x[0] == 'int':
            return 0 <= x[1] < 128
        srcs = {b[0] for b in x[2] if isinstance(b, tuple)}
        if len(srcs) == 1 and isinstance(next(iter(srcs)), tuple):
            src = next(iter(srcs))
            if src[0] == 'byte' and self.ascii_seg(('part', src[1], src[2], ladd(src[2], I(1))), st) is True:
                return True
        return st.facts.le(x, I(127)) is True

    def emit(self, ref, seq, st, node):
        """append text to a formatter or string"""
        I_ = self.I
        cur = I_.rv(ref, st)
        x = I_.rv(seq, st)
        if x[0] in ('bits', 'int') and self.ascii_byte(x, st):
            add = (('vals', (x,)),)
        else:
            add = self.as_seq(x, st)
        if add is None:
            add = (('part', I_.opaque('text', node), I(0), I(1)),)
        if cur[0] == 'adt' and cur[1] == 'Formatter':
            old = dict(cur[3])['out']
            new = ('seq', self.norm(tuple(self.as_seq(old, st)) + tuple(add), st))
            st = I_.write(ref[1], ref[2] + (('f', 'out'),), new, st)
            return V(ok(), st)
        old = self.as_seq(cur, st)
        if old is not None and ref[0] == 'ref':
            new = ('seq', self.norm(tuple(old) + tuple(add), st))
            return V(ok(), I_.write(ref[1], ref[2], new, st))
        return V(I_.opaque('write', node), st)

    # ---------------------------------------------------------------- macros
    def macro(self, m, n, env, st, want):
        I_ = self.I
        name = m['name']
        if I_.model:
            r = I_.model.macro(m, n, env, st, want)
            if r is not None:
                return r
        args = m.get('args')
        debug = name.startswith('debug_')
        base = name[6:] if debug else name
        if base in ('assert', 'assert_eq', 'assert_ne'):
            if args is None:
                return V(UNIT, st)
            if base == 'assert':
                r, abn = I_.cond(args[0], env, st)
                out = list(abn)
                I_.obligations += 1
                for b, e, s in r:
                    out.append(('v', UNIT, s) if b else I_.panic(s, '%s! fails' % name, n))
                return out

            def g(vs, s):
                outs = self.binop('==', I_.rv(vs[0], s), I_.rv(vs[1], s), s, n, None)

                def h(c, s2):
                    oks, bad = I_.require(s2, c if base == 'assert_eq' else self.bnot(c, None), '%s! fails' % name, n)
                    return bad + [('v', UNIT, s3) for s3 in oks]
                return I_.bind(outs, h)
            return I_.many(args[:2], env, st, None, g)
        if base == 'matches' and 'matches' in m:
            mm = m['matches']

            def g(v, s):
                res = []
                for s2, b in I_.pmatch(mm['pat'], v, env, s):
                    if b is None:
                        res.append(('v', FALSE, s2))
                        continue
                    if mm['guard'] is None:
                        res.append(('v', TRUE, s2))
                        continue
                    e2 = env.child()
                    for nm, bv in b.items():
                        a, s2 = I_.alloc(bv, s2)
                        e2.vars[nm] = a
                    r, abn = I_.cond(mm['guard'], e2, s2)
                    res += abn
                    res += [('v', B(t), s3) for t, _, s3 in r]
                return res
            return I_.bind(I_.ev(mm['e'], env, st), g)
        if base in ('panic', 'unreachable', 'todo', 'unimplemented'):
            I_.obligations += 1
            return [I_.panic(st, '%s! reached' % name, n)]
        if base in ('format_args',):
            return self.format_args(args, env, st, n)
        if base == 'format':
            def g(fa, s):
                if fa[0] != 'fmtargs':
                    return V(fa, s)
                outs = self.render(fa, s, n, env)
                return [o if o[0] != 'v' or o[1] != ('fmterr',) else I_.panic(o[2], 'formatting fails inside format!', n) for o in outs]
            return I_.bind(self.format_args(args, env, st, n), g)
        if base in ('write', 'writeln'):
            def g(pl, s):
                ref = ('ref',) + I_.deref_place(pl, s, ())

                def h(fa, s2):
                    if fa[0] != 'fmtargs':
                        return self.emit(ref, fa, s2, n)
                    res = []
                    for o in self.render(fa, s2, n, env):
                        if o[0] != 'v':
                            res.append(o)
                        elif o[1] == ('fmterr',):
                            res.append(('v', err(app('fmt error')), o[2]))
                        else:
                            v = o[1]
                            if base == 'writeln':
                                v = ('seq', tuple(self.as_seq(v, o[2])) + (('vals', (I(10),)),))
                            res += self.emit(ref, v, o[2], n)
                    return res
                return I_.bind(self.format_args(args[1:], env, s, n), h)
            return I_.bind(I_.place(args[0], env, st), g)
        if base == 'vec':
            if args is not None:
                return I_.many(args, env, st, None, lambda vs, s: V(('arr', tuple(vs)), s))
            if 'repeat' in m:
                return I_.e_Repeat(m['repeat'], env, st, want)
        if base in ('concat',):
            if args is not None and all(a['k'] == 'Lit' for a in args):
                return V(self.lit_str(''.join(str(a['v']) for a in args).encode()), st)
        if base == 'create_runtime_str' and args and len(args) == 1:
            return I_.ev(args[0], env, st)
        if base in ('stringify', 'line', 'file', 'column', 'module_path', 'env'):
            return V(('text', app(base)), st)
        if base in ('log', 'println', 'eprintln', 'print', 'trace', 'debug', 'info', 'warn', 'error', 'dbg'):
            return V(UNIT, st)
        if 'stmts' in m:
            return I_.block(m['stmts'], env, st, want)
        if 'expanded_stmts' in m:
            return I_.block(m['expanded_stmts'], env, st, want)
        return V(I_.opaque('macro ' + name, n), st)

    # ---------------------------------------------------------------- loops and closures over elements
    def map_each(self, xs, fn, st, node, k, want=None):
        """apply fn to each element in order, then k(list, st)"""
        I_ = self.I
        cur = [([], st)]
        abn = []
        for x in xs:
            nxt = []
            for vs, s in cur:
                for o in I_.apply(fn, [x], s, node, want):
                    if o[0] == 'v':
                        nxt.append((vs + [o[1]], o[2]))
                    else:
                        abn.append(o)
            cur = nxt
            if len(cur) > 2000:
                from .interp import TooBig
                raise TooBig('too many paths')
        for vs, s in cur:
            abn += k(vs, s)
        return abn

    def for_loop(self, n, v, env, st):
        I_ = self.I
        v0 = v
        if I_.model and hasattr(I_.model, 'for_loop'):
            r = I_.model.for_loop(n, v, env, st)
            if r is not None:
                return r
        ref = v if v[0] == 'ref' else None
        v = I_.rv(v, st)
        if v[0] == 'zipped':
            r = self.zip_copy(v, lambda x, s: I_.run_body(n, env, s, x), st)
            return r if r is not None else I_.havoc_loop(n, env, st)
        xs = self.elems(v, st) if not (v[0] == 'iter') else list(v[1])
        if xs is None:
            r = self.bulk_loop(n, v, env, st)
            if r is not None and not any(o[0] == 'panic' for o in r):
                return r
            r = self.step_loop(n, v, env, st) or r
            if r is not None:
                return r
            return I_.havoc_loop(n, env, st)
        if ref is not None and v[0] == 'arr':
            xs = [('ref', ref[1], ref[2] + (('i', I(i)),)) for i in range(len(xs))]
        cur = [st]
        res = []
        for x in xs:
            nxt = []
            for s in cur:
                for o in I_.run_body(n, env, s, x):
                    if o[0] == 'v' or (o[0] == 'cont' and o[1][0] in (None, n['label'])):
                        nxt.append(o[2])
                    elif o[0] == 'brk' and o[1][0] in (None, n['label']):
                        res.append(('v', UNIT, o[2]))
                    else:
                        res.append(o)
            cur = nxt
            if len(cur) > 500:
                from .interp import TooBig
                raise TooBig('too many paths in a loop')
        return res + [('v', UNIT, s) for s in cur]

    def zip_copy(self, v, run, st):
        """places of a buffer met with the elements of a sequence of unknown length: a copy when every place gets its element"""
        I_ = self.I
        cell = ('sym', 'slot%d' % I_.fresh(), U('u8'))
        at, s0 = I_.alloc(cell, st)
        x = ('bits', 'u8', tuple((('anyelem', self.as_seq(v[2], st), cell), i) for i in range(8)))
        outs = run(('tup', (('ref', at, ()), x)), s0)
        if len(outs) != 1 or outs[0][0] not in ('v', 'cont'):
            return None
        s1 = outs[0][2]
        if I_.rv(('ref', at, ()), s1) != x or (s1.eff, s1.glob) != (s0.eff, s0.glob) or any(s1.store.get(k) != y for k, y in s0.store.items() if k != at):
            return None
        buf = v[1][0][1], v[1][0][2][:-1]
        ln, res = self.length(v[2], st), []
        for b, s in I_.branch(st, ('lt', I(len(v[1])), ln)):
            k = I(len(v[1])) if b else ln
            src = self.slice(v[2], I(0), k, s) if b else v[2]
            new = self.set_slice(I_.read(buf[0], buf[1], s), I(0), k, src, s) if src is not None else None
            if new is None:
                return None
            res.append(('v', UNIT, I_.write(buf[0], buf[1], new, s)))
        return res

    def bulk_loop(self, n, v, env, st):
        """a loop over a sequence of unknown length that copies it element by element into a buffer or pushes it"""
        I_ = self.I
        src = self.copy_source(v, st)
        if src is None:
            return None
        segs, shape = src
        ln = self.segs_len(segs)
        k = ('sym', 'k%d' % I_.fresh(), U('usize'))
        f = st.facts.assume(('lt', k, ln), True)
        if f is None:
            return V(UNIT, st)
        x = ('bits', 'u8', tuple((('anyelem', segs, k), i) for i in range(8)))
        if shape == 'enum':
            b = ('tup', (k, x))
        else:
            b = x
        names = assigned_roots(n['body'])
        before = {nm: st.store.get(env.vars[nm]) for nm in names if nm in env.vars}
        mark = {}
        s0 = st.with_facts(f)
        outs = I_.run_body(n, env, s0, b)
        good = [o for o in outs if o[0] in ('v', 'cont')]
        if len(good) != len(outs) or len(good) != 1:
            bad = [o for o in outs if o[0] == 'panic']
            if bad:
                return bad + [o for o in I_.havoc_loop(n, env, st)]
            return None
        s1 = good[0][2]
        s = st.copy()
        for nm, old in before.items():
            new = s1.store.get(env.vars[nm])
            if new == old:
                continue
            cell = self.copied(old, new, k, x, segs, ln, st, s0)
            if cell is None:
                return None
            s.store[env.vars[nm]] = cell
        return V(UNIT, s)

    def step_loop(self, n, v, env, st):
        """a loop over text or bytes of unknown length, one element at a time, when it is bound to end soon"""
        I_ = self.I
        src = self.copy_source(v, st)
        if src is None:
            return None
        segs, shape = src
        segs = self.norm(segs, st)
        ln = self.segs_len(segs)
        if all(self.const(self.seg_len(y), st) is not None for y in segs[:-1]):
            at = lambda k, s: self.index(('seq', tuple(segs)), I(k), s)
        else:
            whole = ('seqv', unraw_segs(segs))
            at = lambda k, s: self.byte(whole, I(k))
        cur, res = [st], []
        for k in range(24):
            nxt = []
            for s in cur:
                for b, s1 in I_.branch(s, ('lt', I(k), ln)):
                    if not b:
                        fx = s1.facts.assume(('eq', ln, I(k)), True)
                        if fx is not None:
                            res.append(('v', UNIT, s1.with_facts(fx)))
                        continue
                    x = at(k, s1)
                    for o in I_.run_body(n, env, s1, ('tup', (I(k), x)) if shape == 'enum' else x):
                        if o[0] == 'v' or (o[0] == 'cont' and o[1][0] in (None, n['label'])):
                            nxt.append(o[2])
                        elif o[0] == 'brk' and o[1][0] in (None, n['label']):
                            res.append(('v', UNIT, o[2]))
                        else:
                            res.append(o)
            cur = nxt
            if not cur:
                return res
            if len(cur) + len(res) > 600:
                return None
        return None

    def copy_source(self, v, st):
        if v[0] == 'enumerate':
            r = self.copy_source(v[1], st)
            return (r[0], 'enum') if r else None
        sg = self.as_seq(v, st)
        if sg is None or not (v[0] in ('seq',) or self.is_text(v) or is_bytes(self.I.typeof(v))):
            return None
        return sg, 'plain'

    def copied(self, old, new, k, x, segs, ln, st, s0):
        """value of a buffer after `buf[k + c] = src[k]` / push for every k"""
        so, sn = self.as_seq(old, st), self.as_seq(new, st)
        if intish(old) and intish(new):
            # a counter
            d = lsub(new, old)
            if d[0] == 'int':
                return ladd(old, ln) if d[1] == 1 else None
            return None
        if so is None or sn is None:
            return None
        so, sn = self.norm(so, st), tuple(sn)
        # push: new == old ++ [x]
        if self.norm(sn, st) == self.norm(tuple(so) + (('vals', (x,)),), st):
            return ('seq', self.norm(tuple(so) + tuple(segs), st))
        # indexed: new[k + c] is x and the rest is old
        pos = I(0)
        for y in sn:
            if y[0] == 'vals' and x in y[1]:
                pos = ladd(pos, I(y[1].index(x)))
                c = lsub(pos, k)
                if k not in lin(c)[0] and self.set_slice(old, pos, ladd(pos, I(1)), ('arr', (x,)), s0) == new:
                    return self.set_slice(old, c, ladd(c, ln), ('seq', tuple(segs)), st)
                return None
            pos = ladd(pos, self.seg_len(y))
        return None

    # ---------------------------------------------------------------- methods
    def recv_want(self, m, want):
        if want is None:
            return None
        if m in ('unwrap', 'expect', 'unwrap_or', 'unwrap_or_default', 'unwrap_or_else'):
            return ('t', 'Try', (want,))
        if m in ('ok', 'ok_or', 'ok_or_else', 'map_err', 'or', 'or_else', 'filter', 'inspect', 'inspect_err') and want[0] == 't' and want[1] in ('Try', 'Result', 'Option') and want[2]:
            return ('t', 'Try', (want[2][0],))
        if m in ('clone', 'to_owned'):
            return want
        return None

    def opt_kind(self, v, m, st, env):
        if v[0] == 'adt':
            return v[1]
        k = self.I.typeof(v)
        if tname(k) in ('Option', 'Result'):
            return tname(k)
        var = st.facts.variant(v)
        if var in ('Some', 'None'):
            return 'Option'
        if var in ('Ok', 'Err'):
            return 'Result'
        if m in ('is_some', 'is_none', 'ok_or', 'ok_or_else', 'is_some_and', 'is_none_or', 'zip', 'take', 'get_or_insert_with'):
            return 'Option'
        if m in ('ok', 'map_err', 'is_ok', 'is_err', 'err', 'unwrap_err', 'inspect_err', 'is_ok_and', 'is_err_and'):
            return 'Result'
        return self.I.model.opt_kind(v, m) if self.I.model else 'Option'

    OPT = {'is_some', 'is_none', 'is_ok', 'is_err', 'unwrap', 'expect', 'unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'map',
           'map_or', 'map_or_else', 'and_then', 'ok_or', 'ok_or_else', 'filter', 'or', 'or_else', 'and', 'ok', 'err', 'map_err',
           'is_some_and', 'is_none_or', 'is_ok_and', 'is_err_and', 'flatten', 'zip', 'xor', 'take', 'replace', 'insert', 'get_or_insert_with',
           'unwrap_err', 'expect_err', 'inspect', 'inspect_err', 'transpose', 'iter', 'into_iter', 'as_deref', 'unwrap_unchecked', 'copied', 'cloned'}

    def is_optlike(self, v, m, st):
        if v[0] == 'adt':
            return v[1] in ('Option', 'Result')
        if v[0] in ('arr', 'seq', 'iter', 'range', 'int', 'bits', 'lin', 'bool', 'map', 'tup', 'clo', 'enumerate', 'siter', 'char'):
            return False
        k = self.I.typeof(v)
        if k is not None and k[0] in ('t', 'sl', 'arr', 'tup'):
            if tname(k) in ('Option', 'Result', 'Try'):
                return True
            if m in ('map', 'filter', 'take', 'iter', 'into_iter', 'zip', 'flatten', 'insert', 'replace', 'and', 'or', 'inspect', 'copied', 'cloned'):
                return False
        if st.facts.variant(v) in ('Some', 'None', 'Ok', 'Err'):
            return True
        if m in ('iter', 'into_iter', 'take', 'filter', 'zip', 'flatten', 'insert', 'replace', 'copied', 'cloned', 'inspect'):
            return bool(self.I.model and self.I.model.optlike(v))
        return True

    def cases(self, v, kind, st):
        """[(success, payload, st)]"""
        succ = 'Some' if kind == 'Option' else 'Ok'
        out = []
        for b, s in self.I.test_variant(v, kind, succ, st):
            if b:
                out.append((True, self.I.payload(v, succ, '0', s), s))
            else:
                out.append((False, self.I.payload(v, 'Err', '0', s) if kind == 'Result' else None, s))
        return out

    def opt_method(self, ref, v, m, args, n, env, st, want):
        I_ = self.I
        kind = self.opt_kind(v, m, st, env)
        O = kind == 'Option'
        wrap = some if O else ok
        fail = (lambda e: NONE) if O else err
        inner = None
        if want is not None and want[0] == 't' and want[1] in ('Option', 'Result', 'Try') and want[2]:
            inner = want[2][0]

        if m in ('is_some', 'is_ok'):
            d = [(b, s) for b, s in I_.test_variant(v, kind, 'Some' if O else 'Ok', st)]
            return [('v', B(b), s) for b, s in d]
        if m in ('is_none', 'is_err'):
            return [('v', B(not b), s) for b, s in I_.test_variant(v, kind, 'Some' if O else 'Ok', st)]
        if m in ('take', 'replace', 'insert', 'get_or_insert_with') and O:
            def g(vs, s):
                if m == 'take':
                    return V(v, I_.write(ref[1], ref[2], NONE, s))
                if m == 'replace':
                    return V(v, I_.write(ref[1], ref[2], some(vs[0]), s))
                if m == 'insert':
                    s = I_.write(ref[1], ref[2], some(vs[0]), s)
                    return V(('ref', ref[1], ref[2] + (('v', 'Some', '0'),)), s)
                res = []
                for b, p_, s2 in self.cases(v, kind, s):
                    if b:
                        s2 = I_.write(ref[1], ref[2], some(p_), s2)
                        res.append(('v', ('ref', ref[1], ref[2] + (('v', 'Some', '0'),)), s2))
                    else:
                        for o in I_.apply(vs[0], [], s2, n):
                            if o[0] == 'v':
                                s3 = I_.write(ref[1], ref[2], some(o[1]), o[2])
                                res.append(('v', ('ref', ref[1], ref[2] + (('v', 'Some', '0'),)), s3))
                            else:
                                res.append(o)
                return res
            return I_.many(args, env, st, None, g)
        wants = None
        if m in ('unwrap_or',):
            wants = [want]
        elif m in ('or', 'and'):
            wants = [want]
        elif m in ('map_or',):
            wants = [want, None]

        def g(vs, s):
            res = []
            for good, p_, s2 in self.cases(v, kind, s):
                res += case(vs, good, p_, s2)
            return res

        def A(f, xs, s, w=None):
            return I_.apply(f, xs, s, n, w)

        def case(vs, good, p_, s):
            bind = I_.bind
            if m in ('unwrap', 'expect', 'unwrap_unchecked'):
                I_.obligations += 1
                if good:
                    return V(p_, s)
                return [I_.panic(s, '%s on a value that can be %s' % (m, 'None' if O else 'Err'), n)]
            if m in ('unwrap_err', 'expect_err'):
                return [I_.panic(s, m, n)] if good else V(p_, s)
            if m == 'unwrap_or':
                return V(p_ if good else vs[0], s)
            if m == 'unwrap_or_default':
                if good:
                    return V(p_, s)
                t = want or (I_.typeof(v)[2][0] if tname(I_.typeof(v)) in ('Option', 'Result') and I_.typeof(v)[2] else None)
                return self.default(t, s, n)
            if m == 'unwrap_or_else':
                return V(p_, s) if good else A(vs[0], [] if O else [p_], s, want)
            if m == 'map':
                return bind(A(vs[0], [p_], s, inner), lambda x, s2: V(wrap(x), s2)) if good else V(fail(p_), s)
            if m in ('inspect', 'inspect_err'):
                if good == (m == 'inspect'):
                    return bind(A(vs[0], [p_], s), lambda x, s2: V(wrap(p_) if good else fail(p_), s2))
                return V(wrap(p_) if good else fail(p_), s)
            if m == 'map_or':
                return A(vs[1], [p_], s, want) if good else V(vs[0], s)
            if m == 'map_or_else':
                return A(vs[1], [p_], s, want) if good else A(vs[0], [] if O else [p_], s, want)
            if m == 'and_then':
                return A(vs[0], [p_], s, want) if good else V(fail(p_), s)
            if m == 'and':
                return V(vs[0], s) if good else V(fail(p_), s)
            if m == 'ok_or':
                return V(ok(p_) if good else err(vs[0]), s)
            if m == 'ok_or_else':
                return V(ok(p_), s) if good else bind(A(vs[0], [], s), lambda x, s2: V(err(x), s2))
            if m == 'ok':
                return V(some(p_) if good else NONE, s)
            if m == 'err':
                return V(NONE if good else some(p_), s)
            if m == 'map_err':
                return V(ok(p_), s) if good else bind(A(vs[0], [p_], s), lambda x, s2: V(err(x), s2))
            if m == 'or':
                return V(wrap(p_), s) if good else V(vs[0], s)
            if m == 'or_else':
                return V(wrap(p_), s) if good else A(vs[0], [] if O else [p_], s)
            if m == 'filter':
                if not good:
                    return V(NONE, s)
                return bind(A(vs[0], [p_], s), lambda c, s2: [('v', some(p_) if b else NONE, s3) for b, s3 in I_.branch(s2, c)])
            if m in ('is_some_and', 'is_ok_and'):
                return A(vs[0], [p_], s) if good else V(FALSE, s)
            if m in ('is_none_or',):
                return A(vs[0], [p_], s) if good else V(TRUE, s)
            if m == 'is_err_and':
                return V(FALSE, s) if good else A(vs[0], [p_], s)
            if m == 'flatten':
                return V(p_, s) if good else V(fail(p_), s)
            if m == 'xor':
                res = []
                for g2, q, s2 in self.cases(I_.rv(vs[0], s), 'Option', s):
                    res.append(('v', some(p_) if good and not g2 else some(q) if g2 and not good else NONE, s2))
                return res
            if m == 'zip':
                if not good:
                    return V(NONE, s)
                return [('v', some(('tup', (p_, q))) if g2 else NONE, s2) for g2, q, s2 in self.cases(I_.rv(vs[0], s), 'Option', s)]
            if m in ('iter', 'into_iter'):
                return V(('iter', (p_,) if good else ()), s)
            if m in ('as_deref', 'copied', 'cloned'):
                return V(wrap(p_) if good else fail(p_), s)
            if m == 'transpose':
                if not good:
                    return V(ok(NONE) if O else some(err(p_)), s)
                if O:
                    return [('v', ok(some(q)) if g2 else err(q), s2) for g2, q, s2 in self.cases(I_.rv(p_, s), 'Result', s)]
                return [('v', some(ok(q)) if g2 else NONE, s2) for g2, q, s2 in self.cases(I_.rv(p_, s), 'Option', s)]
            return V(I_.opaque('method ' + m, n), s)
        return I_.many(args, env, st, wants, g)

    def method(self, ref, v, m, args, n, env, st, want, targs):
        I_ = self.I
        many = I_.many
        if v[0] == 'adt' and v[1] in ('Bs58Encode', 'Bs58Decode'):
            return self.bs58_method(v, m, args, n, env, st, want)
        if v[0] == 'adt' and v[1] == 'Formatter':
            return self.fmt_method(ref, v, m, args, n, env, st)
        if v[0] == 'adt' and v[1] == 'Input':
            return self.input_method(ref, v, m, args, n, env, st)
        if v[0] == 'adt' and v[1] == 'Output':
            return self.output_method(ref, v, m, args, n, env, st)
        if m == 'into' and not args:
            w = I_.ty(targs[0], env) if targs else want
            if v[0] == 'adt' and v[1] == 'PrimType':
                return V(v, st)
            return self.convert(v, w, st, n)
        if m == 'try_into' and not args:
            return self.try_convert(v, want, st, n)
        if m == 'parse' and not args:
            w = I_.ty(targs[0], env) if targs else want
            return self.parse(v, w, st, n, env)
        if m == 'by_ref' and not args and v[0] == 'iter' and ref is not None:
            return V(ref, st)
        if m in ('clone', 'to_owned', 'borrow', 'deref', 'by_ref') and not args:
            return V(v, st)
        if m == 'to_string' and not args:
            return [o if o[1] != ('fmterr',) else I_.panic(o[2], 'formatting fails inside to_string', n) for o in self.render_value(v, '', st, n, env)]
        if m == 'fmt' and len(args) == 1:
            return many(args, env, st, None, lambda vs, s: self.fmt_value(v, vs[0], s, n, env, 'Display'))
        if m in self.OPT and self.is_optlike(v, m, st):
            return self.opt_method(ref, v, m, args, n, env, st, want)
        if m in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut') and not args:
            if v[0] in ('adt', 'pay', 'fld', 'app', 'ret', 'sym', 'sto') and m in ('as_mut', 'as_deref_mut') and self.is_optlike(v, 'unwrap', st) and ref is not None:
                if v[0] != 'adt' and tname(I_.typeof(v)) not in ('Option', 'Result'):
                    return V(ref, st)
                kind = self.opt_kind(v, 'unwrap', st, env)
                good = 'Some' if kind == 'Option' else 'Ok'
                out = []
                for b, p_, s in self.cases(v, kind, st):
                    if b:
                        w = some(p_) if kind == 'Option' else ok(p_)
                        if v[0] != 'adt':
                            s = I_.write(ref[1], ref[2], w, s)
                        q = ('ref', ref[1], ref[2] + (('v', good, '0'),))
                        out.append(('v', some(q) if kind == 'Option' else ok(q), s))
                    else:
                        out.append(('v', NONE if kind == 'Option' else err(p_), s))
                return out
            return V(v, st)
        if m == 'eq' and len(args) == 1:
            return many(args, env, st, None, lambda vs, s: self.binop('==', v, I_.rv(vs[0], s), s, n, None))
        if m == 'ne' and len(args) == 1:
            return many(args, env, st, None, lambda vs, s: self.binop('!=', v, I_.rv(vs[0], s), s, n, None))
        if m in ('lt', 'le', 'gt', 'ge') and len(args) == 1:
            op = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[m]
            return many(args, env, st, None, lambda vs, s: self.binop(op, v, I_.rv(vs[0], s), s, n, None))
        if m in ('then', 'then_some') and len(args) == 1:
            def g(vs, s):
                res = []
                for b, s2 in I_.branch(s, v):
                    if not b:
                        res.append(('v', NONE, s2))
                    elif m == 'then_some':
                        res.append(('v', some(vs[0]), s2))
                    else:
                        res += I_.bind(I_.apply(vs[0], [], s2, n), lambda x, s3: V(some(x), s3))
                return res
            return many(args, env, st, None, g)
        if m == 'not' and not args:
            return V(self.bnot(v, want), st)
        r = self.int_method(ref, v, m, args, n, env, st, want)
        if r is not None:
            return r
        r = self.ptr_method(ref, v, m, args, n, env, st, want)
        if r is not None:
            return r
        r = self.seq_method(ref, v, m, args, n, env, st, want, targs)
        if r is not None:
            return r
        r = self.ext_method(ref, v, m, args, n, env, st, want, targs)
        if r is not None:
            return r
        if m in IDENT_METHODS and not args:
            return V(v, st)
        return None

    def ptr_method(self, ref, v, m, args, n, env, st, want):
        if v[0] == 'ptr':
            if m in ('cast',):
                return V(('ptr', v[1], None), st)
            if m in ('read', 'read_unaligned') and not args:
                return V(v[1], st)
        if m == 'as_ptr' and not args:
            return V(('ptr', v, None), st)
        return None

    # ---- integers
    def int_method(self, ref, v, m, args, n, env, st, want):
        I_ = self.I
        many = I_.many
        if m in ('to_le_bytes', 'to_be_bytes', 'to_ne_bytes') and not args:
            ty = self.width(v) or (None if v[0] != 'int' else None)
            if ty is None and n['recv'].get('suffix') in INTS if n.get('recv') else False:
                ty = n['recv']['suffix']
            if ty is None and v[0] == 'int' and n.get('recv'):
                ty = self.node_int(n['recv'], env)
            if ty is None:
                return V(I_.opaque('bytes of an integer of unknown type', n), st)
            bs = self.bytes_of(v, U(ty), st)
            if bs is None:
                b = [('bits', 'u8', tuple((v, 8 * i + j) for j in range(8))) for i in range(WIDTH[ty] // 8)]
                bs = b
            return V(('arr', tuple(bs if m != 'to_be_bytes' else bs[::-1])), st)
        if m in SAME_INT or m in INPLACE:
            v = zero(v)
        if not (intish(v) or v[0] in ('int', 'bits', 'lin', 'char')):
            return None
        if m == 'swap_bytes' and v[0] in ('bits',):
            b = v[2]
            out = []
            for i in range(len(b) - 8, -8, -8):
                out += list(b[i:i + 8])
            return V(mk_bits(v[1], out), st)
        if m in ('to_le', 'from_le'):
            return V(v, st)
        if m in ('rotate_left', 'rotate_right') and v[0] == 'bits':
            def g(vs, s):
                k = I_.rv(vs[0], s)
                if k[0] != 'int':
                    return V(app(m, v, k), s)
                b = v[2]
                r = k[1] % len(b)
                if m == 'rotate_left':
                    r = len(b) - r
                return V(mk_bits(v[1], b[r:] + b[:r]), s)
            return many(args, env, st, None, g)
        if m in ('wrapping_shl', 'wrapping_shr', 'shl', 'shr') and len(args) == 1:
            op = '<<' if m.endswith('shl') else '>>'
            return many(args, env, st, None, lambda vs, s: V(self.bitop(op, v, I_.rv(vs[0], s), self.width(v)), s))
        if m in ('checked_add', 'checked_sub', 'checked_mul', 'saturating_add', 'saturating_sub', 'saturating_mul', 'wrapping_add',
                 'wrapping_sub', 'wrapping_mul', 'overflowing_add', 'min', 'max', 'checked_div', 'saturating_div', 'pow', 'saturating_pow',
                 'abs_diff', 'add', 'sub', 'mul', 'bitor', 'bitand', 'bitxor', 'div', 'rem', 'ensure_add', 'ensure_sub', 'ensure_mul',
                 'defensive_saturating_add', 'defensive_saturating_sub') and len(args) == 1:
            return many(args, env, st, [I_.typeof(v)], lambda vs, s: self.int2(v, m, zero(I_.rv(vs[0], s)), s, n, env))
        if m in INPLACE and ref is not None and len(args) == (0 if m in ('saturating_inc', 'saturating_dec') else 1):
            # x.saturating_accrue(y) is x = x.saturating_add(y)
            def g(vs, s):
                return I_.bind(self.int2(zero(I_.rv(ref, s)), INPLACE[m], zero(I_.rv(vs[0], s)) if vs else I(1), s, n, env), lambda x, s2: V(UNIT, I_.write(ref[1], ref[2], x, s2)))
            return many(args, env, st, [I_.typeof(v)], g)
        if m in ('is_zero',) and not args:
            return V(self.eq(v, I(0), st), st)
        if m in ('saturated_into', 'unique_saturated_into', 'saturated_from') and not args:
            t = I_.ty(n['targs'][0], env) if n.get('targs') else want
            tn = tname(t)
            if tn in INTS:
                w = self.width(v)
                if w and WIDTH[w] <= WIDTH[tn]:
                    return V(v, st)
                x = app('saturated', v, ('ty', t))
                I_.note_type(x, t)
                return V(x, st)
            return V(v, st)
        if m == 'count_ones' or m == 'leading_zeros':
            return V(app(m, v), st)
        if m in ('is_ascii',) and v[0] == 'char':
            return V(B(ord(v[1]) < 128), st)
        return None

    def node_int(self, n, env):
        """the integer type the source fixes for an expression, or None"""
        while n['k'] in ('Paren', 'Group', 'Ref', 'Unary') and (n['k'] != 'Unary' or n['op'] in ('*', '!')):
            n = n['e']
        t = None
        if n['k'] == 'Path' and len(n['segs']) == 1 and 'qself' not in n:
            t = env.tys.get(n['segs'][0]['id'])
        elif n['k'] == 'Cast':
            t = self.I.ty(n['ty'], env)
        elif n['k'] == 'Path' and len(n['segs']) > 1:
            t = (U(n['segs'][0]['id']) if n['segs'][0]['id'] in INTS else None)
        elif n['k'] == 'Binary' and n['op'] not in ('==', '!=', '<', '>', '<=', '>='):
            return self.node_int(n['lhs'], env) or self.node_int(n['rhs'], env)
        elif n['k'] == 'Lit':
            return n.get('suffix') if n.get('suffix') in INTS else None
        elif n['k'] == 'Call' and n['f']['k'] == 'Path' and len(n['f']['segs']) == 2 and n['f']['segs'][1]['id'] in ('from', 'min', 'max'):
            x = n['f']['segs'][0]['id']
            t = U(x) if x in INTS else None
        elif n['k'] == 'MethodCall' and n['m'] in SAME_INT:
            return self.node_int(n['recv'], env) or (self.node_int(n['args'][0], env) if n['args'] else None)
        while t and t[0] == 'ref':
            t = t[1]
        return tname(t) if t and tname(t) in INTS else None

    def int2(self, v, m, b, st, n, env=None):
        I_ = self.I
        if not self.strict:
            v, b = (x[2] if x[0] == 'conv' else x for x in (v, b))
        ty = (self.node_int(n, env) if env is not None and m in SAME_INT else None) or self.width(v) or self.width(b)
        if m in ('add', 'sub', 'mul', 'div', 'rem'):
            return self.arith({'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'rem': '%'}[m], v, b, st, n, ty)
        if m in ('bitor', 'bitand', 'bitxor'):
            return V(self.bitop({'bitor': '|', 'bitand': '&', 'bitxor': '^'}[m], v, b, ty), st)
        if m in ('min', 'max'):
            res = []
            for t, s in I_.branch(st, ('lt', b, v)):
                res.append(('v', (b if t else v) if m == 'min' else (v if t else b), s))
            return res
        op = m.split('_')[-1]
        if op in ('pow',):
            if v[0] == 'int' and b[0] == 'int':
                return V(I(v[1] ** b[1]), st)
            return V(app('pow', v, b), st)
        if op == 'div':
            if v[0] == 'int' and b[0] == 'int' and b[1]:
                r = I(v[1] // b[1])
            else:
                r = app('div', v, b)
            if m == 'checked_div':
                return [('v', NONE if z else some(r), s) for z, s in I_.branch(st, self.eq(b, I(0), st))]
            return V(r, st)
        if op == 'diff':
            return V(app('abs_diff', v, b), st)
        if op == 'add':
            r = ladd(v, b)
            bound = I((1 << WIDTH[ty]) - 1) if ty else None
        elif op == 'sub':
            r = lsub(v, b)
            bound = None
        else:
            if b[0] == 'int':
                r = lmul(v, b[1])
            elif v[0] == 'int':
                r = lmul(b, v[1])
            else:
                r = app('mul', *sorted((v, b), key=repr))
            bound = I((1 << WIDTH[ty]) - 1) if ty else None
        if m.startswith('wrapping'):
            if ty and op == 'add':
                x = self.bitop('|', v, b, ty) if v[0] == 'bits' and b[0] in ('bits', 'int') and all(
                    p == 0 or q == 0 for p, q in zip(int_bits(v, ty), int_bits(b, ty))) else None
                if x is not None:
                    return V(x, st)
            if bound is not None and st.facts.le(r, bound) is True:
                return V(r, st)
            return V(app(m, v, b), st)
        over = None
        if op == 'sub':
            over = ('lt', v, b)
        elif bound is not None and (op == 'add' or b[0] == 'int' or v[0] == 'int'):
            over = ('lt', bound, r)
        else:
            over = ('overflow', op, v, b)
        if m.startswith('checked'):
            return [('v', NONE if o else some(s.facts.canon(r)), s) for o, s in I_.branch(st, over)]
        if m.startswith('ensure'):
            return [('v', err(app('ArithmeticError')) if o else ok(s.facts.canon(r)), s) for o, s in I_.branch(st, over)]
        if m.startswith('saturating') or m.startswith('defensive'):
            mod = I_.model
            if mod and getattr(mod, 'sat_exact', False):
                d = st.facts.decide(over)
                if d is True and op == 'sub':
                    return V(I(0), st)
                st = self.note_arith('sat' + op, v, b, st, n, ty) if d is None else st
                return V(r, st)
            lim = I(0) if op == 'sub' else (bound if bound is not None else app('MAX'))
            return [('v', lim if o else s.facts.canon(r), s) for o, s in I_.branch(st, over)]
        return V(app(m, v, b), st)

    # ---- sequences, strings, iterators
    def seq_method(self, ref, v, m, args, n, env, st, want, targs):
        I_ = self.I
        many = I_.many
        if v[0] == 'enumerate' and m in ('copied', 'cloned', 'into_iter', 'by_ref'):
            return V(v, st)
        if v[0] == 'zipped' and m == 'for_each' and len(args) == 1:
            return many(args, env, st, None, lambda vs, s: self.zip_copy(v, lambda x, s2: I_.apply(vs[0], [x], s2, n), s) or V(I_.opaque('for_each', n), s))
        if v[0] == 'repeat':
            return None
        segs = self.as_seq(v, st)
        t = I_.typeof(v)
        byteish = v[0] in ('seq', 'char') or (segs is not None and (self.is_text(v) or is_bytes(t))) or v[0] in ('enc', 'dec', 'text')
        el = self.elems(v, st) if v[0] in ('arr', 'iter', 'range', 'seq') or byteish else None
        seqlike = v[0] in ('arr', 'iter', 'seq', 'range') or byteish or (t is not None and t[0] == 'sl' and segs is not None and m in ('split_first', 'split_last', 'split_at'))

        if m == 'len' and not args:
            if v[0] == 'map':
                return V(I(len(v[1])), st)
            if tname(t) == 'Location' or (v[0] == 'adt' and v[1] == 'Location'):
                v = I_.field(v, 'interior', st)
                I_.note_type(v, ('sl', JUNCTION))
            return V(self.length(v, st), st)
        if m == 'is_empty' and not args:
            if v[0] == 'range' and el is None:
                return V(('not', ('lt', v[1], v[2])), st)
            return V(self.eq(self.length(v, st), I(0), st), st)
        if m == 'contains' and v[0] == 'range' and len(args) == 1:
            def g(vs, s):
                x = I_.rv(vs[0], s)
                conds = []
                if v[1] is not None:
                    conds.append(('not', ('lt', x, v[1])))
                if v[2] is not None:
                    conds.append(('not', ('lt', v[2], x)) if v[3] else ('lt', x, v[2]))
                if len(conds) == 2 and not all(b is None or b[0] == 'int' for b in v[1:3]):
                    # bounds that are not constant: keep which of them is missed
                    out = []
                    for b, s1 in I_.branch(s, conds[0]):
                        out += [('v', B(b2), s2) for b2, s2 in I_.branch(s1, conds[1])] if b else V(B(False), s1)
                    return out
                return V(('and', tuple(conds)) if len(conds) != 1 else conds[0], s)
            return many(args, env, st, None, g)
        if not seqlike:
            if m == 'enumerate' and segs is not None:
                return None
            return None

        if m in ('iter', 'into_iter', 'bytes', 'copied', 'cloned', 'as_slice', 'as_bytes', 'as_str', 'to_vec', 'as_mut_slice', 'to_owned', 'into_vec',
                 'as_ref', 'as_mut', 'into_bytes', 'into_string', 'into_boxed_slice', 'into_boxed_str', 'drain', 'by_ref', 'to_ascii_string', 'as_array', 'peekable', 'fuse'):
            if m in ('iter', 'into_iter', 'bytes') and el is not None:
                return V(('iter', tuple(el)), st)
            if m == 'drain':
                return None
            if m in ('as_bytes', 'into_bytes', 'bytes') and self.is_text_seq(v):
                return V(self.raw_bytes(v, st), st)
            if m in ('as_str', 'into_string', 'to_ascii_string'):
                return V(self.as_text(v, st), st)
            return V(v, st)
        if m == 'chars' and not args:
            if el is not None and all(x[0] == 'int' and x[1] < 128 for x in el):
                return V(('iter', tuple(('char', chr(x[1])) for x in el)), st)
            return V(v, st)
        if m == 'iter_mut' and not args:
            if el is not None and ref is not None:
                return V(('iter', tuple(('ref', ref[1], ref[2] + (('i', I(i)),)) for i in range(len(el)))), st)
            return None
        if m == 'enumerate':
            if el is not None:
                return V(('iter', tuple(('tup', (I(i), x)) for i, x in enumerate(el))), st)
            return V(('enumerate', v), st)
        if m == 'rev' and el is not None:
            return V(('iter', tuple(el[::-1])), st)
        if m == 'zip' and el is not None:
            def g(vs, s):
                o = I_.rv(vs[0], s)
                r = self.elems(o, s)
                if vs[0][0] == 'ref' and o[0] == 'arr':
                    r = [('ref', vs[0][1], vs[0][2] + (('i', I(i)),)) for i in range(len(o[1]))]
                if o[0] == 'repeat':
                    r = [o[1]] * len(el)
                if o[0] == 'range' and r is None and o[2] is None and o[1][0] == 'int':
                    r = [I(o[1][1] + i) for i in range(len(el))]
                if r is None and self.as_seq(o, s) is not None and s.facts.le(I(len(el)), self.length(o, s)) is True:
                    r = [self.index(o, I(i), s) for i in range(len(el))]
                if r is None:
                    sg = self.as_seq(o, s)
                    if sg is not None and el and all(x[0] == 'ref' and x[2] and x[:2] == el[0][:2] and x[2] == el[0][2][:-1] + (('i', I(i)),) for i, x in enumerate(el)):
                        return V(('zipped', tuple(el), o), s)
                    return V(I_.opaque('zip', n), s)
                return V(('iter', tuple(('tup', (a, b)) for a, b in zip(el, r))), s)
            return many(args, env, st, None, g)
        if m == 'chain':
            def g(vs, s):
                o = I_.rv(vs[0], s)
                r = self.elems(o, s)
                if el is not None and r is not None:
                    return V(('iter', tuple(el) + tuple(r)), s)
                sa, sb = self.as_seq(v, s) or ((('vals', v[1]),) if v[0] == 'iter' else None), self.as_seq(o, s) or ((('vals', o[1]),) if o[0] == 'iter' else None)
                if sa is not None and sb is not None:
                    return V(('seq', self.norm(tuple(sa) + tuple(sb), s)), s)
                return V(I_.opaque('chain', n), s)
            return many(args, env, st, None, g)
        if m in ('skip', 'take', 'step_by', 'nth', 'truncate', 'nth_back') and len(args) == 1:
            def g(vs, s):
                k = I_.rv(vs[0], s)
                if k[0] == 'int' and el is not None:
                    if m == 'skip':
                        return V(('iter', tuple(el[k[1]:])), s)
                    if m == 'take':
                        if n.get('recv') and n['recv'].get('m') == 'by_ref':
                            s = self.advance(ref, v, el[k[1]:], s)
                        return V(('iter', tuple(el[:k[1]])), s)
                    if m == 'step_by':
                        return V(('iter', tuple(el[::k[1]])), s)
                    if m == 'nth':
                        s = self.advance(ref, v, el[k[1] + 1:], s)
                        return V(some(el[k[1]]) if k[1] < len(el) else NONE, s)
                    if m == 'truncate' and ref is not None:
                        return V(UNIT, I_.write(ref[1], ref[2], ('arr', tuple(el[:k[1]])), s))
                    return None or V(I_.opaque(m, n), s)
                ln = self.length(v, s)
                res = []
                for b, s2 in I_.branch(s, ('lt', ln, k)):
                    kk = ln if b else k
                    if m == 'skip':
                        r = self.slice(v, kk, ln, s2)
                    elif m in ('take', 'truncate'):
                        r = self.slice(v, I(0), kk, s2)
                    else:
                        r = None
                    if r is None:
                        r = I_.opaque(m, n)
                    if m == 'truncate':
                        res.append(('v', UNIT, I_.write(ref[1], ref[2], r, s2)))
                    else:
                        res.append(('v', r, s2))
                return res
            return many(args, env, st, None, g)
        if m == 'next' and not args and el is not None and v[0] == 'iter':
            s = self.advance(ref, v, el[1:], st)
            return V(some(el[0]) if el else NONE, s)
        if m in ('map', 'filter', 'filter_map', 'for_each', 'all', 'any', 'find', 'position', 'fold', 'try_fold', 'flat_map', 'find_map',
                 'take_while', 'skip_while', 'inspect', 'try_for_each', 'reduce', 'rposition', 'map_while', 'retain', 'scan', 'max_by_key', 'min_by_key', 'partition') and el is not None:
            return many(args, env, st, None, lambda vs, s: self.iter_closure(ref, v, el, m, vs, s, n, want))
        if m in ('collect', 'sum', 'product', 'count', 'last', 'min', 'max', 'unzip', 'concat', 'flatten', 'first', 'cycle') and not args:
            if el is not None:
                if m == 'collect':
                    return self.collect(el, targs, env, st, want, n)
                if m == 'sum':
                    acc = [('v', I(0), st)]
                    if all(intish(I_.rv(x, st)) for x in el):
                        return V(lsum(I_.rv(x, st) for x in el), st)
                if m == 'count':
                    return V(I(len(el)), st)
                if m in ('min', 'max') and not el:
                    return V(NONE, st)
                if m in ('min', 'max') and all(intish(I_.rv(x, st)) for x in el):
                    outs = V(I_.rv(el[0], st), st)
                    for x in el[1:]:
                        outs = I_.bind(outs, lambda a, s: self.int2(a, m, I_.rv(x, s), s, n, None))
                    return I_.bind(outs, lambda a, s: V(some(a), s))
                if m == 'last':
                    return V(some(el[-1]) if el else NONE, st)
                if m == 'first':
                    return V(some(el[0]) if el else NONE, st)
                if m in ('concat', 'flatten'):
                    out = []
                    good = True
                    sg = ()
                    for x in el:
                        x = I_.rv(x, st)
                        y = self.as_seq(x, st)
                        if x[0] == 'adt' and x[1] == 'Option':
                            y = (('vals', tuple(z for _, z in x[3])),)
                        if y is None:
                            good = False
                            break
                        sg += tuple(y)
                    if good:
                        r = self.norm(sg, st)
                        if not r:
                            return V(('arr', ()), st)
                        return V(('arr', r[0][1]) if len(r) == 1 and r[0][0] == 'vals' else ('seq', r), st)
            elif m == 'collect' and byteish:
                return V(v, st)
            elif m == 'count' and byteish and not self.is_text_seq(v):
                return V(self.length(v, st), st)
            elif m in ('first', 'last') and segs is not None:
                ln = self.length(v, st)
                res = []
                for b, s in I_.branch(st, self.eq(ln, I(0), st)):
                    res.append(('v', NONE if b else some(self.index(v, I(0) if m == 'first' else lsub(ln, I(1)), s)), s))
                return res
        if m in ('copy_from_slice', 'clone_from_slice') and ref is not None:
            def g(vs, s):
                o = I_.rv(vs[0], s)
                la, lb = self.length(v, s), self.length(o, s)
                oks, bad = I_.require(s, ('eq', la, lb), '%s: lengths differ' % m, n)
                out = list(bad)
                for s2 in oks:
                    if v[0] == 'arr' and o[0] == 'arr':
                        x = o
                    else:
                        sg = self.as_seq(o, s2)
                        x = ('seq', tuple(sg)) if sg else ('arr', ())
                        if o[0] == 'arr':
                            x = o
                        elif v[0] == 'arr' and sg and len(v[1]) <= 8 and all(self.const(self.seg_len(y), s2) is not None for y in sg):
                            el2 = self.elems(('seq', tuple(sg)), s2)
                            x = ('arr', tuple(el2)) if el2 is not None else x
                    out.append(('v', UNIT, I_.write(ref[1], ref[2], x, s2)))
                return out
            return many(args, env, st, None, g)
        if m == 'copy_within':
            return None
        if m == 'fill' and ref is not None:
            def g(vs, s):
                if el is not None:
                    return V(UNIT, I_.write(ref[1], ref[2], ('arr', (vs[0],) * len(el)), s))
                return V(UNIT, I_.write(ref[1], ref[2], ('seq', (('fill', vs[0], self.length(v, s)),)), s))
            return many(args, env, st, None, g)
        if m in ('split_at', 'split_at_mut', 'split_at_checked') and len(args) == 1:
            def g(vs, s):
                k = I_.rv(vs[0], s)
                ln = self.length(v, s)
                out = []
                if m == 'split_at_checked':
                    oks, bad = [], []
                    for b, s2 in I_.branch(s, ('lt', ln, k)):
                        if b:
                            out.append(('v', NONE, s2))
                        else:
                            oks.append(s2)
                else:
                    oks, bad = I_.require(s, ('not', ('lt', ln, k)), 'split_at out of range', n)
                out += bad
                if self.is_text_seq(v):
                    k2 = []
                    for s2 in oks:
                        if self.boundary_ok(v, segs, k, s2):
                            k2.append(s2)
                        else:
                            o3, p3 = I_.require(s2, ('boundary', v, k), 'byte index is not a character boundary', n)
                            k2 += o3
                            out += p3
                    oks = k2
                for s2 in oks:
                    if m == 'split_at_mut':
                        r = ('tup', (('ref', ref[1], ref[2] + (('sl', I(0), k),)), ('ref', ref[1], ref[2] + (('sl', k, ln),))))
                    else:
                        a, b = self.slice(v, I(0), k, s2), self.slice(v, k, ln, s2)
                        r = ('tup', (a if a is not None else I_.opaque('slice', n), b if b is not None else I_.opaque('slice', n)))
                    out.append(('v', r if m != 'split_at_checked' else some(r), s2))
                return out
            return many(args, env, st, None, g)
        if m in ('split_first', 'split_last') and not args:
            ln = self.length(v, st)
            res = []
            for b, s in I_.branch(st, self.eq(ln, I(0), st)):
                if b:
                    res.append(('v', NONE, s))
                elif m == 'split_first':
                    res.append(('v', some(('tup', (self.index(v, I(0), s), self.slice(v, I(1), ln, s) or I_.opaque('slice', n)))), s))
                else:
                    l1 = lsub(ln, I(1))
                    res.append(('v', some(('tup', (self.index(v, l1, s), self.slice(v, I(0), l1, s) or I_.opaque('slice', n)))), s))
            return res
        if m in ('first_chunk', 'last_chunk', 'split_first_chunk') and not args:
            k = None
            if targs:
                tt = I_.ty(targs[0], env)
                k = int(tt[1]) if tt[0] == 'const' and tt[1].isdigit() else None
            w = want
            while k is None and w is not None:
                if w[0] == 'arr' and str(w[2]).isdigit():
                    k = int(w[2])
                w = w[2][0] if w[0] == 't' and w[2] else None
            if k is None:
                return V(I_.opaque(m, n), st)
            ln = self.length(v, st)
            res = []
            for b, s in I_.branch(st, ('lt', ln, I(k))):
                if b:
                    res.append(('v', NONE, s))
                else:
                    a = I(0) if m != 'last_chunk' else lsub(ln, I(k))
                    x = ('arr', tuple(self.index(v, s.facts.canon(ladd(a, I(i))), s) for i in range(k)))
                    if m == 'split_first_chunk':
                        x = ('tup', (x, self.slice(v, I(k), ln, s) or I_.opaque('slice', n)))
                    res.append(('v', some(x), s))
            return res
        if m in ('chunks', 'chunks_exact', 'windows') and el is not None:
            def g(vs, s):
                k = I_.rv(vs[0], s)
                if k[0] != 'int' or not k[1]:
                    return V(I_.opaque(m, n), s)
                k = k[1]
                if m == 'windows':
                    xs = [el[i:i + k] for i in range(len(el) - k + 1)]
                else:
                    xs = [el[i:i + k] for i in range(0, len(el), k)]
                    if m == 'chunks_exact':
                        xs = [x for x in xs if len(x) == k]
                return V(('iter', tuple(('arr', tuple(x)) for x in xs)), s)
            return many(args, env, st, None, g)
        if m in ('get', 'get_mut', 'get_unchecked') and len(args) == 1:
            def g(vs, s):
                i = I_.rv(vs[0], s)
                ln = self.length(v, s)
                out = []
                if i[0] == 'range':
                    a, b = self.range_bounds(i, ln)
                    conds = ('and', (('not', ('lt', b, a)), ('not', ('lt', ln, b))))
                    for t_, s2 in I_.branch(s, conds):
                        if not t_:
                            out.append(('v', NONE, s2))
                            continue
                        if self.is_text_seq(v):
                            okb = [s2]
                            for k in (a, b):
                                nx = []
                                for s3 in okb:
                                    if self.boundary_ok(v, segs, k, s3):
                                        nx.append(s3)
                                    else:
                                        for b4, s4 in I_.branch(s3, ('boundary', v, k)):
                                            if b4:
                                                nx.append(s4)
                                            else:
                                                out.append(('v', NONE, s4))
                                okb = nx
                        else:
                            okb = [s2]
                        for s3 in okb:
                            if m == 'get_mut':
                                out.append(('v', some(('ref', ref[1], ref[2] + (('sl', a, b),))), s3))
                            else:
                                r = self.slice(v, a, b, s3)
                                out.append(('v', some(r if r is not None else I_.opaque('slice', n)), s3))
                    return out
                for t_, s2 in I_.branch(s, ('lt', i, ln)):
                    if not t_:
                        out.append(('v', NONE, s2))
                    elif m == 'get_mut':
                        out.append(('v', some(('ref', ref[1], ref[2] + (('i', i),))), s2))
                    else:
                        out.append(('v', some(self.index(v, i, s2)), s2))
                return out
            return many(args, env, st, None, g)
        if m in ('push', 'push_str', 'extend', 'extend_from_slice', 'append', 'push_back', 'try_push', 'insert_str', 'write_str', 'write_char', 'write_fmt') and ref is not None and v[0] not in ('iter',):
            def g(vs, s):
                x = I_.rv(vs[0], s)
                if m == 'write_fmt' and x[0] == 'fmtargs':
                    return I_.bind(self.render(x, s, n, env), lambda q, s2: self.emit(ref, q, s2, n) if q != ('fmterr',) else V(err(app('fmt error')), s2))
                if m in ('push', 'push_back', 'try_push') and x[0] != 'char':
                    add = (('vals', (x,)),)
                else:
                    add = self.as_seq(x, s) if x[0] != 'iter' else (('vals', x[1]),)
                if add is None:
                    add = (('part', I_.opaque('appended', n), I(0), I(1)),)
                if v[0] == 'arr' and len(add) == 1 and add[0][0] == 'vals':
                    new = ('arr', v[1] + tuple(add[0][1]))
                elif v[0] == 'arr' and not add:
                    new = v
                else:
                    new = ('seq', self.norm(tuple(segs) + tuple(add), s))
                r = ok() if m.startswith('write') or m == 'try_push' else UNIT
                return V(r, I_.write(ref[1], ref[2], new, s))
            return many(args, env, st, None, g)
        if m in ('insert', 'insert_str') and ref is not None and len(args) == 2:
            def g(vs, s):
                k, x = I_.rv(vs[0], s), I_.rv(vs[1], s)
                ln = self.length(v, s)
                oks, bad = I_.require(s, ('not', ('lt', ln, k)), 'insert out of range', n)
                out = list(bad)
                for s2 in oks:
                    r = self.split_at(segs, k, s2) or self.split_at(self.fillify(segs), k, s2)
                    if r is None:
                        new = I_.opaque('insert', n)
                    else:
                        if self.is_text_seq(v) and not self.boundary_ok(v, segs, k, s2):
                            o3, p3 = I_.require(s2, ('boundary', v, k), 'byte index is not a character boundary', n)
                            out += p3
                            if not o3:
                                continue
                            s2 = o3[0]
                        mid = self.as_seq(x, s2) if x[0] in ('char', 'seq', 'arr') or self.is_text(x) else (('vals', (x,)),)
                        new = ('seq', self.norm(tuple(r[0]) + tuple(mid) + tuple(r[1]), s2))
                    out.append(('v', UNIT, I_.write(ref[1], ref[2], new, s2)))
                return out
            return many(args, env, st, None, g)
        if m == 'clear' and ref is not None:
            return V(UNIT, I_.write(ref[1], ref[2], ('arr', ()), st))
        if m == 'pop' and v[0] == 'arr' and ref is not None:
            if not v[1]:
                return V(NONE, st)
            return V(some(v[1][-1]), I_.write(ref[1], ref[2], ('arr', v[1][:-1]), st))
        if m == 'remove' and v[0] in ('arr', 'seq') and ref is not None and len(args) == 1:
            def g(vs, s):
                k = I_.rv(vs[0], s)
                ln = self.length(v, s)
                oks, bad = I_.require(s, ('lt', k, ln), 'remove out of range', n)
                out = list(bad)
                for s2 in oks:
                    r1 = self.split_at(segs, k, s2)
                    r2 = self.split_at(segs, ladd(k, I(1)), s2)
                    new = ('seq', self.norm(tuple(r1[0]) + tuple(r2[1]), s2)) if r1 and r2 else I_.opaque('remove', n)
                    out.append(('v', self.index(v, k, s2), I_.write(ref[1], ref[2], new, s2)))
                return out
            return many(args, env, st, None, g)
        if m == 'reverse' and el is not None and ref is not None:
            return V(UNIT, I_.write(ref[1], ref[2], ('arr', tuple(el[::-1])), st))
        if m in ('rotate_left', 'rotate_right') and el is not None and ref is not None:
            def g(vs, s):
                k = I_.rv(vs[0], s)
                if k[0] != 'int':
                    return V(UNIT, I_.write(ref[1], ref[2], I_.opaque('rotate', n), s))
                r = k[1] if m == 'rotate_left' else len(el) - k[1]
                return V(UNIT, I_.write(ref[1], ref[2], ('arr', tuple(el[r:] + el[:r])), s))
            return many(args, env, st, None, g)
        if m == 'swap' and el is not None and ref is not None and len(args) == 2:
            def g(vs, s):
                a, b = I_.rv(vs[0], s), I_.rv(vs[1], s)
                if a[0] != 'int' or b[0] != 'int':
                    return V(UNIT, I_.write(ref[1], ref[2], I_.opaque('swap', n), s))
                l = list(el)
                l[a[1]], l[b[1]] = l[b[1]], l[a[1]]
                return V(UNIT, I_.write(ref[1], ref[2], ('arr', tuple(l)), s))
            return many(args, env, st, None, g)
        # text
        if m in ('as_ascii',) and not args:
            c = self.is_ascii(v, st)
            return [('v', some(self.as_text(v, s)) if b else NONE, s) for b, s in I_.branch(st, c)]
        if m == 'is_ascii' and not args:
            return V(self.is_ascii(v, st), st)
        if m in ('find', 'rfind', 'split_once', 'rsplit_once', 'contains', 'position') and len(args) == 1:
            def g(vs, s):
                sep = self.sep_byte(I_.rv(vs[0], s))
                if m == 'contains' and v[0] in ('arr',) and sep is None:
                    x = I_.rv(vs[0], s)
                    return V(('or', tuple(self.eq(I_.rv(y, s), x, s) for y in v[1])), s)
                if sep is None:
                    return V(I_.opaque('search', n), s)
                r = self.find_sep(v, sep, s, m.startswith('r'))
                if r is None:
                    return V(I_.opaque('search', n), s)
                out = []
                for i, s2 in r:
                    if m == 'contains':
                        out.append(('v', B(i is not None), s2))
                    elif i is None:
                        out.append(('v', NONE, s2))
                    elif m in ('find', 'rfind', 'position'):
                        out.append(('v', some(i), s2))
                    else:
                        a = self.slice(v, I(0), i, s2)
                        b = self.slice(v, ladd(i, I(1)), self.length(v, s2), s2)
                        out.append(('v', some(('tup', (a if a is not None else I_.opaque('slice', n), b if b is not None else I_.opaque('slice', n)))), s2))
                return out
            return many(args, env, st, None, g)
        if m in ('splitn', 'replacen') and byteish:
            def g(vs, s):
                if m == 'splitn':
                    k, sep = I_.rv(vs[0], s), self.sep_byte(I_.rv(vs[1], s))
                    if k != I(2) or sep is None:
                        return V(I_.opaque(m, n), s)
                    r = self.find_sep(v, sep, s)
                else:
                    sep, k = self.sep_byte(I_.rv(vs[0], s)), I_.rv(vs[2], s)
                    if k != I(1) or sep is None:
                        return V(I_.opaque(m, n), s)
                    r = self.find_sep(v, sep, s)
                if r is None:
                    return V(I_.opaque(m, n), s)
                out = []
                for i, s2 in r:
                    if i is None:
                        out.append(('v', ('iter', (v,)) if m == 'splitn' else v, s2))
                        continue
                    a = self.slice(v, I(0), i, s2)
                    b = self.slice(v, ladd(i, I(1)), self.length(v, s2), s2)
                    if a is None or b is None:
                        out.append(('v', I_.opaque(m, n), s2))
                    elif m == 'splitn':
                        out.append(('v', ('iter', (a, b)), s2))
                    else:
                        w = I_.rv(vs[1], s2)
                        out.append(('v', ('seq', self.norm(tuple(self.as_seq(a, s2)) + tuple(self.as_seq(w, s2)) + tuple(self.as_seq(b, s2)), s2)), s2))
                return out
            return many(args, env, st, None, g)
        if m == 'is_char_boundary' and len(args) == 1:
            def g(vs, s):
                k = I_.rv(vs[0], s)
                if self.boundary_ok(v, segs, k, s):
                    return V(TRUE, s)
                return V(('boundary', v, k), s)
            return many(args, env, st, None, g)
        if m in ('strip_prefix', 'strip_suffix', 'starts_with', 'ends_with') and len(args) == 1:
            def g(vs, s):
                x = I_.rv(vs[0], s)
                xs = self.as_seq(x, s) if x[0] in ('char', 'seq', 'arr') else None
                if xs is None:
                    return V(I_.opaque(m, n), s)
                k = self.segs_len(xs)
                ln = self.length(v, s)
                out = []
                for b, s2 in I_.branch(s, ('lt', ln, k)):
                    if b:
                        out.append(('v', FALSE if m.endswith('with') else NONE, s2))
                        continue
                    pre = m in ('strip_prefix', 'starts_with')
                    a = self.slice(v, I(0) if pre else lsub(ln, k), k if pre else ln, s2)
                    if a is None:
                        out.append(('v', I_.opaque(m, n), s2))
                        continue
                    ea, ex = self.elems(a, s2), self.elems(x, s2) if x[0] != 'char' else [I(b_) for b_ in x[1].encode()]
                    c = ('and', tuple(self.eq(p, q, s2) for p, q in zip(ea, ex))) if ea is not None and ex is not None else self.eq(a, x, s2)
                    for t_, s3 in I_.branch(s2, c):
                        if m.endswith('with'):
                            out.append(('v', B(t_), s3))
                        elif not t_:
                            out.append(('v', NONE, s3))
                        else:
                            r = self.slice(v, k if pre else I(0), ln if pre else lsub(ln, k), s3)
                            out.append(('v', some(r if r is not None else I_.opaque(m, n)), s3))
                return out
            return many(args, env, st, None, g)
        if m in ('trim', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'trim_matches', 'trim_start_matches', 'replace', 'eq_ignore_ascii_case') and byteish:
            return many(args, env, st, None, lambda vs, s: self.text_fn(v, m, vs, s, n))
        if m == 'join' and el is not None:
            def g(vs, s):
                sep = self.as_seq(I_.rv(vs[0], s), s)
                out = ()
                for i, x in enumerate(el):
                    y = self.as_seq(I_.rv(x, s), s)
                    if y is None or sep is None:
                        return V(I_.opaque('join', n), s)
                    out += (tuple(sep) if i else ()) + tuple(y)
                return V(('seq', self.norm(out, s)), s)
            return many(args, env, st, None, g)
        return None

    def text_fn(self, v, m, vs, st, n):
        """text functions we do not look into: a fresh text that may differ from v"""
        segs = self.norm(self.as_seq(v, st), st)
        if m == 'replace':
            a, b = self.sep_byte(self.I.rv(vs[0], st)), self.as_seq(self.I.rv(vs[1], st), st)
            if a is not None and b is not None and all(s[0] == 'vals' and s[1] or s[0] == 'part' and s[1][0] == 'enc' and a in b58_not for s in segs) \
                    and all(x[0] == 'int' for s in segs if s[0] == 'vals' for x in s[1]):
                out = ()
                for s in segs:
                    if s[0] == 'part':
                        out += (s,)
                    else:
                        for x in s[1]:
                            out += tuple(b) if x[1] == a else (('vals', (x,)),)
                return V(('seq', self.norm(out, st)), st)
            if a is not None and b == ():
                # removing every occurrence: when there is at most one this is removing the first
                return self.remove_all(v, a, st, n)
        if m.startswith('trim') and segs and all(s[0] == 'part' and s[1][0] == 'enc' for s in (segs[0], segs[-1])) and not vs:
            return V(v, st)
        t = ('text', app(m, ('seq', segs), *[self.I.deep(x, st) for x in vs]))
        return V(t, st)

    def remove_all(self, v, sep, st, n):
        r = self.find_sep(v, sep, st)
        if r is None:
            return V(self.I.opaque('replace', n), st)
        out = []
        for i, s in r:
            if i is None:
                out.append(('v', v, s))
                continue
            a = self.slice(v, I(0), i, s)
            b = self.slice(v, ladd(i, I(1)), self.length(v, s), s)
            if a is None or b is None:
                out.append(('v', self.I.opaque('replace', n), s))
                continue
            r2 = self.find_sep(b, sep, s)
            if r2 is None:
                out.append(('v', self.I.opaque('replace', n), s))
                continue
            for j, s2 in r2:
                if j is None:
                    out.append(('v', ('seq', self.norm(tuple(self.as_seq(a, s2)) + tuple(self.as_seq(b, s2)), s2)), s2))
                else:
                    out.append(('v', ('text', app('without', ('seq', tuple(self.as_seq(v, s2))), I(sep))), s2))
        return out

    def advance(self, ref, v, rest, st):
        if ref is not None:
            return self.I.write(ref[1], ref[2], ('iter', tuple(rest)), st)
        return st

    def collect(self, el, targs, env, st, want, n):
        I_ = self.I
        w = I_.ty(targs[0], env) if targs else want
        tn = tname(w)
        if tn in ('Result', 'Option', 'Try'):
            kind = 'Option' if tn == 'Option' else 'Result'
            cur = [([], st)]
            res = []
            for x in el:
                nxt = []
                for vs, s in cur:
                    for good, p_, s2 in self.cases(I_.rv(x, s), kind, s):
                        if good:
                            nxt.append((vs + [p_], s2))
                        else:
                            res.append(('v', NONE if kind == 'Option' else err(p_), s2))
                cur = nxt
            return res + [('v', (some if kind == 'Option' else ok)(('arr', tuple(vs))), s) for vs, s in cur]
        if tn == 'String' or any(x[0] == 'char' for x in el):
            sg = ()
            for x in el:
                x = I_.rv(x, st)
                y = self.as_seq(x, st)
                sg += tuple(y) if y is not None else (('vals', (x,)),)
            r = self.norm(sg, st)
            return V(('seq', r) if r else ('arr', ()), st)
        return V(('arr', tuple(el)), st)

    def iter_closure(self, ref, v, el, m, vs, st, n, want):
        I_ = self.I
        f = vs[-1]
        if m == 'map':
            return self.map_each(el, f, st, n, lambda xs, s: V(('iter', tuple(xs)), s))
        if m in ('for_each', 'inspect'):
            return self.map_each(el, f, st, n, lambda xs, s: V(UNIT if m == 'for_each' else v, s))
        if m in ('fold', 'try_fold'):
            cur = [('v', vs[0], st)]
            for x in el:
                if m == 'fold':
                    cur = I_.bind(cur, lambda acc, s, x=x: I_.apply(f, [acc, x], s, n))
                else:
                    nxt = []
                    for o in cur:
                        if o[0] != 'v' or (isinstance(o[1], tuple) and o[1][0] == 'stop'):
                            nxt.append(o)
                            continue
                        for o2 in I_.apply(f, [o[1], x], o[2], n):
                            if o2[0] != 'v':
                                nxt.append(o2)
                                continue
                            r = I_.rv(o2[1], o2[2])
                            kind = self.opt_kind(r, 'map_err', o2[2], None)
                            for good, p_, s in self.cases(r, kind, o2[2]):
                                nxt.append(('v', p_, s) if good else ('v', ('stop', NONE if kind == 'Option' else err(p_)), s))
                    cur = nxt
            if m == 'try_fold':
                return [('v', o[1][1], o[2]) if o[0] == 'v' and o[1][0] == 'stop' else ('v', ok(o[1]), o[2]) if o[0] == 'v' else o for o in cur]
            return cur
        if m == 'reduce':
            if not el:
                return V(NONE, st)
            cur = [('v', el[0], st)]
            for x in el[1:]:
                cur = I_.bind(cur, lambda acc, s, x=x: I_.apply(f, [acc, x], s, n))
            return I_.bind(cur, lambda x, s: V(some(x), s))
        # predicates
        cur = [([], st)]
        res = []
        for idx, x in enumerate(el):
            nxt = []
            for kept, s in cur:
                if kept and kept[-1] == ('taken',):
                    nxt.append((kept, s))
                    continue
                for o in I_.apply(f, [x], s, n):
                    if o[0] != 'v':
                        res.append(o)
                        continue
                    r = I_.rv(o[1], o[2])
                    if m in ('filter_map', 'flat_map', 'find_map', 'map_while'):
                        if r[0] in ('arr', 'iter') and m == 'flat_map':
                            nxt.append((kept + list(r[1]), o[2]))
                            continue
                        for good, p_, s2 in self.cases(r, self.opt_kind(r, 'ok_or', o[2], None), o[2]):
                            if good and m == 'find_map':
                                res.append(('v', some(p_), s2))
                            elif good:
                                nxt.append((kept + [p_], s2))
                            elif m == 'map_while':
                                nxt.append((kept + [('taken',)], s2))
                            else:
                                nxt.append((kept, s2))
                        continue
                    if m == 'try_for_each':
                        kind = self.opt_kind(r, 'map_err', o[2], None)
                        for good, p_, s2 in self.cases(r, kind, o[2]):
                            if good:
                                nxt.append((kept, s2))
                            else:
                                res.append(('v', NONE if kind == 'Option' else err(p_), s2))
                        continue
                    for b, s2 in I_.branch(o[2], r):
                        if m in ('filter', 'retain'):
                            nxt.append((kept + [x] if b else kept, s2))
                        elif m == 'take_while':
                            nxt.append((kept + [x] if b else kept + [('taken',)], s2))
                        elif m == 'skip_while':
                            if not b:
                                res.append(('v', ('iter', tuple(el[idx:])), s2))
                            else:
                                nxt.append((kept, s2))
                        elif m == 'all':
                            if b:
                                nxt.append((kept, s2))
                            else:
                                res.append(('v', FALSE, s2))
                        elif m == 'any':
                            if b:
                                res.append(('v', TRUE, s2))
                            else:
                                nxt.append((kept, s2))
                        elif m == 'find':
                            if b:
                                res.append(('v', some(x), s2))
                            else:
                                nxt.append((kept, s2))
                        elif m == 'position':
                            if b:
                                res.append(('v', some(I(idx)), s2))
                            else:
                                nxt.append((kept, s2))
                        else:
                            res.append(('v', I_.opaque(m, n), s2))
            cur = nxt
        for kept, s in cur:
            kept = [k for k in kept if k != ('taken',)]
            if m == 'retain':
                res.append(('v', UNIT, I_.write(ref[1], ref[2], ('arr', tuple(kept)), s)))
            elif m in ('filter', 'filter_map', 'flat_map', 'take_while', 'map_while'):
                res.append(('v', ('iter', tuple(kept)), s))
            elif m == 'skip_while':
                res.append(('v', ('iter', ()), s))
            elif m == 'all':
                res.append(('v', TRUE, s))
            elif m == 'any':
                res.append(('v', FALSE, s))
            elif m in ('find', 'position', 'find_map'):
                res.append(('v', NONE, s))
            elif m == 'try_for_each':
                res.append(('v', ok(), s))
            else:
                res.append(('v', I_.opaque(m, n), s))
        return res

    # ---- formatter, codec input/output
    def fmt_method(self, ref, v, m, args, n, env, st):
        I_ = self.I
        if m == 'alternate':
            return V(dict(v[3])['alt'], st)
        if m in ('write_str', 'write_char', 'pad'):
            return I_.many(args, env, st, None, lambda vs, s: self.emit(ref, vs[0], s, n))
        if m == 'write_fmt':
            def g(vs, s):
                fa = I_.rv(vs[0], s)
                if fa[0] != 'fmtargs':
                    return self.emit(ref, fa, s, n)
                return I_.bind(self.render(fa, s, n, env), lambda x, s2: self.emit(ref, x, s2, n) if x != ('fmterr',) else V(err(app('fmt error')), s2))
            return I_.many(args, env, st, None, g)
        return None

    def input_method(self, ref, v, m, args, n, env, st):
        I_ = self.I
        if m == 'read':
            def g(vs, s):
                if vs[0][0] != 'ref':
                    return V(I_.opaque('read', n), s)
                buf = I_.rv(vs[0], s)
                ln = self.length(buf, s)

                def h(r, s2):
                    if r[2] == 'Err':
                        return V(r, s2)
                    return V(ok(), I_.write(vs[0][1], vs[0][2], dict(r[3])['0'], s2))
                return I_.bind(self.read_input(ref, ln, s, n), h)
            return I_.many(args, env, st, None, g)
        if m == 'read_byte':
            def h(r, s2):
                if r[2] == 'Err':
                    return V(r, s2)
                return V(ok(dict(r[3])['0'][1][0]), s2)
            return I_.bind(self.read_input(ref, I(1), st, n), h)
        if m == 'remaining_len':
            d = dict(v[3])
            return V(ok(some(lsub(self.base_len(d['base']), d['pos']))), st)
        return None

    def output_method(self, ref, v, m, args, n, env, st):
        I_ = self.I

        def g(vs, s):
            old = self.as_seq(dict(v[3])['out'], s)
            x = I_.rv(vs[0], s)
            add = self.as_seq(x, s) if m == 'write' else (('vals', (x,)),)
            if add is None:
                return V(I_.opaque(m, n), s)
            new = ('adt', 'Output', None, (('out', ('seq', self.norm(tuple(old) + tuple(add), s))),))
            return V(UNIT, I_.write(ref[1], ref[2], new, s))
        if m in ('write', 'push_byte'):
            return I_.many(args, env, st, None, g)
        return None

    # ---- external types the common crate touches
    def ext_method(self, ref, v, m, args, n, env, st, want, targs):
        I_ = self.I
        t = I_.typeof(v)
        tn = tname(t)
        if tn == 'Location' or (v[0] == 'adt' and v[1] == 'Location'):
            par = I_.field(v, 'parents', st)
            I_.note_type(par, U('u8'))
            inter = I_.field(v, 'interior', st)
            I_.note_type(inter, ('sl', JUNCTION))
            if m == 'unpack':
                return V(('tup', (par, inter)), st)
            if m in ('parents', 'parent_count'):
                return V(par, st)
            if m in ('interior', 'into_interior'):
                return V(inter, st)
            if m == 'is_here':
                return V(('and', (self.eq(par, I(0), st), self.eq(self.length(inter, st), I(0), st))), st)
            if m == 'starts_with':
                def sw(vs, s):
                    o = I_.rv(vs[0], s)
                    op, oi = I_.field(o, 'parents', s), I_.field(o, 'interior', s)
                    if oi[0] != 'arr':
                        return V(I_.opaque(m, n), s)
                    ln, c = self.length(inter, s), self.eq(par, op, s)
                    res = []
                    for b, s2 in I_.branch(s, ('and', (c, ('not', ('lt', ln, I(len(oi[1]))))))):
                        if not b:
                            res.append(('v', FALSE, s2))
                            continue
                        res.append(('v', ('and', tuple(self.eq(self.index(inter, I(k), s2), j, s2) for k, j in enumerate(oi[1]))), s2))
                    return res
                return I_.many(args, env, st, None, sw)
            if m == 'first_interior':
                return I_.method_val(ref, inter, 'first', args, n, env, st, want, None)
            if m == 'last':
                return I_.method_val(ref, inter, 'last', args, n, env, st, want, None)
        if t is not None and t[0] == 'sl' and t[1] == JUNCTION or (v[0] == 'fld' and v[2] == 'interior'):
            I_.note_type(v, ('sl', JUNCTION))
            if m in ('as_slice', 'iter', 'into_iter', 'as_ref'):
                return V(v, st)
            ln = self.length(v, st)
            if m in ('first', 'last'):
                res = []
                for b, s in I_.branch(st, self.eq(ln, I(0), st)):
                    if b:
                        res.append(('v', NONE, s))
                    else:
                        res.append(('v', some(self.index(v, I(0) if m == 'first' else s.facts.canon(lsub(ln, I(1))), s)), s))
                return res
            if m in ('get', 'at') and len(args) == 1:
                def g(vs, s):
                    i = I_.rv(vs[0], s)
                    return [('v', some(self.index(v, i, s2)) if b else NONE, s2) for b, s2 in I_.branch(s, ('lt', i, ln))]
                return I_.many(args, env, st, None, g)
            if m in ('split_first', 'split_last', 'split_at'):
                return None
        if m in ('to_number',) and False:
            return None
        if tname(t) in INTS and m in ('using_encoded', 'encode_to', 'size_hint', 'encoded_size'):
            bs = self.encode_bytes(v, t, st)
            if bs is not None:
                if m in ('size_hint', 'encoded_size'):
                    return V(I(len(bs)), st)
                if m == 'using_encoded':
                    return I_.many(args, env, st, None, lambda vs, s: I_.apply(vs[0], [('arr', tuple(bs))], s, n))
                if len(args) == 1:
                    def h(pl, s):
                        pl = I_.deref_place(pl, s, ())
                        o = I_.read(pl[0], pl[1], s)
                        if o[0] == 'adt' and o[1] == 'Output':
                            old = self.as_seq(dict(o[3])['out'], s)
                            return V(UNIT, I_.write(pl[0], pl[1], ('adt', 'Output', None, (('out', ('seq', self.norm(tuple(old) + (('vals', tuple(bs)),), s))),)), s))
                        return V(I_.opaque('encoding into an unknown output', n), s)
                    return I_.bind(I_.place(args[0], env, st), h)
        if m == 'using_encoded' and len(args) == 1:
            def g(vs, s):
                return I_.apply(vs[0], [app('encode', I_.deep(v, s))], s, n)
            return I_.many(args, env, st, None, g)
        if m == 'encode' and not args:
            bs = self.encode_bytes(v, t, st)
            if bs is not None:
                return V(('arr', tuple(bs)), st)
            x = app('encode', I_.deep(v, st))
            I_.note_type(x, ('sl', U('u8')))
            return V(x, st)
        return None

    def encode_bytes(self, v, t, st):
        """SCALE bytes of integers, byte arrays and tuples of them; None when unknown"""
        if t is None:
            return None
        n = tname(t)
        if n in INTS:
            return self.bytes_of(v, t, st)
        if t[0] == 'arr':
            el = self.elems(v, st)
            if el is None:
                return None
            out = []
            for x in el:
                b = self.encode_bytes(x, t[1] if t[1] != ('inf',) else U('u8'), st)
                if b is None:
                    return None
                out += b
            return out
        if t[0] == 'tup' and v[0] == 'tup':
            out = []
            for x, xt in zip(v[1], t[1]):
                b = self.encode_bytes(x, xt, st)
                if b is None:
                    return None
                out += b
            return out
        return None


def is_bytes(t):
    if t is None:
        return False
    if t[0] in ('sl', 'arr'):
        return tname(t[1]) in ('u8', 'AsciiChar', 'Char') or t[1] == ('inf',)
    return t[0] == 't' and (t[1] in ('str', 'String') or (t[1] in ('Vec',) and t[2] and tname(t[2][0]) == 'u8'))


def loose(p, t):
    """unify, not distinguishing arrays from slices"""
    if p[0] in ('arr', 'sl') and t[0] in ('arr', 'sl'):
        return loose(p[1], t[1])
    if p[0] == 'sl' and t[0] == 't' and t[1] in ('Vec',):
        return True
    if p[0] == 'tup' and t[0] == 'tup':
        return len(p[1]) == len(t[1]) and all(loose(a, b) for a, b in zip(p[1], t[1]))
    return P.unify(p, t)


def assigned_roots(body):
    from .interp import assigned_names
    return assigned_names(body)


b58_alphabet = set(b'123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz')
b58_not = set(range(256)) - b58_alphabet

"""Rules for the shared library: payment ids (C01-C05) and asset locations (C06-C09)."""
from .terms import *
from .facts import Facts
from . import prog as P
from .interp import Interp, State, Unsupported, TooBig
from .model import Model
from .std import unraw_segs

U = lambda n: ('t', n, ())
CONFIGS = {
    'default': ['default'],
    'js': ['js', 'nightly'],
    'test': ['default', 'nightly'],
    'runtime': ['default', 'alloc', 'nightly', 'runtime'],
}


class CommonModel(Model):
    strict = True


class World:
    """one configuration of the crate under analysis"""

    def __init__(self, rep, cfg, feats):
        self.rep, self.cfg = rep, cfg
        self.p = P.Program({'virto_common': feats})
        self.root = self.p.crates['virto_common'].root
        self.I = Interp(self.p, CommonModel())

    def type(self, *names):
        for n in names:
            d, k, ext = self.p.resolve(self.root, (n,))
            if d is not None:
                return ('t', '::'.join(d.path), ()), d
        raise P.SourceError(self.root.file, 0, 'type %s is not exported by the crate' % names[0])

    def done(self):
        self.rep.absorb(self.I)

    # values
    def generic(self, t, name):
        """an arbitrary value of a type"""
        I_ = self.I
        n = t[1] if t[0] == 't' else None
        if n in WIDTH:
            return sym_bits(name, n)
        if t[0] == 'arr' and str(t[2]).isdigit():
            return ('arr', tuple(self.generic(t[1], '%s[%d]' % (name, i)) for i in range(int(t[2]))))
        if t[0] == 'tup':
            return ('tup', tuple(self.generic(x, '%s.%d' % (name, i)) for i, x in enumerate(t[1])))
        d = self.p.def_of(n) if n else None
        if d is not None and d.kind == 'struct':
            g = I_.gen_of(d, t[2])
            fs = tuple((f['id'], self.generic(self.p.ty(f['ty'], d.mod, g, t), '%s.%s' % (name, f['id'])))
                       for f in d.node['fields']['fields'] if P.cfg_ok(f.get('attrs'), d.mod.crate.cfg))
            return ('adt', n, None, fs)
        return sym(name, t)

    def results(self, outs, rule, what):
        """normal outcomes; panics become violations"""
        good = []
        for o in outs:
            self.rep.paths += 1
            if o[0] == 'v':
                good.append((self.I.deep(o[1], o[2]), o[2]))
            elif o[0] == 'panic':
                why, where = o[1]
                self.rep.bad(rule, where, '%s can panic: %s (configuration %s)' % (what, why, self.cfg), '%s panics: %s' % (what, why))
            else:
                self.rep.bad(rule, self.root.file, '%s: unexpected control flow' % what)
        return good

    def method(self, v, m, args, st):
        I_ = self.I
        t = I_.typeof(v)
        c = I_.find_method(v, t, m, None)
        if c is None:
            return None
        im, fn = c
        selfv = v
        if fn['params'][0]['ref'] and fn['params'][0]['mut']:
            a, st = I_.alloc(v, st)
            selfv = ('ref', a, ())
        return I_.call_fn(fn, im.mod, t, [selfv] + args, st, fn, dict(im.gen), im)

    def assoc(self, t, name, args, st):
        im, fn = self.I.find_assoc(t, name)
        if fn is None:
            return None
        return self.I.call_fn(fn, im.mod, t, args, st, fn, dict(im.gen), im)

    def impl(self, trait, t, fn=None, arg=None):
        for im in self.p.find_impls(t, trait, fn):
            if im.self_ty[0] == 'param':
                continue
            if arg is None or (im.trait_args and im.trait_args[0] == arg):
                return im
        return None

    def where(self, im, fn=None):
        n = im.fns[fn] if fn else im.node
        return '%s:%s' % (im.mod.file, n['l'])


def same(f, a, b):
    return a == b or f.decide_eq(a, b) is True


def le_bytes(I_, v, st):
    return I_.std.bytes_of(v, U('u64'), st)


def bytes_eq(w, v, want, st):
    """is sequence v the list of byte values `want`?"""
    el = w.I.std.elems(v, st)
    return el is not None and len(el) == len(want) and all(same(st.facts, a, b) for a, b in zip(el, want))


def worlds(rep, names=None):
    for cfg, feats in CONFIGS.items():
        if names is None or cfg in names:
            yield World(rep, cfg, feats)


# ------------------------------------------------------------------ C01
def c01(rep):
    used = {}
    for w in worlds(rep):
        T, d = w.type('PaymentId')
        at = '%s:%s' % (d.mod.file, d.node['l'])
        I_ = w.I
        U64 = U('u64')
        n = sym_bits('n', 'u64')
        if I_.std.conv_impl(n, T, 'From') is None or w.impl('From', U64, 'from') is None and w.impl('Into', T, 'into') is None:
            rep.bad('conversions exist', at, 'no conversion between u64 and PaymentId (configuration %s)' % w.cfg)
            continue
        # number -> id -> number
        for i, st in w.results(I_.std.convert(n, T, State(), d.node), 'number to id', 'converting a number to an id'):
            for n2, st2 in w.results(I_.std.convert(i, U64, st, d.node), 'id to number', 'converting an id to its number'):
                rep.check(same(st2.facts, n2, n), 'number -> id -> number is the identity', at,
                          'number %s becomes %s after conversion to an id and back (configuration %s)' % (show(n), show(n2), w.cfg),
                          'number -> id -> number')
        # id -> number -> id, and the raw bytes
        gid = w.generic(T, 'id')
        for n1, st in w.results(I_.std.convert(gid, U64, State(), d.node), 'id to number', 'converting an id to its number'):
            for i2, st2 in w.results(I_.std.convert(n1, T, st, d.node), 'number to id', 'converting a number to an id'):
                rep.check(same(st2.facts, i2, gid), 'id -> number -> id is the identity', at,
                          'id %s becomes %s after conversion to its number and back (configuration %s)' % (show(gid), show(i2), w.cfg),
                          'id -> number -> id')
            want = le_bytes(I_, n1, st)
            for m in ('as_ref', 'to_bytes'):
                outs = w.method(gid, m, [], st)
                if outs is None:
                    continue
                used[m] = True
                for bs, st3 in w.results(outs, 'raw bytes', m):
                    rep.check(want is not None and bytes_eq(w, bs, want, st3), 'raw bytes are the little-endian bytes of the number', at,
                              '%s gives %s, not the little-endian bytes of the number %s (configuration %s)' % (m, show(bs), show(n1), w.cfg),
                              'raw bytes: %s' % m)
            outs = w.method(gid, 'to_number', [], st)
            if outs is not None:
                used['to_number'] = True
                for x, st3 in w.results(outs, 'id to number', 'to_number'):
                    rep.check(same(st3.facts, x, n1), 'to_number is the conversion to u64', at, 'to_number gives %s, the conversion gives %s' % (show(x), show(n1)), 'to_number')
        outs = w.assoc(T, 'from_number', [n], State())
        if outs is not None:
            used['from_number'] = True
            for i, st in w.results(outs, 'number to id', 'from_number'):
                for n2, st2 in w.results(I_.std.convert(i, U64, st, d.node), 'id to number', 'converting an id to its number'):
                    rep.check(same(st2.facts, n2, n), 'from_number is the conversion from u64', at, 'from_number(%s) has number %s' % (show(n), show(n2)), 'from_number')
        w.done()
    for m in ('as_ref', 'to_bytes', 'to_number', 'from_number'):
        rep.check(m in used, 'interface present', 'common/src', '%s is not defined for PaymentId in any configuration' % m)
    return 'Every conversion between PaymentId, u64 and bytes is followed over abstract values whose 64 bits are tracked individually; ' \
           'a conversion is accepted only if each output bit is exactly the right input bit on every path, in four build configurations.'


# ------------------------------------------------------------------ C02
def c02(rep):
    for w in worlds(rep):
        T, d = w.type('PaymentId')
        at = '%s:%s' % (d.mod.file, d.node['l'])
        I_ = w.I
        block, idx = sym_bits('block', 'u32'), sym_bits('idx', 'u32', 16)
        extra = sym('extra', ('sl', U('u8')))
        f = Facts().assume(('lt', ('len', extra), I(2)), False)
        st0 = State().with_facts(f)
        tup = ('tup', (block, idx, extra))
        I_.types[tup] = ('tup', (U('u32'), U('u32'), ('sl', U('u8'))))
        im = I_.std.conv_impl(tup, T, 'From')
        if im is None:
            rep.bad('constructor exists', at, 'no conversion from (block, index, extra bytes) to PaymentId')
            continue
        at = w.where(im, 'from')
        for i, st in w.results(I_.std.convert(tup, T, st0, d.node), 'issuing an id', 'issuing an id'):
            for m, want in (('block_number', block), ('extrinsic_index', idx)):
                outs = w.method(i, m, [], st)
                if outs is None:
                    rep.bad('interface present', at, '%s is not defined' % m)
                    continue
                for v, st2 in w.results(outs, m, m):
                    rep.check(same(st2.facts, v, want), '%s is the one the id was issued for' % m, at,
                              '%s reports %s for an id issued with %s (configuration %s)' % (m, show(v), show(want), w.cfg), m)
            have = bits_in(i)
            need = [(b, 'block') for b in block[2]] + [(b, 'index') for b in idx[2] if b != 0]
            for k in range(2):
                need += [((('byte', extra, I(k)), j), 'extra byte %d' % k) for j in range(8)]
            lost = sorted({lab for b, lab in need if b not in have})
            rep.check(not lost, 'every issuing input is kept in the id', at,
                      'ids issued for a different %s can be equal: these bits are not kept (configuration %s)' % (' / '.join(lost), w.cfg), 'distinctness')
        # equality distinguishes what the fields distinguish
        a, b = w.generic(T, 'a'), w.generic(T, 'b')
        e = I_.std.binop('==', a, b, State(), d.node, None)
        for v, st in w.results(e, 'equality', 'comparing ids'):
            for t, s in I_.branch(st, v):
                if t:
                    rep.check(equal_under(s.facts, a, b), 'equal ids have equal fields', at,
                              'two ids that differ can compare equal', 'equality of ids')
        for v, st in w.results(I_.std.binop('==', a, a, State(), d.node, None), 'equality', 'comparing ids'):
            rep.check(st.facts.decide(v) is True, 'an id equals itself', at, 'an id can differ from itself', 'reflexive equality')
        w.done()
    return 'The tuple constructor and the accessors are followed over individually tracked bits of block, index (16 bits) and extra bytes of unknown ' \
           'length >= 2; distinctness is decided by showing that every input bit survives in the id and that equality compares every field.'


def bits_in(v, out=None):
    out = set() if out is None else out
    if isinstance(v, tuple):
        if v and v[0] == 'bits':
            out |= {b for b in v[2] if isinstance(b, tuple)}
        elif v and v[0] == 'app':
            pass        # the value is not stored as it is
        else:
            for x in v:
                if isinstance(x, tuple):
                    bits_in(x, out)
    return out


def equal_under(f, a, b):
    """do the facts force a and b (values of generic()) to be equal?"""
    if same(f, a, b):
        return True
    pairs = set()
    for t, val in f.log:
        if t[0] == 'eq' and val:
            collect_pairs(f, t[1], t[2], pairs)
    if a[0] == 'bits' and b[0] == 'bits':
        return all(x == y or (x, y) in pairs for x, y in zip(a[2], b[2]))
    if a[0] == 'adt':
        return all(equal_under(f, x, y) for (_, x), (_, y) in zip(a[3], b[3]))
    if a[0] in ('arr', 'tup'):
        return len(a[1]) == len(b[1]) and all(equal_under(f, x, y) for x, y in zip(a[1], b[1]))
    return False


def collect_pairs(f, x, y, out):
    if x[0] == 'bits' and y[0] == 'bits':
        for p, q in zip(x[2], y[2]):
            out.add((p, q))
            out.add((q, p))
    elif x[0] == y[0] == 'adt':
        for (_, p), (_, q) in zip(x[3], y[3]):
            collect_pairs(f, p, q, out)
    elif x[0] in ('arr', 'tup') and y[0] == x[0]:
        for p, q in zip(x[1], y[1]):
            collect_pairs(f, p, q, out)
    elif x[0] == y[0] == 'seq':
        for p, q in zip(x[1], y[1]):
            if p[0] == q[0] == 'vals':
                for r, s in zip(p[1], q[1]):
                    collect_pairs(f, r, s, out)


# ------------------------------------------------------------------ C03, C04
def printed(w, gid, alt, st, node):
    """[(segments or None for a formatting error, st)]"""
    outs = []
    for v, s in w.results(w.I.std.render_value(gid, '#' if alt else '', st, node, None), 'printing', 'printing an id'):
        outs.append((None if v == ('fmterr',) else w.I.std.norm(w.I.std.as_seq(v, s), s), s))
    return outs


def parse(w, T, text, st, node):
    return w.I.std.parse(text, T, st, node, None)


def c03(rep):
    n_alloc = 0
    for w in worlds(rep, ('js', 'test', 'runtime')):
        T, d = w.type('PaymentId')
        I_ = w.I
        di, fi = w.impl('Display', T, 'fmt'), w.impl('FromStr', T, 'from_str')
        if di is None or fi is None:
            rep.bad('interface present', '%s:%s' % (d.mod.file, d.node['l']), 'PaymentId cannot be printed or parsed (configuration %s)' % w.cfg)
            continue
        at, pat = w.where(di, 'fmt'), w.where(fi, 'from_str')
        gid = w.generic(T, 'id')
        dflt = I_.std.default(T, State(), d.node)[0][1]
        for plain, st in printed(w, gid, False, State(), d.node):
            if not rep.check(plain is not None, 'printing succeeds', at, 'printing an id can fail', 'printing fails'):
                continue
            for dashed, st2 in printed(w, gid, True, st, d.node):
                if not rep.check(dashed is not None, 'printing succeeds', at, 'printing an id in dashed form can fail', 'printing fails'):
                    continue
                pre = I_.std.split_at(plain, I(5), st2)
                want = I_.std.norm(tuple(pre[0]) + (('vals', (I(45),)),) + tuple(pre[1]), st2) if pre else None
                rep.check(dashed == want, 'dashed form is the plain form with a dash after the fifth character', at,
                          'dashed form is %s where the plain form is %s' % (show(('seq', dashed)), show(('seq', plain))), 'dashed form')
                for label, segs in (('plain', plain), ('dashed', dashed)):
                    for r, s in w.results(parse(w, T, ('seq', segs), st2, d.node), 'parsing', 'parsing a printed id'):
                        good = r[0] == 'adt' and r[2] == 'Ok' and same(s.facts, dict(r[3])['0'], gid)
                        rep.check(good, 'parsing the %s form gives the id back' % label, pat,
                                  'parsing the %s form of an id gives %s (configuration %s)' % (label, show(r), w.cfg), 'parse %s' % label)
                    outs = w.assoc(T, 'new', [('seq', segs)], st2)
                    if outs is None:
                        rep.bad('interface present', pat, 'PaymentId::new is missing (configuration %s)' % w.cfg)
                    else:
                        for r, s in w.results(outs, 'parsing', 'PaymentId::new on a printed id'):
                            rep.check(same(s.facts, r, gid), 'the constructor gives the id back', pat,
                                      'PaymentId::new on the %s form gives %s' % (label, show(r)), 'new %s' % label)
                for pretty, segs in ((True, dashed), (False, plain)):
                    outs = w.method(gid, 'encode', [B(pretty)], st2) if 'alloc' in w.root.crate.cfg and inherent(w, T, 'encode') else None
                    if outs is None:
                        continue
                    n_alloc += 1
                    for r, s in w.results(outs, 'encode', 'encode'):
                        sg = I_.std.as_seq(r, s)
                        rep.check(sg is not None and I_.std.norm(sg, s) == segs, 'encode returns the printed form', at,
                                  'encode(%s) gives %s, the printed form is %s' % (pretty, show(r), show(('seq', segs))), 'encode %s' % pretty)
        w.done()
    rep.check(n_alloc > 0, 'interface present', 'common/src', 'the encode method is missing')
    return 'Printing is followed for an arbitrary id to a sequence of text segments over the base-58 text of its bytes (length 8..11), then parsing is ' \
           'followed on exactly that sequence; equality of ids is decided bit by bit, and of texts segment by segment.'


def inherent(w, T, m):
    im, fn = w.I.find_assoc(T, m)
    return fn is not None and im.trait is None


def undash(w, text, st):
    """[(segments of the text without its first dash, st)]"""
    S = w.I.std
    out = []
    for i, s in S.find_sep(text, 45, st):
        if i is None:
            out.append((S.norm(S.as_seq(text, s), s), s))
        else:
            a = S.slice(text, I(0), i, s)
            b = S.slice(text, ladd(i, I(1)), S.length(text, s), s)
            out.append((unraw_segs(S.norm(tuple(S.as_seq(a, s)) + tuple(S.as_seq(b, s)), s)), s))
    return out


def c04(rep):
    for w in worlds(rep, ('js', 'test', 'runtime')):
        T, d = w.type('PaymentId')
        I_ = w.I
        fi = w.impl('FromStr', T, 'from_str')
        if fi is None:
            rep.bad('interface present', '%s:%s' % (d.mod.file, d.node['l']), 'PaymentId cannot be parsed (configuration %s)' % w.cfg)
            continue
        at = w.where(fi, 'from_str')
        text = sym('text', U('str'))
        dflt = I_.std.default(T, State(), d.node)
        oks = 0
        for r, st in w.results(parse(w, T, text, State(), d.node), 'parsing never panics', 'parsing'):
            rep.ok('parsing path ends normally', at)
            if not (r[0] == 'adt' and r[1] == 'Result'):
                rep.bad('parsing gives an id or an error', at, 'parsing ends with %s, which the analysis cannot classify' % show(r), 'parse result')
                continue
            if r[2] == 'Err':
                continue
            oks += 1
            i = dict(r[3])['0']
            for segs, s in undash(w, text, st):
                for pr, s2 in printed(w, i, False, s, d.node):
                    good = pr is not None and seq_same(w, pr, segs, s2)
                    rep.check(good, 'an accepted text is the complete printed form of the id', at,
                              'a text is accepted although it need not be the printed form of the resulting id: text without its first dash is %s, the id prints as %s (configuration %s)' % (
                                  show(('seq', segs)), show(('seq', pr)) if pr is not None else 'error', w.cfg), 'accepts other text')
        rep.check(oks > 0, 'some text is accepted', at, 'no text is ever accepted')
        outs = w.assoc(T, 'new', [text], State())
        if outs is None:
            rep.bad('interface present', at, 'PaymentId::new is missing (configuration %s)' % w.cfg)
        else:
            for r, st in w.results(outs, 'the constructor never panics', 'PaymentId::new'):
                # what does parsing say on this path?
                for pr in parse(w, T, text, st, d.node):
                    if pr[0] != 'v':
                        continue
                    v, s = I_.deep(pr[1], pr[2]), pr[2]
                    if v[0] == 'adt' and v[2] == 'Err':
                        rep.check(same(s.facts, r, I_.deep(dflt[0][1], s)), 'the constructor falls back to the default id', at,
                                  'PaymentId::new gives %s where parsing fails' % show(r), 'fallback')
                    elif v[0] == 'adt' and v[2] == 'Ok':
                        rep.check(same(s.facts, r, dict(v[3])['0']), 'the constructor gives the parsed id', at,
                                  'PaymentId::new gives %s where parsing gives %s' % (show(r), show(dict(v[3])['0'])), 'new')
        w.done()
    return 'Parsing is followed on an arbitrary string of unknown length: every indexing, slicing, copy, unwrap and assertion on the way is an obligation discharged ' \
           'from the facts of its path, and on every accepting path the printed form of the result is compared with the input less its first dash.'


def seq_same(w, a, b, st):
    S = w.I.std
    a, b = unraw_segs(S.norm(a, st)), unraw_segs(S.norm(b, st))
    if a == b:
        return True
    return st.facts.decide_eq(('seq', a), ('seq', b)) is True


# ------------------------------------------------------------------ C05
def c05(rep):
    for w in worlds(rep, ('runtime',)):
        T, d = w.type('PaymentId')
        I_ = w.I
        base = '%s:%s' % (d.mod.file, d.node['l'])
        dv = P.derives(d.node, w.root.crate.cfg)
        gid = w.generic(T, 'id')
        num = w.results(I_.std.convert(gid, U('u64'), State(), d.node), 'id to number', 'converting an id to its number')
        if len(num) != 1:
            rep.bad('id to number', base, 'the number of an id is not a single expression')
            return ''
        n, st = num[0]
        want = le_bytes(I_, n, st)
        # encoding
        im = w.impl('Encode', T)
        if im is None and 'Encode' in dv:
            bs = []
            t = None
            for f, v in gid[3]:
                e = I_.std.encode_bytes(v, I_.typeof(v) if v[0] != 'arr' else ('arr', U('u8'), str(len(v[1]))), st)
                bs = bs + e if e is not None and bs is not None else None
            rep.check(bs is not None and bytes_eq(w, ('arr', tuple(bs)), want, st), 'encoding is the little-endian bytes of the number', base,
                      'the derived encoding is not the number\'s', 'derived encode')
        elif im is None:
            rep.bad('interface present', base, 'PaymentId has no chain encoding')
        else:
            any_ = False
            for fn in ('using_encoded', 'encode_to', 'encode'):
                if fn not in im.fns:
                    continue
                any_ = True
                at = w.where(im, fn)
                if fn == 'using_encoded':
                    got = ('fn', 'native', lambda args, s, node: [('v', ('marked', I_.rv(args[0], s)), s)])
                    outs = I_.call_fn(im.fns[fn], im.mod, T, [gid, got], st, d.node, dict(im.gen), im)
                    res = [(v[1] if v[0] == 'marked' else None, s) for v, s in w.results(outs, 'encoding', fn)]
                elif fn == 'encode_to':
                    a, s0 = I_.alloc(('adt', 'Output', None, (('out', ('arr', ())),)), st)
                    outs = I_.call_fn(im.fns[fn], im.mod, T, [gid, ('ref', a, ())], s0, d.node, dict(im.gen), im)
                    res = [(dict(I_.rv(('ref', a, ()), s)[3])['out'], s) for v, s in w.results(outs, 'encoding', fn)]
                else:
                    outs = I_.call_fn(im.fns[fn], im.mod, T, [gid], st, d.node, dict(im.gen), im)
                    res = w.results(outs, 'encoding', fn)
                for bs, s in res:
                    rep.check(bs is not None and bytes_eq(w, bs, want, s), 'encoding is the little-endian bytes of the number', at,
                              '%s yields %s for the number %s' % (fn, show(bs) if bs else 'an unknown value', show(n)), fn)
            rep.check(any_, 'an encoding is defined', w.where(im), 'the Encode implementation defines no encoding')
            consts(w, rep, im, 'size_hint', [gid], T, I(8))
        # decoding
        im = w.impl('Decode', T)
        if im is None:
            rep.check('Decode' in dv and [f for f, _ in gid[3]] is not None and derived_ok(w, gid, want, st), 'decoding', base, 'PaymentId has no chain decoding that matches its encoding', 'decode')
        else:
            for fn in [x for x in ('decode', 'decode_into') if x in im.fns]:
                at = w.where(im, fn)
                inp = sym('input', ('sl', U('u8')))
                a, s0 = I_.alloc(('adt', 'Input', None, (('base', inp), ('pos', I(0)))), State())
                outs = I_.call_fn(im.fns[fn], im.mod, T, [('ref', a, ())], s0, d.node, dict(im.gen), im)
                succ = 0
                for v, s in w.results(outs, 'decoding', fn):
                    if v[0] == 'adt' and v[2] == 'Err':
                        rep.check(s.facts.decide(('lt', ('len', inp), I(8))) is True, 'eight bytes are always accepted', at,
                                  'decoding can fail although eight bytes are available', 'decode refuses')
                        continue
                    if not (v[0] == 'adt' and v[2] == 'Ok'):
                        rep.bad('decoding', at, 'decoding ends with %s' % show(v), 'decode result')
                        continue
                    succ += 1
                    pos = dict(I_.rv(('ref', a, ()), s)[3])['pos']
                    rep.check(same(s.facts, pos, I(8)), 'decoding consumes exactly eight bytes', at, 'decoding consumes %s bytes' % show(pos), 'decode length')
                    want2 = [I_.std.byte(inp, I(k)) for k in range(8)]
                    for n2, s2 in w.results(I_.std.convert(dict(v[3])['0'], U('u64'), s, d.node), 'id to number', 'converting an id to its number'):
                        bs = le_bytes(I_, n2, s2)
                        rep.check(bs is not None and all(same(s2.facts, x, y) for x, y in zip(bs, want2)), 'decoding gives the id with that number', at,
                                  'decoding gives the id with number %s' % show(n2), 'decode value')
                rep.check(succ > 0, 'decoding can succeed', at, 'decoding never succeeds')
            consts(w, rep, im, 'encoded_fixed_size', [], T, some(I(8)))
            for fn in im.fns:
                if fn not in ('decode', 'encoded_fixed_size', 'decode_into', 'skip'):
                    rep.bad('decoding', w.where(im, fn), 'unexpected function %s in the Decode implementation' % fn)
        im = w.impl('MaxEncodedLen', T)
        if im is None:
            sz = sum(len(I_.std.encode_bytes(v, I_.typeof(v), st) or ()) for f, v in gid[3])
            rep.check('MaxEncodedLen' in dv and sz == 8, 'declared maximum size', base, 'the maximum encoded size is not declared as 8', 'max_encoded_len')
        else:
            consts(w, rep, im, 'max_encoded_len', [], T, I(8), True)
        im = w.impl('TypeInfo', T)
        if im is None:
            rep.bad('type description', base, 'the type description of PaymentId is not that of u64', 'type info')
        else:
            at = w.where(im)
            if 'Identity' in im.types:
                t = w.p.ty(im.types['Identity']['ty'], im.mod, {}, T)
                rep.check(t == U('u64') or t == T, 'type description', at, 'the type identity is %s' % (t,), 'type identity')
            outs = I_.call_fn(im.fns['type_info'], im.mod, T, [], State(), d.node, {}, im)
            for v, s in w.results(outs, 'type description', 'type_info'):
                rep.check(v == ('adt', 'TypeDefPrimitive', 'U64', ()), 'type description', at, 'the type description is %s' % show(v), 'type info')
        w.done()
    return 'Encode, Decode, MaxEncodedLen and TypeInfo of PaymentId are followed over tracked bits and an arbitrary input stream; the encoded bytes, the number of bytes ' \
           'consumed and every declared size are compared with the eight little-endian bytes of the number.'


def derived_ok(w, gid, want, st):
    bs = []
    for f, v in gid[3]:
        t = w.I.typeof(v) if v[0] != 'arr' else ('arr', U('u8'), str(len(v[1])))
        e = w.I.std.encode_bytes(v, t, st)
        if e is None:
            return False
        bs += e
    return bytes_eq(w, ('arr', tuple(bs)), want, st)


def consts(w, rep, im, fn, args, T, want, must=False):
    if fn not in im.fns:
        if must:
            rep.bad('declared sizes agree', w.where(im), '%s is not defined' % fn)
        return
    for v, s in w.results(w.I.call_fn(im.fns[fn], im.mod, T, args, State(), im.node, dict(im.gen), im), fn, fn):
        rep.check(same(s.facts, v, want), 'declared sizes agree', w.where(im, fn), '%s is %s, the encoding has 8 bytes' % (fn, show(v)), fn)


# ------------------------------------------------------------------ C06, C07, C08
def maps(w):
    T, d = w.type('FungibleAssetLocation')
    A, ad = w.type('AsFungibleAssetLocation')
    im = w.impl('MaybeEquivalence', A)
    if im is None or 'convert' not in im.fns or 'convert_back' not in im.fns:
        raise P.SourceError(ad.mod.file, ad.node['l'], 'the location conversion does not define both directions')
    return T, im


def conv(w, im, v, st):
    return w.I.call_fn(im.fns['convert'], im.mod, im.self_ty, [v], st, im.fns['convert'], dict(im.gen), im)


def conv_back(w, im, v, st):
    return w.I.call_fn(im.fns['convert_back'], im.mod, im.self_ty, [v], st, im.fns['convert_back'], dict(im.gen), im)


def loc_same(w, f, made, loc):
    """is a constructed location the given one under the facts?"""
    I_ = w.I
    made_p, made_i = I_.field(made, 'parents', State()), I_.field(made, 'interior', State())
    par, inter = I_.field(loc, 'parents', State()), I_.field(loc, 'interior', State())
    I_.note_type(inter, ('sl', U('Junction')))
    if not same(f, made_p, par):
        return 'number of parents'
    if same(f, made_i, inter):
        return None
    if made_i[0] != 'arr':
        return 'junctions'
    if f.decide_eq(('len', inter), I(len(made_i[1]))) is not True:
        return 'number of junctions'
    for k, x in enumerate(made_i[1]):
        e = I_.std.index(inter, I(k), State())
        if not same(f, x, e):
            return 'junction %d' % k
    return None


def c06(rep):
    for w in worlds(rep, ('runtime',)):
        T, im = maps(w)
        I_ = w.I
        at, bt = w.where(im, 'convert'), w.where(im, 'convert_back')
        gid = sym('id', T)
        for r, st in w.results(conv_back(w, im, gid, State()), 'giving a location', 'giving a location'):
            case = describe(st.facts)
            if not rep.check(r[0] == 'adt' and r[2] == 'Some', 'every identifier has a location', bt, 'an identifier (%s) has no location' % case, 'no location: %s' % case):
                continue
            loc = dict(r[3])['0']
            for r2, st2 in w.results(conv(w, im, loc, st), 'reading back', 'reading a location'):
                good = r2[0] == 'adt' and r2[2] == 'Some' and same(st2.facts, dict(r2[3])['0'], gid)
                rep.check(good, 'identifier -> location -> identifier is the identity', bt,
                          'the identifier (%s) has location %s, which reads back as %s' % (describe(st2.facts), show(loc), show(r2)), 'id -> location -> id: %s' % case)
        loc = sym('location', U('Location'))
        seen = 0
        for r, st in w.results(conv(w, im, loc, State()), 'x', 'x') if False else [(I_.deep(o[1], o[2]), o[2]) for o in conv(w, im, loc, State()) if o[0] == 'v']:
            rep.paths += 1
            if not (r[0] == 'adt' and r[1] == 'Option'):
                rep.bad('reading a location', at, 'reading a location ends with %s' % show(r), 'convert result')
                continue
            if r[2] == 'None':
                continue
            seen += 1
            i = dict(r[3])['0']
            for r2, st2 in w.results(conv_back(w, im, i, st), 'giving a location', 'giving a location'):
                if not (r2[0] == 'adt' and r2[2] == 'Some'):
                    rep.bad('recognised location -> identifier -> location is the identity', at, 'a recognised location gives %s, which has no location' % show(i), 'recognised: no location')
                    continue
                diff = loc_same(w, st2.facts, dict(r2[3])['0'], loc)
                rep.check(diff is None, 'recognised location -> identifier -> location is the identity', at,
                          'a location is recognised as %s, whose location %s differs in the %s' % (show(i), show(dict(r2[3])['0']), diff), 'recognised: %s %s' % (show_shape(i), diff))
        rep.check(seen > 0, 'some location is recognised', at, 'no location is recognised')
        w.done()
    return 'Both conversion tables are followed for an arbitrary identifier and an arbitrary location; on every path the round trip is compared component by component ' \
           '(parents, number of junctions, each junction and its number) under the facts of that path.'


def show_shape(v):
    return str(v[2] or v[1]).split('::')[-1] if v[0] == 'adt' else v[0]


def describe(f):
    return ', '.join(sorted('%s' % e[0] for k, e in f.var.items() if e[0])) or 'any'


def numbers(v, out=None):
    """integer leaves of a value"""
    out = [] if out is None else out
    if v[0] == 'adt':
        for _, x in v[3]:
            numbers(x, out)
    elif v[0] in ('tup', 'arr'):
        for x in v[1]:
            numbers(x, out)
    else:
        out.append(v)
    return out


def c07(rep):
    for w in worlds(rep, ('runtime',)):
        T, im = maps(w)
        I_ = w.I
        at = w.where(im, 'convert')
        loc = sym('location', U('Location'))
        inter = I_.field(loc, 'interior', State())
        I_.note_type(inter, ('sl', U('Junction')))
        for r, st in w.results(conv(w, im, loc, State()), 'reading a location never panics', 'reading a location'):
            rep.ok('reading path ends normally', at)
            if not (r[0] == 'adt' and r[1] == 'Option'):
                rep.bad('reading a location gives an identifier or nothing', at, 'reading a location ends with %s' % show(r), 'convert result')
                continue
            if r[2] == 'None':
                continue
            i = dict(r[3])['0']
            leaves = [st.facts.canon(x) for x in numbers(i)]
            n = I_.std.const(('len', inter), st)
            for k in range(n or 0):
                e = I_.std.index(inter, I(k), st)
                var = st.facts.variant(e)
                if var in ('Parachain', 'GeneralIndex'):
                    num = st.facts.canon(I_.payload(e, var, '0', st))
                    rep.check(num[0] == 'int' or num in leaves, 'numbers are kept whole', at,
                              'the %s number of a location is not kept unchanged in the identifier %s' % (var, show(i)), 'number cut: %s %s' % (show_shape(i), var))
            typed_leaves(w, rep, i, T, st, at)
        w.done()
    return 'Reading is followed for an arbitrary location; every unwrap, expect, index and assertion is an obligation, every numeric field of a produced identifier must be a ' \
           'number of the location itself, and the path must bound it by the field\'s type.'


def typed_leaves(w, rep, v, t, st, at):
    """every integer field must hold a value that fits its type"""
    if v[0] != 'adt':
        return
    d = w.p.def_of(v[1])
    for f, x in v[3]:
        ft = None
        if d is not None:
            fs = d.node['fields'] if d.kind == 'struct' else next(q for q in d.node['variants'] if q['id'] == v[2])['fields']
            for q in fs['fields']:
                if q['id'] == f:
                    ft = w.p.ty(q['ty'], d.mod, {}, None)
        elif v[1] == 'Option' and t and t[0] == 't' and t[2]:
            ft = t[2][0]
        if x[0] == 'adt':
            typed_leaves(w, rep, x, ft, st, at)
        elif ft and ft[0] == 't' and ft[1] in WIDTH:
            src = w.I.typeof(x)
            fits = (src and src[0] == 't' and src[1] in WIDTH and WIDTH[src[1]] <= WIDTH[ft[1]] and x[0] != 'app') or \
                st.facts.le(x, I((1 << WIDTH[ft[1]]) - 1)) is True
            rep.check(bool(fits) and x[0] != 'app', 'numbers fit their field', at, 'field %s of the identifier receives %s, which need not fit' % (f, show(x)), 'field %s' % f)


def pallet_table(p, root):
    """[(name, index, crate, node)] of the runtime's pallets"""
    out = []
    for m in root.crate.modules:
        if not any(a[0].split('::')[-1] == 'runtime' for a in P.live_attrs(m.attrs, root.crate.cfg)):
            continue
        for it in m.items:
            if it['k'] != 'Type':
                continue
            for path, tt, args in P.live_attrs(it.get('attrs'), root.crate.cfg):
                if path.endswith('pallet_index'):
                    ty = it['ty']
                    name = '::'.join(s['id'] for s in ty['segs']) if ty['k'] == 'TyPath' else '?'
                    out.append((it['id'], int(str(tt[0]).replace('_', '')), name, it, m))
    return out


def c08(rep):
    p = P.Program({'kreivo_runtime': ['default']})
    root = p.crates['kreivo_runtime'].root
    tab = pallet_table(p, root)
    hold = [x for x in tab if x[2].split('::')[0] == 'pallet_assets' or x[2] == 'pallet_assets']
    if not rep.check(len(hold) == 1, 'one assets pallet', root.file, 'the runtime hosts %d assets pallets' % len(hold)):
        return ''
    idx = hold[0][1]
    rat = '%s:%s' % (hold[0][4].file, hold[0][3]['l'])
    rep.extra['runtime_assets_pallet_index'] = idx
    for w in worlds(rep, ('runtime',)):
        T, im = maps(w)
        I_ = w.I
        at, bt = w.where(im, 'convert'), w.where(im, 'convert_back')
        n = 0
        for r, st in [(I_.deep(o[1], o[2]), o[2]) for o in conv_back(w, im, sym('id', T), State()) if o[0] == 'v']:
            rep.paths += 1
            if not (r[0] == 'adt' and r[2] == 'Some'):
                continue
            loc = dict(r[3])['0']
            par, inter = I_.field(loc, 'parents', st), I_.field(loc, 'interior', st)
            if st.facts.decide_eq(par, I(0)) is False:
                continue
            n += 1
            e = I_.rv(I_.std.index(inter, I(0), st), st) if inter[0] == 'arr' and inter[1] else None
            k = dict(e[3]).get('0') if e is not None and e[0] == 'adt' and e[2] == 'PalletInstance' else None
            rep.check(k is not None and same(st.facts, k, I(idx)), 'local assets name the assets pallet', bt,
                      'a local asset gets location %s; the assets pallet is at index %d (%s)' % (show(loc), idx, rat), 'given index')
        rep.check(n > 0, 'local assets have locations', bt, 'no identifier has a location on this chain')
        loc = sym('location', U('Location'))
        n = 0
        for r, st in [(I_.deep(o[1], o[2]), o[2]) for o in conv(w, im, loc, State()) if o[0] == 'v']:
            rep.paths += 1
            if not (r[0] == 'adt' and r[2] == 'Some'):
                continue
            par, inter = I_.field(loc, 'parents', st), I_.field(loc, 'interior', st)
            if st.facts.decide_eq(par, I(0)) is False:
                continue
            n += 1
            e = I_.std.index(inter, I(0), st)
            good = st.facts.decide_is(e, 'PalletInstance') is True and same(st.facts, I_.payload(e, 'PalletInstance', '0', st), I(idx))
            rep.check(good, 'only the assets pallet\'s locations are read as local assets', at,
                      'a local location is recognised without its first junction being the assets pallet (index %d at %s)' % (idx, rat), 'required index')
        rep.check(n > 0, 'local locations are read', at, 'no location of this chain is recognised')
        w.done()
    return 'The index of the assets pallet is read from the runtime\'s pallet table and compared with the pallet instance that both conversion tables build and demand on every path.'


# ------------------------------------------------------------------ C09
def c09(rep):
    known = []
    for w in [*worlds(rep, ('runtime',)), *worlds(rep, set(CONFIGS) - {'runtime'})]:
        T, d = w.type('FungibleAssetLocation')
        I_ = w.I
        at = '%s:%s' % (d.mod.file, d.node['l'])
        n = sym_bits('n', 'u32')
        if not rep.check(I_.std.conv_impl(n, T, 'From') is not None, 'conversion exists', at, 'no conversion from a number to an identifier (configuration %s)' % w.cfg, 'no conversion'):
            continue
        im = w.impl('From', T, 'from', U('u32'))
        at = w.where(im, 'from') if im is not None else at
        made = w.results(I_.std.convert(n, T, State(), d.node), 'number to identifier', 'converting a number to an identifier')
        zero = w.results(I_.std.convert(I(0), T, State(), d.node), 'number to identifier', 'converting zero to an identifier')
        if w.cfg == 'runtime':
            L, mp = maps(w)
            for i, st in made:
                for r, st2 in w.results(conv_back(w, mp, i, st), 'giving a location', 'giving the location of a numbered asset'):
                    loc = dict(r[3])['0'] if r[0] == 'adt' and r[2] == 'Some' else None
                    if not rep.check(loc is not None, 'a numbered asset has a location', at, 'the asset of number %s has no location' % show(n), 'no location'):
                        continue
                    par, inter = I_.field(loc, 'parents', st2), I_.field(loc, 'interior', st2)
                    rep.check(same(st2.facts, par, I(0)), 'a bare number denotes an asset of this chain', at,
                              'the number %s denotes the asset at %s, which is not on this chain' % (show(n), show(loc)), 'local')
                    e = I_.rv(inter[1][-1], st2) if inter[0] == 'arr' and inter[1] else None
                    k = dict(e[3]).get('0') if e is not None and e[0] == 'adt' and e[2] == 'GeneralIndex' else None
                    rep.check(k is not None and same(st2.facts, k, n), 'a bare number denotes the asset of that number', at,
                              'the number %s denotes the asset at %s' % (show(n), show(loc)), 'number')
                    known.append(i)
        else:
            # without the location table: the same identifier as in the runtime
            for i, st in made:
                rep.check(any(same(st.facts, i, k) for k in known), 'a bare number denotes the local asset of that number', at,
                          'the number %s becomes the identifier %s (configuration %s)' % (show(n), show(i), w.cfg), 'number')
        for df, st in w.results(I_.std.default(T, State(), d.node), 'default identifier', 'the default identifier'):
            for z, st2 in zero:
                rep.check(same(st.facts, df, z), 'the default identifier is local asset zero', at,
                          'the default identifier is %s; number zero gives %s (configuration %s)' % (show(df), show(z), w.cfg), 'default')
        w.done()
    return 'The conversion from a 32-bit number and the default are followed for an arbitrary number in four build configurations; in the runtime configuration the resulting ' \
           'identifier is carried on to its location, which must lie on this chain and end in that very number.'


RULES = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09}

"""Encoded forms: what is stored on chain, signed in calls and derived from pallet identifiers, against what has been published."""
import json, os
from . import prog as P
from . import frame
from . import runtime as R
from .runtime import World, last
from .terms import *
from .frame import strip

PUBLISHED = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'published.json')
ALIASES = {'Balance': 'u128', 'Nonce': 'u32', 'BlockNumber': 'u32', 'Hash': 'H256', 'AccountId32': 'AccountId'}
PRIMS = {'u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'bool', 'char'}
NOTHING = ['rec', []]


def codec_attr(node, cfg, word):
    """value of a word of the codec attributes ('' without value), or None"""
    for p, tt, _ in P.live_attrs(node.get('attrs'), cfg):
        if p not in ('codec', 'pallet::compact'):
            continue
        if p == 'pallet::compact' and word == 'compact':
            return ''
        for part in P.split_commas(tt):
            ws = [x for x in part if isinstance(x, str)]
            if ws[:1] == [word]:
                return ''.join(ws[2:]) if len(ws) > 2 else ''
    return None


class Forms:
    """forms: ['rec', [[name, form]..]], ['enum', {index: [name, form]}], ['opt'|'vec'|'compact', form], ['arr', n, form], or a name"""

    def __init__(self, p, config=None):
        self.p, self.config, self.deep = p, config, 0

    def of(self, t, crate):
        self.deep += 1
        try:
            if self.deep > 40:
                return 'recursive'
            return self._of(t, crate)
        finally:
            self.deep -= 1

    def _of(self, t, crate):
        k = t[0]
        if k == 'tup':
            return ['rec', [[str(i), self.of(x, crate)] for i, x in enumerate(t[1])]]
        if k == 'arr':
            return ['arr', str(t[2]), self.of(t[1], crate)]
        if k == 'sl':
            return ['vec', self.of(t[1], crate)]
        if k == 'proj':
            return self.projection(t, crate)
        if k in ('param', 'inf'):
            return 'parameter'
        if k != 't':
            return str(k)
        d = self.p.def_of(t[1])
        if d is not None and d.kind in ('struct', 'enum'):
            return self.local(d, t)
        n = t[1].split('::')[-1]
        a = t[2]
        if n in PRIMS and not a:
            return n
        if n == 'Option' and a:
            return ['opt', self.of(a[0], crate)]
        if n in ('Vec', 'BoundedVec', 'WeakBoundedVec', 'BTreeSet', 'BoundedBTreeSet', 'VecDeque') and a:
            return ['vec', self.of(a[0], crate)]
        if n in ('String', 'str'):
            return ['vec', 'u8']
        if n in ('Box', 'Arc', 'Rc', 'Cow') and a:
            return self.of(a[-1], crate)
        if n == 'Compact' and a:
            return ['compact', self.of(a[0], crate)]
        if n == 'PhantomData' or n == '()':
            return NOTHING
        if n == 'MultiAddress' and len(a) == 2:
            return [n, self.of(a[0], crate), self.of(a[1], crate)]
        return ALIASES.get(n, n)

    def local(self, d, t):
        """form of a type of the repository"""
        cfg, crate = d.mod.crate.cfg, d.mod.crate.name
        at = [x[0] for x in P.live_attrs(d.node.get('attrs'), cfg)]
        own = [im for im in self.p.impls() if im.trait_name == 'Encode' and im.self_ty[0] == 't' and im.self_ty[1] == t[1]]
        if own or not ({'Encode', 'Decode'} <= P.derives(d.node, cfg) or 'pallet::composite_enum' in at or 'pallet::origin' in at):
            return 'own form'
        ps = [q['id'] for q in d.node['generics']['params'] if q['k'] in ('TypeParam', 'ConstParam')]
        gen = dict(zip(ps, t[2]))

        def fields(fs):
            out = []
            for i, f in enumerate(fs['fields']):
                if not P.cfg_ok(f.get('attrs'), cfg) or codec_attr(f, cfg, 'skip') is not None:
                    continue
                x = self.of(self.p.ty(f['ty'], d.mod, gen, t), crate)
                if codec_attr(f, cfg, 'compact') is not None:
                    x = ['compact', x]
                out.append([f.get('id') or str(i), x])
            return ['rec', out]
        if d.kind == 'struct':
            return fields(d.node['fields'])
        out, nxt = {}, 0
        for v in d.node['variants']:
            if not P.cfg_ok(v.get('attrs'), cfg):
                continue
            if v.get('disc') is not None:
                e = v['disc']
                nxt = int(str(e['v'])) if e['k'] == 'Lit' else nxt
            i = codec_attr(v, cfg, 'index')
            if codec_attr(v, cfg, 'skip') is None:
                out[str(int(i)) if i and i.isdigit() else str(nxt)] = [v['id'], fields(v['fields'])]
            nxt += 1
        return ['enum', out]

    def projection(self, t, crate):
        """an associated type of the configuration, as the runtime sets it"""
        chain, trait = [], None
        while t[0] == 'proj':
            chain.insert(0, t[3])
            trait, t = t[2], t[1]
        if chain[-1] == 'PalletsOrigin':
            return 'origin'
        if chain == ['Lookup', 'Source']:
            return 'address'
        s = self.config(crate, trait, chain[0]) if self.config else None
        if s is None:
            return '.'.join(chain)
        if len(chain) == 1:
            return self.of(s, crate)
        return '%s.%s' % (s[1].split('::')[-1] if s[0] == 't' else s[0], '.'.join(chain[1:]))


def flat(f):
    """the fields of a record with nested records opened"""
    out = []
    for n, x in f[1]:
        if isinstance(x, list) and x[0] == 'rec':
            out += flat(x)
        else:
            out.append((n, x))
    return out


def named(n):
    return not n.isdigit()


def differ(want, got, what=''):
    """what distinguishes two forms (None: nothing)"""
    if 'own form' in (want, got):
        return None     # written out by hand: the rules on that type decide
    w = want if isinstance(want, list) else [want]
    g = got if isinstance(got, list) else [got]
    if w[0] == 'rec' or g[0] == 'rec':
        a = flat(w) if w[0] == 'rec' else [('0', want)]
        b = flat(g) if g[0] == 'rec' else [('0', got)]
        if len(a) != len(b):
            return '%s has %d parts, not %d' % (what or 'it', len(b), len(a))
        names = [n for n, _ in a]
        for i, ((n, x), (m, y)) in enumerate(zip(a, b)):
            if named(m) and m != n and m in names and names.count(m) == 1:
                return '"%s" is in the place of "%s"' % (m, n)
            d = differ(x, y, '"%s"' % n if named(n) else 'part %s' % n)
            if d:
                return d
        return None
    if w[0] != g[0] or len(w) != len(g):
        return '%s is %s, not %s' % (what or 'it', brief(got), brief(want))
    if w[0] == 'enum':
        by = {v[0]: i for i, v in w[1].items()}
        for i, (n, x) in w[1].items():
            if i not in g[1]:
                return 'the alternative "%s" (%s) of %s is gone' % (n, i, what or 'it')
            m, y = g[1][i]
            if m != n and m in by:
                return 'the alternative "%s" has the number of "%s"' % (m, n)
            d = differ(x, y, '"%s"' % n)
            if d:
                return d
        for i, (m, y) in g[1].items():
            if i not in w[1] and m in by:
                return 'the alternative "%s" has the number %s, not %s' % (m, i, by[m])
        return None
    for x, y in zip(w[1:], g[1:]):
        if isinstance(x, list) or isinstance(y, list):
            d = differ(x, y, what)
            if d:
                return d
        elif x != y:
            return '%s is %s, not %s' % (what or 'it', brief(got), brief(want))
    return None


def brief(f):
    if not isinstance(f, list):
        return f
    if f[0] == 'rec':
        return '(%s)' % ', '.join(brief(x) for _, x in flat(f))
    if f[0] == 'enum':
        return 'one of ' + '/'.join(v[0] for v in f[1].values())
    return '%s of %s' % (f[0], ' '.join(brief(x) for x in f[1:]))


def published():
    with open(PUBLISHED) as fh:
        return json.load(fh)


# ------------------------------------------------------------------ current forms
ASSET_TYPES = ('FungibleAssetLocation',)


def named_by_number(p, m):
    """the enum of a module that numbers convert to, should the type of that name be called otherwise"""
    for im in p.impls():
        if im.trait_name == 'From' and im.self_ty[0] == 't':
            d = p.def_of(im.self_ty[1])
            if d is not None and d.kind == 'enum' and d.mod is m and im.trait_args == (('t', 'u32', ()),):
                return d
    return None


def asset_forms():
    """({name: (form, place)}) of the identifiers of assets"""
    p = P.Program({'virto_common': ['runtime']})
    out = {}
    for m in p.crates['virto_common'].modules:
        for n in ASSET_TYPES:
            d = m.types.get(n) or named_by_number(p, m)
            if d is not None and d.kind in ('struct', 'enum'):
                out[n] = (Forms(p).of(('t', '::'.join(d.path), ()), 'virto_common'), '%s:%s (%s)' % (m.file, d.node['l'], d.path[-1]))
    return out


PALLETS = ('pallet_payments', 'pallet_communities', 'pallet_communities_manager')


def chain_forms(w):
    """{kind: {name: (form, place)}}"""
    def config(crate, trait, name):
        for c in ((trait or '').split('::')[0], crate, 'frame_system'):
            for cc, inst, im in w.configs:
                if cc == c and name in im.types:
                    return w.setting(c, name, inst)[0]
        ts = {w.setting(cc, name, inst)[0] for cc, inst, im in w.configs if cc in PALLETS and name in im.types}
        return ts.pop() if len(ts) == 1 else None
    F = Forms(w.p, config)
    out = {'storage': {}, 'type': {}, 'call': {}, 'pallet': {}, 'account': {}}
    T = ('t', 'T', ())
    for crate in PALLETS:
        c = w.p.crates[crate]
        for m in c.modules:
            for d in m.types.values():
                at = P.live_attrs(d.node.get('attrs'), c.cfg) if d.node else []
                names = [a[0] for a in at]
                place = '%s:%s (%s)' % (m.file, d.node['l'], d.path[-1]) if d.node else m.file
                if d.kind == 'type' and 'pallet::storage' in names:
                    pre = [''.join(x for x in a[1] if isinstance(x, str)).strip('="') for a in at if a[0] == 'pallet::storage_prefix']
                    gen = {q['id']: T for q in d.node['generics']['params'] if q['k'] == 'TypeParam'}
                    kind = d.node['ty']['segs'][-1]['id']
                    args = d.node['ty']['segs'][-1]['args'] or ()
                    named_ = {a['id']: a['ty'] for a in args if a['k'] == 'AssocArg'}
                    seq = [named_[k] for k in ('Hasher', 'Key', 'Hasher1', 'Key1', 'Hasher2', 'Key2', 'Value') if k in named_] if named_ else \
                        [a for a in args if a['k'] != 'Lifetime'][1:{'StorageValue': 2, 'StorageMap': 4, 'CountedStorageMap': 4, 'StorageDoubleMap': 6}.get(kind, 99)]
                    form = [F.of(w.p.ty(a, m, gen, None), crate) for a in seq]
                    out['storage']['%s %s' % (crate, (pre or [d.path[-1]])[0])] = ([kind] + form, place)
                elif d.kind in ('enum', 'struct') and ('pallet::composite_enum' in names or 'pallet::origin' in names):
                    out['type']['%s %s' % (crate, d.path[-1])] = (F.local(d, ('t', '::'.join(d.path), (T,))), place)
                elif d.kind == 'type' and 'pallet::origin' in names:
                    gen = {q['id']: T for q in d.node['generics']['params'] if q['k'] == 'TypeParam'}
                    out['type']['%s %s' % (crate, d.path[-1])] = (F.of(w.p.ty(d.node['ty'], m, gen, None), crate), place)
        calls, _ = frame.calls(w.p, c)
        for fn, im, idx in calls:
            fs = []
            for q in fn['params']:
                if q.get('self') or q.get('k') == 'SelfParam':
                    continue
                n = q['pat'].get('id') or '0'
                x = F.of(w.p.ty(q['ty'], im.mod, {'T': T}, None), crate)
                if codec_attr(q, c.cfg, 'compact') is not None:
                    x = ['compact', x]
                fs.append([n.lstrip('_') or '0', x])
            out['call']['%s %s' % (crate, idx)] = (['rec', fs[1:]], '%s:%s (%s)' % (im.mod.file, fn['l'], fn['id']))
    for m in w.crate.modules:
        for d in m.types.values():
            if d.kind == 'enum' and 'pallet::origin' in [x[0] for x in P.live_attrs(d.node.get('attrs'), w.crate.cfg)]:
                out['type']['runtime custom origin'] = (F.local(d, ('t', '::'.join(d.path), ())), '%s:%s (%s)' % (m.file, d.node['l'], d.path[-1]))
    for what, crate, name, inst in (('kind of proxy', 'pallet_proxy', 'ProxyType', None), ('account', 'frame_system', 'AccountId', None), ('community', 'pallet_communities', 'CommunityId', None),
                                    ('membership', 'pallet_communities', 'MembershipId', None), ('payment', 'pallet_payments', 'PaymentId', None), ('native amount', 'pallet_balances', 'Balance', None),
                                    ('amount', 'pallet_assets', 'Balance', 'Instance1'), ('asset', 'pallet_assets', 'AssetId', 'Instance1'), ('nonce', 'frame_system', 'Nonce', None),
                                    ('hash', 'frame_system', 'Hash', None), ('collection', 'pallet_nfts', 'CollectionId', 'Instance2'), ('item', 'pallet_nfts', 'ItemId', 'Instance2'), ('tally', 'pallet_referenda', 'Tally', 'Instance2')):
        t, where = w.setting(crate, name, inst)
        out['type']['runtime ' + what] = (F.of(t, 'kreivo_runtime'), where)
    t, where = w.setting('frame_system', 'Block')
    for x in R.adts(t):
        if last(x) == 'UncheckedExtrinsic' and len(x[2]) > 2:
            out['type']['runtime address'] = (F.of(x[2][0], 'kreivo_runtime'), where)
            out['type']['runtime signature'] = (F.of(x[2][2], 'kreivo_runtime'), where)
    for q in w.pallets:
        out['pallet'][' '.join([q.crate] + ([q.inst.split('::')[-1]] if q.inst else []))] = (q.name, q.where)
    for crate, name in (('pallet_payments', 'PalletId'), ('pallet_communities', 'PalletId'), ('pallet_pass', 'PalletId'), ('pallet_treasury', 'PalletId'), ('pallet_collator_selection', 'PotId')):
        t, where = w.setting(crate, name)
        v = w.value(t)
        out['account'][crate] = (text(v), where)
    return out


def text(v):
    """the eight characters of a pallet identifier"""
    if v is None:
        return '?'
    if v[0] == 'adt' and len(v[3]) == 1:
        return text(v[3][0][1])
    if v[0] == 'app' and len(v[2]) == 1:
        return text(v[2][0])
    if v[0] == 'arr' and all(x[0] == 'int' for x in v[1]):
        return ''.join(chr(x[1]) for x in v[1])
    return '?' + fmt(v)


# ------------------------------------------------------------------ rules
def compare(rep, rule, want, got, what, home, new=True):
    for n, f in want.items():
        if n not in got:
            rep.check(False, rule, home, '%s %s is gone' % (what, n), 'gone %s %s' % (what, n))
            continue
        d = differ(f, got[n][0], 'it')
        rep.check(d is None, rule, got[n][1], '%s %s has another form than published: %s' % (what, n, d), '%s %s' % (what, n))


def c10(rep):
    want, got = published()['asset'], asset_forms()
    compare(rep, 'identifiers of assets keep their stored form', want, got, 'the identifier', 'common/src')
    return ('Derives the encoded form of asset identifiers (order and width of parts, numbers of alternatives, through nested types, aliases and codec attributes) and compares it with the published one.')


def r24(rep):
    w = World(rep)
    got, want = chain_forms(w), published()
    home = w.crate.root.file
    compare(rep, 'storage keeps its names, keys and values', want['storage'], got['storage'], 'the storage', home)
    compare(rep, 'stored and signed types keep their form', want['type'], got['type'], 'the type', home)
    compare(rep, 'calls keep their arguments', want['call'], got['call'], 'the call', home)
    for kind, rule, msg in (('pallet', 'pallets keep their names', 'the pallet %s, published as %s, is named %s'), ('account', 'pallets keep their accounts', 'the account of %s comes from "%s" no more but from "%s"')):
        for n, v in want[kind].items():
            if n in got[kind]:
                rep.check(got[kind][n][0] == v, rule, got[kind][n][1], msg % (n, v, got[kind][n][0]), '%s %s' % (kind, n))
            else:
                rep.check(False, rule, home, 'the pallet %s is gone' % n, '%s %s' % (kind, n))
    t, where = w.setting('frame_system', 'Version')
    v = w.value(t)
    if v is None or v[0] != 'adt':
        rep.check(False, 'the runtime says which runtime it is', where, 'the version of the runtime is not known', 'version')
    else:
        got_v = dict(v[3])
        for n, x in want['version'].items():
            y = strip(got_v.get(n, UNIT))
            if isinstance(x, str):
                rep.check(y == w.I.std.lit_str(x.encode()), 'the runtime says which runtime it is', where, '%s is no more "%s"' % (n, x), n)
            elif n in ('spec_version', 'transaction_version'):
                rep.check(y[0] == 'int' and y[1] >= x, 'versions never go back', where, '%s is %s, published as %d' % (n, y[1], x), n)
            else:
                rep.check(y == I(x), 'the runtime says which runtime it is', where, '%s is %s, published as %d' % (n, y[1], x), n)
    rep.extra['forms'] = sum(len(x) for x in got.values())
    w.done()
    return ('Derives, from the types and the configuration, the encoded form of every storage entry (prefix, hashers, keys, value), of the arguments of every call, of reasons, origins, proxy kinds, '
            'tallies and basic types, and the names and accounts of pallets, and compares each with the published form; names only matter where two parts of one form change places.')


RULES = {'C10': c10, 'R24': r24}

"""What the analysis knows about FRAME: storage, origins, events, assets, scheduling.

Storage is a map from (item, keys) to abstract values with the writes of the path on top of unknown initial contents.
Calls through associated types of the configuration are effects with a documented meaning; each fallible one splits the path
into success (with the effect) and failure (recorded, so that a call which succeeds anyway can be reported).
"""
from .terms import *
from .facts import intish
from . import prog as P
from .model import Model
from .interp import Interp, V, State, Unsupported


class Storage:
    def __init__(self, name, path, kind, keys, val, query, getter, node, mod):
        self.name, self.path, self.kind, self.keys, self.val, self.query = name, path, kind, keys, val, query
        self.getter, self.node, self.mod = getter, node, mod


KEYED = {'StorageValue': 0, 'StorageMap': 1, 'CountedStorageMap': 1, 'StorageDoubleMap': 2, 'StorageNMap': None}
HASHERS = {'Blake2_128Concat', 'Twox64Concat', 'Identity', 'Blake2_128', 'Blake2_256', 'Twox128', 'Twox256'}


def storages(p, crate):
    out = {}
    for m in crate.modules:
        for d in m.types.values():
            if d.kind != 'type':
                continue
            at = P.live_attrs(d.node.get('attrs'), crate.cfg)
            if not any(a[0] == 'pallet::storage' for a in at):
                continue
            getter = None
            for a in at:
                if a[0] == 'pallet::getter':
                    getter = [x for x in a[1] if isinstance(x, str)][-1]
            ty = d.node['ty']
            kind = ty['segs'][-1]['id']
            if kind not in KEYED:
                continue
            gen = {q['id']: ('param', q['id']) for q in d.node['generics']['params'] if q['k'] == 'TypeParam'}
            assoc, pos = {}, []
            for a in ty['segs'][-1]['args'] or ():
                if a['k'] == 'AssocArg':
                    assoc[a['id']] = a['ty']
                elif a['k'] not in ('Lifetime',):
                    pos.append(a)
            tt = lambda x: p.ty(x, d.mod, gen, None)
            q = None
            if assoc:
                keys = [tt(assoc[k]) for k in ('Key', 'Key1', 'Key2') if k in assoc]
                if kind == 'StorageNMap' and keys and keys[0][0] == 'tup':
                    keys = list(keys[0][1])
                val = tt(assoc['Value'])
                q = assoc.get('QueryKind')
            else:
                if kind == 'StorageValue':
                    keys, val, rest = [], tt(pos[1]), pos[2:]
                elif kind in ('StorageMap', 'CountedStorageMap'):
                    keys, val, rest = [tt(pos[2])], tt(pos[3]), pos[4:]
                elif kind == 'StorageDoubleMap':
                    keys, val, rest = [tt(pos[2]), tt(pos[4])], tt(pos[5]), pos[6:]
                else:
                    k0 = tt(pos[1])
                    keys = [x[2][1] if x[0] == 't' and x[1] == 'NMapKey' else x for x in (k0[1] if k0[0] == 'tup' else [k0])]
                    val, rest = tt(pos[2]), pos[3:]
                q = rest[0] if rest else None
            query = q['segs'][-1]['id'] if q is not None and q['k'] == 'TyPath' else 'OptionQuery'
            if query not in ('ValueQuery', 'ResultQuery', 'OptionQuery'):
                query = 'ResultQuery' if q is not None and any(s['id'] == 'ResultQuery' for s in q['segs']) else 'OptionQuery'
            name = '::'.join(d.path)
            out[name] = Storage(d.path[-1], name, kind, keys, val, query, getter, d.node, d.mod)
    return out


def calls(p, crate):
    """[(fn node, impl, call index)] of the dispatchables, and the hooks"""
    out, hooks = [], []
    p.impls()
    for im in crate.impls:
        at = [a[0] for a in P.live_attrs(im.attrs, crate.cfg)]
        if 'pallet::call' in at:
            for f in im.fns.values():
                ix = None
                for a in P.live_attrs(f.get('attrs'), crate.cfg):
                    if a[0] == 'pallet::call_index':
                        ix = int(''.join(x for x in a[1] if isinstance(x, str)))
                out.append((f, im, ix))
        if 'pallet::hooks' in at or im.trait_name == 'Hooks':
            hooks += [(f, im) for f in im.fns.values()]
    return out, hooks


def proj_name(t):
    """'Assets' for T::Assets, 'Assets::Balance' for nested projections; the trait does not matter"""
    if t[0] == 'proj':
        b = t[1]
        if b[0] in ('param',):
            return t[3]
        n = proj_name(b)
        return n + '::' + t[3] if n else None
    return None


ASSET_READS = {'balance', 'total_balance', 'reducible_balance', 'can_deposit', 'can_withdraw', 'minimum_balance', 'total_issuance',
               'active_issuance', 'asset_exists', 'balance_on_hold', 'total_balance_on_hold', 'can_hold', 'ensure_can_hold',
               'hold_available', 'reducible_total_balance_on_hold', 'balance_frozen', 'balance_freezable', 'can_freeze', 'free_balance',
               'reserved_balance', 'locked_balance', 'decimals', 'name', 'symbol', 'owner', 'admin'}


def strip(v):
    """a value without pending conversions"""
    if not isinstance(v, tuple) or not v:
        return v
    if v == ANY_DEFAULT:
        return v
    if v[0] == 'conv':
        return strip(v[2])
    if v[0] in ('int', 'bool', 'bits', 'clo', 'fn', 'sym', 'lin'):
        return v
    return tuple(strip(x) if isinstance(x, tuple) else x for x in v)


CONSTS = {('NonZeroU8', 'MIN'): 1, ('Permill', 'ACCURACY'): 10 ** 6, ('Perbill', 'ACCURACY'): 10 ** 9, ('Percent', 'ACCURACY'): 100}


class FrameModel(Model):
    strict = False
    sat_exact = True

    def __init__(self, p, crates):
        self.p = p
        self.sto = {}
        self.getters = {}
        self.pallets = {}
        for n in crates:
            c = p.crates[n]
            for k, s in storages(p, c).items():
                self.sto[k] = s
                if s.getter:
                    self.getters[(n, s.getter)] = s
            for m in c.modules:
                for d in m.types.values():
                    if d.kind == 'struct' and any(a[0] == 'pallet::pallet' for a in P.live_attrs(d.node.get('attrs'), c.cfg)):
                        self.pallets['::'.join(d.path)] = n
        self.ext_fns = set()
        self.unmodelled = []

    # ---------------------------------------------------------------- names
    def target(self, f, env):
        """what a path call refers to: ('sto', S, m) | ('pallet', crate, m) | ('cfg', name, m) | ('sys', m) | None"""
        I_ = self.I
        segs = f['segs']
        ids = tuple(x['id'] for x in segs)
        if len(ids) < 2 and 'qself' not in f:
            return None
        t, name = I_.assoc_target(f, env)
        if t is None:
            return None
        if t[0] == 't':
            if t[1] in self.sto:
                return ('sto', self.sto[t[1]], name)
            if t[1] in self.pallets:
                return ('pallet', self.pallets[t[1]], name)
            if t[1] == 'Pallet' or (t[1].split('::')[-1] == 'Pallet'):
                return ('sys', self.ext_crate(f, env), name)
            return None
        n = proj_name(t)
        if n:
            return ('cfg', n, name)
        return None

    def ext_crate(self, f, env):
        node = f.get('qself') or f
        segs = node.get('segs') or f['segs']
        ids = tuple(x['id'] for x in segs)
        for k in range(len(ids), 0, -1):
            d, n, ext = self.p.resolve(env.mod, ids[:k])
            if d is None and ext:
                return ext[0]
        return ids[0]

    # ---------------------------------------------------------------- storage
    def log(self, st):
        return st.glob.get('sto', ())

    def cell(self, S, keys):
        t = ('sto', S.name, tuple(keys))
        if S.query == 'ValueQuery':
            self.I.note_type(t, S.val)
        else:
            self.I.note_type(t, ('t', 'Option', (S.val,)))
        return t

    def base(self, S, keys, st):
        """initial contents: [(value or None when absent, state)]; value-query items are total"""
        c = self.cell(S, keys)
        if S.query == 'ValueQuery':
            return [(self.initial(S, keys, c, st), st)]
        out = []
        for b, s in self.I.test_variant(c, 'Option', 'Some', st):
            if b:
                for s2 in self.present(S, keys, c, s):
                    out.append((self.initial(S, keys, self.I.payload(c, 'Some', '0', s2), s2), s2))
            else:
                out += [(None, s2) for s2 in self.absent(S, keys, c, s)]
        return out

    def initial(self, S, keys, term, st):
        return term

    def present(self, S, keys, c, st):
        return [st]

    def absent(self, S, keys, c, st):
        return [st]

    def same_keys(self, a, b, st):
        """[(bool, state)]"""
        cur = [st]
        out = []
        for x, y in zip(a, b):
            nxt = []
            for s in cur:
                for t, s2 in self.I.branch(s, self.I.std.eq(x, y, s)):
                    if t:
                        nxt.append(s2)
                    else:
                        out.append((False, s2))
            cur = nxt
        return out + [(True, s) for s in cur]

    def read_sto(self, S, keys, st):
        """[(value or None, state)]"""
        pend = [st]
        out = []
        for name, ks, v in reversed(self.log(st)):
            if name != S.name:
                continue
            if len(ks) != len(keys):
                out += [(('opaque', self.I.fresh(), 'storage cleared by prefix'), s) for s in pend]
                return out
            nxt = []
            for s in pend:
                for t, s2 in self.same_keys(ks, keys, s):
                    if t:
                        out.append((v, s2))
                    else:
                        nxt.append(s2)
            pend = nxt
        for s in pend:
            out += self.base(S, keys, s)
        return out

    def write_sto(self, S, keys, v, st, node):
        s = st.copy()
        v = None if v is None else strip(self.I.deep(v, st))
        s.glob['sto'] = self.log(st) + ((S.name, tuple(keys), v),)
        return s.effect(('write', S.name, tuple(keys), v, self.I.where(node)))

    def query_value(self, S, v, st):
        """what `get` returns for contents v"""
        if S.query == 'ValueQuery':
            if v is None:
                return self.I.std.default(S.val, st, S.node)[0][1]
            return v
        if S.query == 'ResultQuery':
            return ok(v) if v is not None else err(app('no value', ('s', S.name)))
        return some(v) if v is not None else NONE

    def opt_value(self, v):
        return some(v) if v is not None else NONE

    def from_query(self, S, v, exists, st):
        """contents after a mutation left v in the cell: [(value or None, state)]"""
        v = self.I.rv(v, st)
        if S.query == 'ValueQuery' and not exists:
            return [(v, st)]
        res = S.query == 'ResultQuery' and not exists
        good = 'Ok' if res else 'Some'
        out = []
        for b, s in self.I.test_variant(v, 'Result' if res else 'Option', good, st):
            out.append((self.I.payload(v, good, '0', s) if b else None, s))
        return out

    def keys_of(self, S, vs, st):
        n = len(S.keys)
        ks = [strip(self.I.deep(x, st)) for x in vs]
        if S.kind == 'StorageNMap' and ks and ks[0][0] == 'tup':
            return list(ks[0][1]), vs[1:]
        return ks[:n], vs[n:]

    def storage_op(self, S, m, args, n, env, st, want):
        I_ = self.I
        closure = m in ('mutate', 'try_mutate', 'mutate_exists', 'try_mutate_exists')
        wants = list(S.keys) + [None] * 4
        if m in ('insert', 'set', 'put'):
            wants[len(S.keys)] = S.val if m != 'set' or S.query == 'ValueQuery' else ('t', 'Option', (S.val,))

        def go(vs, s):
            keys, rest = self.keys_of(S, vs, s)
            if len(keys) < len(S.keys) and m not in ('iter_prefix', 'iter_prefix_values', 'iter_key_prefix', 'contains_prefix', 'clear_prefix', 'drain_prefix', 'remove_prefix', 'iter', 'iter_keys', 'iter_values', 'kill', 'clear', 'remove_all', 'drain', 'translate', 'count'):
                raise Unsupported('storage %s: %s with %d keys' % (S.name, m, len(keys)))
            if m == 'get':
                return [('v', self.query_value(S, v, s2), s2) for v, s2 in self.read_sto(S, keys, s)]
            if m == 'try_get':
                return [('v', ok(v) if v is not None else err(UNIT), s2) for v, s2 in self.read_sto(S, keys, s)]
            if m in ('contains_key', 'exists'):
                if S.query == 'ValueQuery':
                    return V(app('exists', self.cell(S, keys)), s)
                return [('v', B(v is not None), s2) for v, s2 in self.read_sto(S, keys, s)]
            if m in ('insert', 'put'):
                return V(UNIT, self.write_sto(S, keys, rest[0], s, n))
            if m == 'set':
                if S.query == 'ValueQuery':
                    return V(UNIT, self.write_sto(S, keys, rest[0], s, n))
                return [('v', UNIT, self.write_sto(S, keys, v, s2, n)) for v, s2 in self.from_query(S, rest[0], True, s)]
            if m in ('remove', 'kill') and len(keys) == len(S.keys):
                return V(UNIT, self.write_sto(S, keys, None, s, n))
            if m in ('take', 'try_take'):
                out = []
                for v, s2 in self.read_sto(S, keys, s):
                    s3 = self.write_sto(S, keys, None, s2, n) if v is not None else s2
                    out.append(('v', self.query_value(S, v, s2), s3))
                return out
            if closure:
                return self.mutate(S, m, keys, rest[0], n, s, want)
            if m == 'swap':
                half = len(rest)
                raise Unsupported('storage swap')
            if m in ('iter', 'iter_keys', 'iter_values', 'iter_prefix', 'iter_prefix_values', 'iter_key_prefix', 'count', 'contains_prefix'):
                t = app('storage ' + m, ('s', S.name), *keys)
                return V(t, s)
            if m in ('append', 'try_append'):
                out = []
                for v, s2 in self.read_sto(S, keys, s):
                    out.append(('v', UNIT if m == 'append' else ok(), self.write_sto(S, keys, app('append', v or NONE, I_.deep(rest[0], s2)), s2, n)))
                return out
            self.unmodelled.append(('storage operation %s::%s' % (S.name, m), I_.where(n)))
            s = s.effect(('write', S.name, tuple(keys), ('opaque', I_.fresh(), m), I_.where(n)))
            s2 = s.copy()
            s2.glob['sto'] = self.log(s) + ((S.name, tuple(keys), ('opaque', I_.fresh(), m)),)
            return V(I_.opaque('storage operation ' + m, n), s2)
        return I_.many(args, env, st, wants, go)

    def mutate(self, S, m, keys, clo, n, st, want):
        I_ = self.I
        exists = m.endswith('exists')
        tries = m.startswith('try')
        res = []
        for v, s in self.read_sto(S, keys, st):
            q = self.opt_value(v) if exists else self.query_value(S, v, s)
            a, s = I_.alloc(q, s)
            for o in I_.apply(clo, [('ref', a, ())], s, n, want if tries else None):
                if o[0] != 'v':
                    res.append(o)
                    continue
                s2 = o[2]
                if not tries:
                    for nv, s3 in self.from_query(S, s2.store[a], exists, s2):
                        res.append(('v', o[1], self.commit(S, keys, v, nv, s3, n)))
                    continue
                r = I_.rv(o[1], s2)
                for good, p_, s3 in I_.std.cases(r, 'Result', s2):
                    if not good:
                        res.append(('v', err(p_), s3))
                        continue
                    for nv, s4 in self.from_query(S, s3.store[a], exists, s3):
                        res.append(('v', ok(p_), self.commit(S, keys, v, nv, s4, n)))
        return res

    def commit(self, S, keys, old, new, st, n):
        if new is not None:
            new = strip(self.I.deep(new, st))
        if old is None and new is None:
            return st
        if old is not None and new is not None and strip(self.I.deep(old, st)) == new:
            return st
        return self.write_sto(S, keys, new, st, n)

    # ---------------------------------------------------------------- effects
    def fallible(self, name, st, node, good, effect=None, fail=None):
        """split: success with value `good` and effect, failure recorded"""
        s = st.effect(effect) if effect is not None else st
        e = app('error', ('s', name), I(self.I.fresh()))
        return [('v', good, s), ('v', fail or err(e), st.effect(('failed', name, self.I.where(node))))]

    def cfg_call(self, name, m, args, n, env, st, want):
        """call through an associated type of the configuration; None: not modelled"""
        I_ = self.I
        last = name.split('::')[-1]
        d = lambda x, s: strip(I_.deep(x, s))
        if m in ('ensure_origin', 'try_origin', 'ensure_origin_or_root'):
            def g(vs, s):
                o = d(vs[0], s)
                who = app('auth', ('s', last if m != 'ensure_origin_or_root' else m), *[d(x, s) for x in vs])
                self.auth_type(last, who)
                return self.fallible(last, s, n, ok(who), ('auth', last, who, I_.where(n)), err(o) if m == 'try_origin' else None)
            return I_.many(args, env, st, None, g)
        if m == 'get' and not args:
            t = app('const', ('s', last))
            return V(t, st)
        if m in ('lookup', 'unlookup'):
            if m == 'unlookup':
                return I_.many(args, env, st, None, lambda vs, s: V(app('unlookup', d(vs[0], s)), s))
            return I_.many(args, env, st, None, lambda vs, s: self.fallible('lookup', s, n, ok(app('lookup', d(vs[0], s)))))
        if m in ('from', 'into') and len(args) == 1:
            return I_.many(args, env, st, None, lambda vs, s: V(I_.rv(vs[0], s), s))
        if m in ('zero', 'one') and not args:
            return V(I(0 if m == 'zero' else 1), st)
        if m == 'default' and not args:
            return V(app('default', ('s', name)), st)
        if m in ('max_value', 'min_value') and not args:
            return V(app(m, ('s', name)), st)
        return None

    def auth_type(self, origin, who):
        pass

    # ---------------------------------------------------------------- hooks of the interpreter
    def call_path(self, f, args, n, env, st, want):
        I_ = self.I
        t = self.target(f, env)
        if t is None:
            return self.free_call(f, args, n, env, st, want)
        if t[0] == 'sto':
            if I_.find_assoc(('t', t[1].path, ()), t[2])[1] is not None:
                return None
            return self.storage_op(t[1], t[2], args, n, env, st, want)
        if t[0] == 'pallet':
            if t[2] == 'deposit_event':
                def g(vs, s):
                    ev = strip(I_.deep(vs[0], s))
                    return V(UNIT, s.effect(('event', ev, I_.where(n))))
                return I_.many(args, env, st, None, g)
            S = self.getters.get((t[1], t[2]))
            if S is not None:
                return self.storage_op(S, 'get', args, n, env, st, want)
            return None
        if t[0] == 'sys':
            return self.sys_call(t[1], t[2], args, n, env, st, want)
        if t[0] == 'cfg':
            r = self.cfg_call(t[1], t[2], args, n, env, st, want)
            if r is not None:
                return r
            ty, nm = I_.assoc_target(f, env)
            im, fn = I_.find_assoc(ty, nm)
            if fn is not None:
                return None
            return self.unmodelled_call('T::%s::%s' % (t[1], t[2]), args, n, env, st, want)
        return None

    def free_call(self, f, args, n, env, st, want):
        I_ = self.I
        name = f['segs'][-1]['id']
        if name in ('ensure_signed', 'ensure_root', 'ensure_none', 'ensure_signed_or_root') and len(args) == 1 and 'qself' not in f:
            d, k, ext = self.p.resolve(env.mod, tuple(x['id'] for x in f['segs']), 'values')
            if d is None:
                def g(vs, s):
                    o = strip(I_.deep(vs[0], s))
                    kind = {'ensure_signed': 'Signed', 'ensure_root': 'Root', 'ensure_none': 'None'}.get(name, name)
                    who = app('auth', ('s', kind), o)
                    good = ok(who) if kind == 'Signed' else ok(UNIT) if kind in ('Root', 'None') else ok(('ret', I_.fresh(), name, (o,)))
                    return self.fallible(name, s, n, good, ('auth', kind, who, I_.where(n)))
                return I_.many(args, env, st, None, g)
        return None

    def path(self, n, env, st):
        """unit variants of enums and constants of types outside the repository"""
        t, name = self.I.assoc_target(n, env) if len(n['segs']) > 1 or 'qself' in n else (None, None)
        if t is not None and t[0] == 't':
            c = CONSTS.get((t[1].split('::')[-1], name))
            if c is not None:
                return V(I(c), st)
        if 'qself' in n:
            return None
        vp = self.I.variant_of_path(n, env)
        if vp is not None and vp[2] is None and vp[1] and vp[1][:1].isupper() and not (vp[1].isupper() and len(vp[1]) > 1):
            from .std import EXT_ENUMS
            if vp[0] not in EXT_ENUMS:
                return V(('adt', vp[0], vp[1], ()), st)
        return None

    # ---------------------------------------------------------------- assets
    def fund_call(self, name, m, args, n, env, st, want, multi):
        """operations of fungible(s): multi when the first argument is the asset"""
        I_ = self.I
        d = lambda x, s: strip(I_.deep(x, s))

        def g(vs, s):
            vs = [zero(d(x, s)) for x in vs]
            asset = vs[0] if multi else ('s', name)
            a = vs[1:] if multi else vs
            where = I_.where(n)

            def split(eff, val, mode=None):
                # how the movement treats the account it leaves is noted apart from the movement
                s0 = s.effect(('mode',) + eff[:-1] + tuple(mode) + (where,)) if mode else s
                return self.fallible('%s::%s' % (name, m), s0, n, ok(val), ('fund',) + eff + (where,))

            def actual(amount, prec):
                if is_adt(prec, 'Exact'):
                    return amount
                return ('ret', I_.fresh(), 'actual amount', (amount,))
            if m in ASSET_READS:
                t = app('%s::%s' % (name, m), *vs)
                return V(t, s)
            if m == 'transfer':
                return split(('transfer', asset, a[0], a[1], a[2]), a[2], (a[3], None))
            if m == 'hold':
                return split(('hold', asset, a[0], a[1], a[2]), UNIT)
            if m == 'release':
                x = actual(a[2], a[3])
                return split(('release', asset, a[0], a[1], x), x)
            if m == 'transfer_and_hold':
                x = actual(a[3], a[4])
                return split(('transfer_and_hold', asset, a[0], a[1], a[2], x), x, (a[5], a[6]))
            if m == 'transfer_on_hold':
                x = actual(a[3], a[4])
                op = 'move_held' if is_adt(a[5], 'OnHold') else 'release_to'
                return split((op, asset, a[0], a[1], a[2], x), x)
            if m in ('set_freeze', 'extend_freeze', 'thaw', 'set_frozen', 'increase_frozen', 'decrease_frozen'):
                return split((m, asset) + tuple(a), UNIT)
            if m in ('mint_into', 'burn_from', 'burn_held'):
                return split((m, asset) + tuple(a), a[-1] if m == 'mint_into' else a[1])
            return split(('other:' + m, asset) + tuple(a), ('ret', I_.fresh(), m, tuple(vs)))
        return I_.many(args, env, st, None, g)

    def sys_call(self, crate, m, args, n, env, st, want):
        I_ = self.I
        if m in ('block_number', 'current_block_number', 'extrinsic_index', 'account_nonce', 'parent_hash'):
            t = app(crate + '::' + m)
            return I_.many(args, env, st, None, lambda vs, s: V(t if not vs else app(crate + '::' + m, *[strip(I_.deep(x, s)) for x in vs]), s))
        if crate == 'frame_system' and m in ('inc_providers', 'dec_providers', 'inc_consumers', 'dec_consumers', 'inc_sufficients'):
            def g(vs, s):
                eff = (m, strip(I_.deep(vs[0], s)), I_.where(n))
                if m in ('inc_providers', 'dec_consumers', 'inc_sufficients'):
                    return V(UNIT, s.effect(eff))
                return self.fallible('frame_system::' + m, s, n, ok(UNIT), eff)
            return I_.many(args, env, st, None, g)
        return self.unmodelled_call('%s::Pallet::%s' % (crate, m), args, n, env, st, want)

    PURE = {'weight', 'saturated_into', 'encode', 'decode', 'hash', 'hash_of', 'max_encoded_len', 'get_dispatch_info'}

    def unmodelled_call(self, name, args, n, env, st, want):
        """a call whose meaning is not known: it may do anything its rules forbid, so it is an effect of its own"""
        I_ = self.I

        def g(vs, s):
            vs = [strip(I_.deep(x, s)) for x in vs]
            if name.split('::')[-1] in self.PURE or 'WeightInfo' in name:
                return V(app(name, *vs), s)
            v = ('ret', I_.fresh(), name, tuple(vs))
            if want is not None and want != ('inf',):
                I_.note_type(v, want)
            return V(v, s.effect(('ext', name, tuple(vs), I_.where(n))))
        return I_.many(args, env, st, None, g)

    def method_node(self, recv, m, args, n, env, st, want):
        return None

    SHARE = {'mul_floor', 'mul_ceil', 'mul_collapse', 'saturating_reciprocal_mul'}

    def method(self, ref, v, m, args, n, env, st, want, targs):
        I_ = self.I
        if m == 'encode' and not args and v[0] != 'bits':
            return V(app('encode', strip(I_.deep(v, st))), st)
        if m == 'using_encoded' and len(args) == 1 and v[0] != 'bits':
            return I_.many(args, env, st, None, lambda vs, s: I_.apply(vs[0], [app('encode', strip(I_.deep(v, s)))], s, n, want))
        if m in ('mul_floor', 'mul_ceil') and len(args) == 1:
            def g(vs, s):
                return self.share(m, strip(I_.deep(v, s)), strip(I_.deep(vs[0], s)), s)
            return I_.many(args, env, st, None, g)
        if m in ('into_sub_account_truncating', 'into_sub_account', 'try_into_sub_account') and len(args) == 1:
            def g(vs, s):
                x = app('sub account', strip(I_.deep(v, s)), strip(I_.deep(vs[0], s)))
                return V(some(x) if m.startswith('try') else x, s)
            return I_.many(args, env, st, None, g)
        if m in ('into_account_truncating', 'into_account') and not args:
            return V(app('account of', strip(I_.deep(v, st))), st)
        if m == 'left_from_one' and not args:
            return V(app('left_from_one', strip(I_.deep(v, st))), st)
        if v[0] == 'map':
            return self.map_method(ref, v, m, args, n, env, st, want, targs)
        if v[0] == 'entry':
            return self.entry_method(v, m, args, n, env, st, want)
        return None

    def share(self, m, pct, amt, st):
        """a share of an amount: between 0 and the amount; the complement of a floor is a ceiling"""
        if pct[0] == 'app' and pct[1] == 'left_from_one':
            base = app('mul_floor' if m == 'mul_ceil' else 'mul_ceil', pct[2][0], amt)
            f = st.facts.assume(('lt', amt, base), False)
            return V(lsub(amt, base), st.with_facts(f or st.facts))
        x = app(m, pct, amt)
        f = st.facts.assume(('lt', amt, x), False)
        return V(x, st.with_facts(f or st.facts))

    # ---- ordered maps with known entries: ('map', ((key, value), ...))
    def find_key(self, v, k, st):
        """[(index or None, state)]"""
        pend, out = [st], []
        for i, (kk, _) in enumerate(v[1]):
            nxt = []
            for s in pend:
                for b, s2 in self.I.branch(s, self.I.std.eq(kk, k, s)):
                    if b:
                        out.append((i, s2))
                    else:
                        nxt.append(s2)
            pend = nxt
        return out + [(None, s) for s in pend]

    def map_method(self, ref, v, m, args, n, env, st, want, targs):
        I_ = self.I
        d = lambda x, s: strip(I_.deep(x, s))
        if m == 'entry' and len(args) == 1:
            return I_.many(args, env, st, None, lambda vs, s: [('v', ('entry', ref, d(vs[0], s), I(-1 if i is None else i)), s2)
                                                              for i, s2 in self.find_key(v, d(vs[0], s), s)])
        if m in ('get', 'contains_key', 'get_mut', 'remove', 'contains') and len(args) == 1:
            def g(vs, s):
                out = []
                for i, s2 in self.find_key(v, d(vs[0], s), s):
                    if m in ('contains_key', 'contains'):
                        out.append(('v', B(i is not None), s2))
                    elif i is None:
                        out.append(('v', NONE, s2))
                    elif m == 'get':
                        out.append(('v', some(v[1][i][1]), s2))
                    elif m == 'get_mut':
                        out.append(('v', some(('ref', ref[1], ref[2] + (('m', i),))), s2))
                    else:
                        out.append(('v', some(v[1][i][1]), I_.write(ref[1], ref[2], ('map', v[1][:i] + v[1][i + 1:]), s2)))
                return out
            return I_.many(args, env, st, None, g)
        if m == 'insert' and len(args) in (1, 2):
            def g(vs, s):
                k = d(vs[0], s)
                x = vs[1] if len(vs) > 1 else UNIT
                out = []
                for i, s2 in self.find_key(v, k, s):
                    if i is None:
                        r = NONE if len(vs) > 1 else TRUE
                        out.append(('v', r, I_.write(ref[1], ref[2], ('map', v[1] + ((k, x),)), s2)))
                    else:
                        r = some(v[1][i][1]) if len(vs) > 1 else FALSE
                        out.append(('v', r, I_.write(ref[1], ref[2], ('map', v[1][:i] + ((v[1][i][0], x),) + v[1][i + 1:]), s2)))
                return out
            return I_.many(args, env, st, None, g)
        if m in ('into_values', 'values'):
            return V(('iter', tuple(x for _, x in v[1])), st)
        if m == 'values_mut':
            return V(('iter', tuple(('ref', ref[1], ref[2] + (('m', i),)) for i in range(len(v[1])))), st)
        if m in ('keys', 'into_keys'):
            return V(('iter', tuple(k for k, _ in v[1])), st)
        if m in ('iter', 'into_iter', 'drain'):
            if v[1] and all(x == UNIT for _, x in v[1]):
                return V(('iter', tuple(k for k, _ in v[1])), st)
            return V(('iter', tuple(('tup', kv) for kv in v[1])), st)
        if m == 'iter_mut':
            return V(('iter', tuple(('tup', (k, ('ref', ref[1], ref[2] + (('m', i),)))) for i, (k, _) in enumerate(v[1]))), st)
        if m in ('len', 'is_empty', 'clone'):
            return V({'len': I(len(v[1])), 'is_empty': B(not v[1]), 'clone': v}[m], st)
        return None

    def entry_method(self, v, m, args, n, env, st, want):
        I_ = self.I
        _, ref, k, ix = v
        i = ix[1]

        def place(x, s):
            mp = I_.rv(ref, s)
            s = I_.write(ref[1], ref[2], ('map', mp[1] + ((k, x),)), s)
            return V(('ref', ref[1], ref[2] + (('m', len(mp[1])),)), s)

        def g(vs, s):
            if m in ('or_insert', 'or_insert_with', 'or_default', 'or_insert_with_key'):
                if i >= 0:
                    return V(('ref', ref[1], ref[2] + (('m', i),)), s)
                if m == 'or_insert':
                    return place(vs[0], s)
                if m == 'or_default':
                    return place(ANY_DEFAULT, s)
                return I_.bind(I_.apply(vs[0], [] if m == 'or_insert_with' else [k], s, n), place)
            if m == 'and_modify':
                if i < 0:
                    return V(v, s)
                return I_.bind(I_.apply(vs[0], [('ref', ref[1], ref[2] + (('m', i),))], s, n), lambda x, s2: V(v, s2))
            if m == 'key':
                return V(k, s)
            return V(I_.opaque('map entry method ' + m, n), s)
        return I_.many(args, env, st, None, g)

    # ---- macros of frame_support
    def macro(self, m, n, env, st, want):
        I_ = self.I
        name, args = m['name'], m.get('args')
        if name in ('ensure',) and args is not None and len(args) == 2:
            r, abn = I_.cond(args[0], env, st)
            out = list(abn)
            for b, e, s in r:
                if b:
                    out.append(('v', UNIT, s))
                else:
                    out += I_.bind(I_.ev(args[1], env, s), lambda x, s2: [('ret', err(x), s2)])
            return out
        if name == 'fail' and args is not None:
            return I_.bind(I_.ev(args[0], env, st), lambda x, s2: [('ret', err(x), s2)])
        if name in ('defensive',):
            return V(UNIT, st)
        if name == 'defensive_assert':
            return V(UNIT, st)
        return None


class Path:
    """one successful way through a call"""

    def __init__(self, w, call, st):
        self.w, self.call, self.st = w, call, st
        self.f = st.facts
        self.writes = {}
        self.order = []
        for e in st.eff:
            if e[0] == 'write':
                k = (e[1], tuple(self.f.canon(x) for x in e[2]))
                self.writes[k] = (e[3], e[4])
        self.eff = st.eff

    def same(self, a, b):
        return self.f.decide_eq(a, b) is True

    def of(self, name):
        return {k[1]: v for k, v in self.writes.items() if k[0] == name}

    def effects(self, *kinds):
        return [e for e in self.eff if e[0] in kinds]

    def where(self, *kinds):
        for e in self.eff:
            if e[0] in kinds:
                return e[-1]
        return self.call.where

    def auth(self):
        return [(e[1], e[2]) for e in self.eff if e[0] == 'auth']


    def label(self):
        return self.call.name


class Call:
    def __init__(self, w, fn, im, ix):
        self.w, self.fn, self.im, self.ix = w, fn, im, ix
        self.name = fn['id']
        self.where = '%s:%s (%s)' % (im.mod.file, fn['l'], fn['id'])
        self.args = {}


class World:
    """a pallet under analysis"""

    def __init__(self, rep, crate, Model_, features):
        self.rep = rep
        self.p = P.Program(features)
        self.crate = self.p.crates[crate]
        self.model = Model_(self.p, list(features))
        self.I = Interp(self.p, self.model)
        cs, hooks = calls(self.p, self.crate)
        self.calls = [Call(self, *c) for c in cs]
        self.hooks = hooks

    def need(self, *names):
        for n in names:
            if not any(s.name == n for s in self.model.sto.values()):
                raise P.SourceError(self.crate.root.file, 0, 'storage item %s is missing' % n)

    def type(self, name, crate=None):
        root = self.p.crates[crate].root if crate else self.crate.root
        d, n, ext = self.p.resolve(root, tuple(name.split('::')))
        if d is None:
            raise P.SourceError(root.file, 0, 'type %s is missing' % name)
        if d.kind == 'type':
            t = self.p.ty({'k': 'TyPath', 'l': 0, 'segs': [{'id': x, 'args': None} for x in name.split('::')]}, root)
            d = self.p.def_of(t[1])
        return d

    def field(self, v, name, st):
        return self.I.field(v, name, st)

    def path(self, call, st):
        return Path(self, call, st)

    def start(self):
        return [State()]

    def run(self, call):
        """(successful paths, failing outcomes)"""
        I_ = self.I
        args = []
        for q in call.fn['params']:
            nm = q['pat']['id'] if q['pat']['k'] == 'PatIdent' else 'arg%d' % len(args)
            t = self.p.ty(q['ty'], call.im.mod, call.im.gen, call.im.self_ty)
            v = sym(nm, t)
            call.args[nm] = v
            args.append(v)
        call.argv = args
        good, bad = [], []
        for st in self.start():
            for o in I_.run(call.fn, call.im.mod, call.im.self_ty, args, st, dict(call.im.gen), call.im):
                self.rep.paths += 1
                if o[0] == 'panic':
                    bad.append(o)
                    continue
                r = I_.rv(o[1], o[2])
                for b, s in I_.test_variant(r, 'Result', 'Ok', o[2]):
                    if b:
                        good.append(self.path(call, s))
                    else:
                        bad.append(('err', r, s))
        return good, bad

    def done(self):
        self.rep.absorb(self.I)

"""Rules for the runtime (R01-R16).

The configuration is read as a table of associated types; types of the repository are followed through aliases, associated types,
generic arguments and impl blocks, and those outside it are named by their whole path. Origin settings, filters, lookups and
conversions are decided by interpreting their functions for every class of argument.
"""
import json
import os
from fractions import Fraction
from .terms import *
from . import prog as P
from . import frame
from .frame import FrameModel, strip
from .communities import CommModel, has
from .model import Model
from .interp import Interp, State, V, Env, Unsupported, pat_names

CRATE = 'kreivo_runtime'
RT = CRATE + '::Runtime'
RO, RC, OC = CRATE + '::RuntimeOrigin', CRATE + '::RuntimeCall', CRATE + '::OriginCaller'
CRATES = {'kreivo_runtime': ['std'], 'pallet_communities': ['default', 'std', 'xcm'], 'pallet_payments': ['default', 'std'],
          'pallet_communities_manager': ['default', 'std'], 'virto_common': ['runtime', 'std'], 'runtime_common': ['std'], 'runtime_constants': ['std']}
AGGREGATES = ('RuntimeCall', 'RuntimeEvent', 'RuntimeError', 'RuntimeOrigin', 'RuntimeFreezeReason', 'RuntimeHoldReason', 'RuntimeSlashReason',
              'RuntimeLockId', 'RuntimeTask', 'RuntimeViewFunction', 'OriginCaller', 'PalletInfo', 'AllPalletsWithSystem')
# constants of crates outside the repository (parachains_common at the release the workspace names)
EXT_CONSTS = {('parachains_common', 'MILLISECS_PER_BLOCK'): 6000, ('parachains_common', 'SLOT_DURATION'): 6000, ('parachains_common', 'MINUTES'): 10,
              ('parachains_common', 'HOURS'): 600, ('parachains_common', 'DAYS'): 14400}


def last(t):
    return t[1].split('::')[-1] if t[0] == 't' else None


def show(t):
    if t is None:
        return '(missing)'
    if t[0] == 't':
        a = [show(x) for x in t[2]]
        return t[1].split('::')[-1] + ('<%s>' % ', '.join(a) if a else '')
    if t[0] == 'tup':
        return '(%s)' % ', '.join(show(x) for x in t[1])
    if t[0] == 'proj':
        return '<%s as %s>::%s' % (show(t[1]), t[2], t[3])
    if t[0] in ('const', 'param'):
        return t[1]
    return str(t[0])


RATIOS = {'Percent': 100, 'Permill': 10 ** 6, 'Perbill': 10 ** 9, 'PerU16': 65535, 'Perquintill': 10 ** 18}


def ratio(ty, how, xs):
    if any(x[0] != 'int' for x in xs):
        return None
    ns = [x[1] for x in xs]
    if how == 'from_rational' and len(ns) == 2 and ns[1]:
        f = Fraction(ns[0], ns[1])
    elif how in ('one', 'zero'):
        f = Fraction(1 if how == 'one' else 0)
    elif len(ns) == 1:
        f = Fraction(ns[0], {'from_percent': 100, 'from_perthousand': 1000, 'from_parts': RATIOS[ty]}[how])
    else:
        return None
    f = min(f, Fraction(1))
    return app('ratio', I(f.numerator), I(f.denominator))


class Pallet:
    def __init__(self, name, path, inst, index, node, file):
        self.name, self.path, self.inst, self.index, self.node, self.file = name, path, inst, index, node, file
        self.crate = path.split('::')[0]

    @property
    def where(self):
        return '%s:%s (%s)' % (self.file, self.node['l'], self.name)


class RtModel(CommModel):
    w = None
    ext_pallets = ()

    # ---- which configuration a name refers to
    def runtime_type(self, t, env):
        """a projection on the runtime (or on the generic T of one of its pallets) as the type configured for it"""
        if t[0] != 'proj':
            return None
        if t[1][0] == 'proj':
            b = self.runtime_type(t[1], env)
            return self.w.assoc(b, t[3], t[2]) if b is not None else None
        if t[1] == ('param', 'T') or t[1] == ('t', RT, ()):
            return self.w.setting_near(env, t[2], t[3])
        return None

    def target(self, f, env):
        t, name = self.I.assoc_target(f, env) if len(f['segs']) > 1 or 'qself' in f else (None, None)
        if t is not None and t[0] == 't' and t[1] in self.w.aliases:
            return ('rt', self.w.aliases[t[1]], name)
        if t is not None and t[0] == 'proj':
            r = self.runtime_type(t, env)
            if r is not None and r[0] == 't' and r[1] in self.w.aliases:
                return ('rt', self.w.aliases[r[1]], name)
        if t is not None and t[0] == 't' and t[1].split('::')[-1] == 'Pallet' and t[1] not in self.pallets:
            c = self.ext_crate(f, env)
            for q in self.w.pallets:
                if q.crate == c and not (len([x for x in self.w.pallets if x.crate == c]) > 1 and not self.inst_ok(q, t)):
                    return ('rt', q, name)
        return super().target(f, env)

    def inst_ok(self, q, t):
        return len(t[2]) > 1 and t[2][1][0] == 't' and (q.inst or '').split('::')[-1] == last(t[2][1])

    def path(self, n, env, st):
        ids = tuple(x['id'] for x in n['segs'])
        if 'qself' not in n:
            d, k, ext = self.p.resolve(env.mod, ids, 'values')
            if d is None:
                c = EXT_CONSTS.get(((ext or ids)[0], (ext or ids)[-1]))
                if c is not None:
                    return V(I(c), st)
        return super().path(n, env, st)

    def call_path(self, f, args, n, env, st, want):
        I_ = self.I
        name = f['segs'][-1]['id']
        t, nm = I_.assoc_target(f, env) if len(f['segs']) > 1 or 'qself' in f else (None, None)
        if t is not None and name in ('try_origin', 'ensure_origin') and not self.own_fn(t, name):
            ft = self.runtime_type(t, env) or t
            if ft[0] == 't':
                def g(vs, s):
                    o = self.origin_of(I_.deep(vs[0], s))
                    out = []
                    for good, v, s2 in self.w.admit(ft, o, [strip(I_.deep(x, s)) for x in vs[1:]], s):
                        out.append(('v', ok(v) if good else err(o if name == 'try_origin' else app('bad origin')), s2))
                    return out
                return I_.many(args, env, st, None, g)
        if t is not None and name == 'get' and not args:
            v = self.getter(t, env, st)
            if v is not None:
                return V(v, st)
        if t is not None and t[0] == 'param' and name == 'from' and len(args) == 1:
            return I_.many(args, env, st, None, lambda vs, s: V(self.wrap_origin(strip(I_.deep(vs[0], s))), s))
        if t is not None and t[0] == 't' and name in ('try_from', 'from') and len(args) == 1 and last(t) in ('RawOrigin', 'Origin', 'RuntimeOrigin', 'OriginCaller'):
            def g(vs, s):
                v = strip(I_.deep(vs[0], s))
                if name == 'from':
                    return V(self.wrap_origin(v), s)
                r = self.read_origin(v, t)
                return V(r, s) if r is not None else self.fallible('origin', s, n, ok(app('origin as', v)), None, err(app('no origin')))
            return I_.many(args, env, st, None, g)
        if t is not None and t[0] == 't' and last(t) in ('RuntimeOrigin', 'RawOrigin') and name in ('root', 'signed', 'none') and self.p.def_of(t[1]) is None or (t and t[0] == 't' and t[1] == RO and name in ('root', 'signed', 'none')):
            kind = {'root': 'Root', 'signed': 'Signed', 'none': 'None'}[name]
            return I_.many(args, env, st, None, lambda vs, s: V(origin('system', ('adt', 'RawOrigin', kind, tuple(('0', strip(I_.deep(x, s))) for x in vs))), s))
        if t is not None and last(t) == 'PalletId' and name in ('try_from_sub_account', 'try_from_account') and len(args) == 1:
            def g(vs, s):
                a = strip(I_.deep(vs[0], s))
                x = app('sub account parts' if 'sub' in name else 'account parts', a)
                out = []
                for b, s2 in I_.branch(s, app('has', x)):
                    pid, cid = app('pallet of', a), app('id of', a)
                    I_.note_type(pid, ('t', 'PalletId', ()))
                    I_.note_type(cid, ('t', 'u16', ()))
                    v = ('tup', (pid, cid)) if 'sub' in name else pid
                    out.append(('v', some(v) if b else NONE, s2))
                return out
            return I_.many(args, env, st, None, g)
        if name == 'PalletId' and len(args) == 1 and self.p.resolve(env.mod, tuple(x['id'] for x in f['segs']))[0] is None:
            return I_.many(args, env, st, None, lambda vs, s: V(('adt', 'PalletId', None, (('0', I_.rv(vs[0], s)),)), s))
        if t is not None and t[0] == 't' and last(t) in RATIOS and self.p.def_of(t[1]) is None and name in ('from_percent', 'from_parts', 'from_rational', 'from_perthousand', 'one', 'zero'):
            def g(vs, s):
                xs = [strip(I_.deep(x, s)) for x in vs]
                r = ratio(last(t), name, xs)
                return V(r, s) if r is not None else V(app(name, *xs), s)
            return I_.many(args, env, st, None, g)
        tg = self.target(f, env)
        if tg is not None and tg[0] == 'rt':
            r = self.rt_call(tg[1], tg[2], args, n, env, st, want)
            if r is not None:
                return r
        return super().call_path(f, args, n, env, st, want)

    def own_fn(self, t, name):
        """does the program define this function for the type itself"""
        return t[0] == 't' and self.p.def_of(t[1]) is not None and self.I.find_assoc(t, name)[1] is not None

    def getter(self, t, env, st):
        ft = self.runtime_type(t, env) or t
        if ft[0] == 'param' and ft[1] in env.gen:
            ft = env.gen[ft[1]]
        return self.w.value(ft, st)

    def cfg_call(self, name, m, args, n, env, st, want):
        if m == 'track_for':
            def g(vs, s):
                x = app('track for', strip(self.I.deep(vs[0], s)))
                self.I.note_type(x, ('t', 'Result', (('t', 'u16', ()), UT)))
                return V(x, s)
            return self.I.many(args, env, st, None, g)
        return super().cfg_call(name, m, args, n, env, st, want)

    def rt_call(self, q, m, args, n, env, st, want):
        """a call of one of the runtime's pallets"""
        I_ = self.I
        d = lambda x, s: strip(I_.deep(x, s))
        c = self.p.crates.get(q.crate)
        if c is not None and q.crate != CRATE:
            for im in self.p.impls():
                if im.mod.crate is c and m in im.fns and last(im.self_ty) == 'Pallet':
                    return I_.many(args, env, st, None, lambda vs, s: I_.call_fn(im.fns[m], im.mod, im.self_ty, vs, s, n, dict(im.gen), im, want))
        if m == 'account_id' and not args:
            return V(app('account of', ('s', q.name)), st)
        if q.name == 'System' and m in ('block_number', 'extrinsic_index', 'block_hash', 'parent_hash', 'current_block_number'):
            def g(vs, s):
                x = app('System::' + m, *[d(v, s) for v in vs])
                I_.note_type(x, {'block_number': ('t', 'u32', ()), 'extrinsic_index': ('t', 'Option', (('t', 'u32', ()),))}.get(m, ('t', 'H256', ())))
                return V(x, s)
            return I_.many(args, env, st, None, g)
        if m == 'track_for':
            return self.cfg_call('Tracks', m, args, n, env, st, want)

        def g(vs, s):
            x = app('%s::%s' % (q.name, m), *[d(v, s) for v in vs])
            ty = {'is_member_of': ('t', 'bool', ()), 'author': ('t', 'Option', (('t', 'AccountId', ()),)), 'minimum_balance': ('t', 'u128', ())}.get(m)
            if ty:
                I_.note_type(x, ty)
            else:
                s = s.effect(('ext', '%s::%s' % (q.name, m), tuple(d(v, s) for v in vs), I_.where(n)))
            return V(x, s)
        return I_.many(args, env, st, None, g)

    # ---- origins
    def origin_of(self, v):
        v = strip(v)
        return v

    def caller_of(self, v):
        if v[0] == 'adt' and v[1] == RO:
            return dict(v[3])['caller']
        if v[0] == 'adt' and v[1] == OC:
            return v
        return None

    def wrap_origin(self, v):
        if v[0] == 'adt':
            if v[1] == 'RawOrigin':
                return origin('system', v)
            for q in self.w.pallets:
                if v[1].startswith(q.path + '::'):
                    return origin(q.name, v)
            if v[1] == OC:
                return ('adt', RO, None, (('caller', v),))
        return v

    def read_origin(self, v, t):
        """Result of reading an origin as one of the kinds it may hold; None when it cannot be told"""
        c = self.caller_of(v)
        if c is None:
            return None
        d = self.p.def_of(t[1])
        if d is None:
            if last(t) not in ('RawOrigin', 'Origin'):
                return None
            hit = c[2] == 'system'
        else:
            hit = any(c[2] == q.name and t[1].startswith(q.path + '::') for q in self.w.pallets)
        return ok(dict(c[3])['0']) if hit else err(v)

    def convert(self, v, want, st, node):
        v = strip(self.I.deep(v, st)) if v[0] in ('ref', 'adt') else v
        if self.caller_of(v) is not None and want[0] == 't' and want[1] == 'Result' and want[2] and want[2][0][0] == 't':
            r = self.read_origin(v, want[2][0])
            if r is not None:
                return V(r, st)
        if want[0] == 't' and want[1] in (RO, OC) or (want[0] == 'proj' and want[3] in ('RuntimeOrigin', 'PalletsOrigin')):
            return V(self.wrap_origin(v), st)
        if v[0] in ('sym', 'app', 'fld', 'pay') and want[0] == 't' and last(want) in ('AccountId', 'AccountId32') and self.I.typeof(v) is None:
            return V(v, st)
        return super().convert(v, want, st, node)

    def try_convert(self, v, want, st, node):
        v2 = strip(self.I.deep(v, st)) if v[0] in ('ref', 'adt') else v
        if self.caller_of(v2) is not None and want[0] == 't':
            r = self.read_origin(v2, want)
            if r is not None:
                return V(r, st)
        return super().try_convert(v, want, st, node)

    def bound_result(self, env):
        """X of a bound `O: Into<Result<X, O>>` in force, if there is exactly one"""
        out = set()
        for im in self.p.impls():
            if env.fn in im.fns and im.mod is env.mod and env.self_ty and im.self_ty[1:2] == env.self_ty[1:2]:
                gs = im.node['generics']
                bs = [b for q in gs['params'] for b in q.get('bounds') or ()]
                bs += [b for x in gs.get('where') or () for b in (x.get('bounds') or () if isinstance(x, dict) else ())]
                for b in bs:
                    if b.get('k') == 'Bound' and b['segs'][-1]['id'] == 'Into':
                        t = self.p.ty(b['segs'][-1]['args'][0], im.mod, im.gen, im.self_ty)
                        if t[0] == 't' and t[1] == 'Result':
                            out.add(t)
        return out.pop() if len(out) == 1 else None

    def method(self, ref, v, m, args, n, env, st, want, targs):
        I_ = self.I
        if m in ('as_ref', 'as_slice') and not args:
            # an account encodes as its own bytes
            x = strip(I_.deep(v, st))
            t = I_.typeof(x)
            if t is not None and t[0] == 't' and last(t) in ('AccountId', 'AccountId32'):
                return V(app('encode', x), st)
        c = self.caller_of(v)
        if c is not None and m == 'into' and not args and not (want and want[0] == 't' and want[1] == 'Result' and want[2] and want[2][0][0] == 't' and last(want[2][0]) in ('RawOrigin', 'Origin')):
            t = self.bound_result(env)
            r = self.read_origin(v, t[2][0]) if t is not None else None
            if r is not None:
                return V(r, st)
        if c is not None and not args:
            raw = dict(c[3]).get('0')
            sysr = c[2] == 'system'
            if m in ('caller', 'into_caller'):
                return V(c, st)
            if m == 'as_system_ref':
                return V(some(raw) if sysr else NONE, st)
            if m in ('as_signed', 'into_signer', 'as_signer'):
                return V(some(dict(raw[3])['0']) if sysr and raw[2] == 'Signed' else NONE, st)
            if m in ('is_root', 'is_none', 'is_signed'):
                return V(B(sysr and raw[2].lower() == m[3:]), st)
        if v[0] == 'adt' and v[1] == RC and not args and m in ('get_call_name',):
            return V(I_.std.lit_str(dict(v[3])['0'][2].encode()), st)
        if m == 'saturated_into' and not args:
            return V(app('saturated', strip(I_.deep(v, st)), ('s', show(want or UT))), st)
        return super().method(ref, v, m, args, n, env, st, want, targs)

    def free_call(self, f, args, n, env, st, want):
        I_ = self.I
        name = f['segs'][-1]['id']
        if name in ('ensure_signed', 'ensure_root', 'ensure_none') and len(args) == 1 and 'qself' not in f:
            kind = {'ensure_signed': 'Signed', 'ensure_root': 'Root', 'ensure_none': 'None'}[name]

            def g(vs, s):
                c = self.caller_of(strip(I_.deep(vs[0], s)))
                if c is None:
                    raise Unsupported('%s of something that is no origin' % name)
                raw = dict(c[3]).get('0')
                hit = c[2] == 'system' and raw[2] == kind
                return V((ok(dict(raw[3])['0'] if kind == 'Signed' else UNIT)) if hit else err(app('bad origin')), s)
            return I_.many(args, env, st, None, g)
        return super().free_call(f, args, n, env, st, want)


UT = ('tup', ())
RELAY = ('adt', 'Location', None, (('parents', I(1)), ('interior', ('arr', ()))))


def origin(kind, raw):
    return ('adt', RO, None, (('caller', ('adt', OC, kind, (('0', raw),))),))


class World:
    def __init__(self, rep, paseo=False, benchmarks=False, model=None):
        self.rep = rep
        feats = {k: list(v) for k, v in CRATES.items()}
        if paseo:
            feats['kreivo_runtime'].append('paseo')
            feats['runtime_constants'].append('paseo')
        if benchmarks:
            for k in feats:
                feats[k].append('runtime-benchmarks')
        self.p = P.Program(feats)
        self.crate = self.p.crates[CRATE]
        self.lift()
        self.model = (model or RtModel)(self.p, ['pallet_communities', 'pallet_payments', 'pallet_communities_manager'])
        self.model.w = self
        self.I = Interp(self.p, self.model)
        self.model.tally_def = None
        self.configs = []
        self.p.impls()
        for im in self.crate.impls:
            if im.trait and im.trait_name == 'Config':
                path = self.p.abs_path(im.mod, [s['id'] for s in im.trait['segs']])
                inst = last(im.trait_args[0]) if im.trait_args and im.trait_args[0][0] == 't' else None
                self.configs.append((path[0] if path[0] != CRATE else '::'.join(path[:-1]), inst, im))

    # ---- the pallet table
    def lift(self):
        mods = [m for m in self.crate.modules if any(a[0].split('::')[-1] == 'runtime' for a in P.live_attrs(m.attrs, self.crate.cfg))]
        if len(mods) != 1:
            raise P.SourceError(self.crate.root.file, 0, 'one module with the pallet table expected, found %d' % len(mods))
        m = mods[0]
        home = m.parent
        self.pallets, self.aliases = [], {}
        for name, d in list(m.types.items()):
            if d.kind == 'struct' and name == 'Runtime':
                home.types[name] = P.Def('struct', home.path + (name,), d.node, home)
                home.types[name].node = dict(d.node, generics={'params': [], 'where': []})
            if d.kind != 'type':
                continue
            ix = None
            for a in P.live_attrs(d.node.get('attrs'), self.crate.cfg):
                if a[0].split('::')[-1] == 'pallet_index':
                    ix = int(''.join(x for x in a[1] if isinstance(x, str)))
            ty = d.node['ty']
            segs = [s['id'] for s in ty['segs']]
            if segs[-1] == 'Pallet':
                segs = segs[:-1]
            path = self.p.abs_path(m, segs)
            if path == tuple(segs):
                path = self.p.abs_path(home, segs)
            path = '::'.join(path)
            args = ty['segs'][-1]['args'] or []
            inst = [a['segs'][-1]['id'] for a in args if a['k'] == 'TyPath' and a['segs'][-1]['id'] != 'Runtime']
            q = Pallet(name, path, inst[0] if inst else None, ix, d.node, m.file)
            self.pallets.append(q)
            full = home.path + (name,)
            home.types[name] = P.Def('pallet', full, d.node, home)
            self.aliases['::'.join(full)] = q
        none = {'params': [], 'where': []}
        variants = [{'id': q.name, 'l': q.node['l'], 'attrs': [], 'fields': {'style': 'tuple', 'fields': [{'id': '0', 'attrs': [], 'ty': {'k': 'TyInfer', 'l': 0}}]}, 'disc': None} for q in self.pallets]
        for n in AGGREGATES:
            if n in home.types:
                continue
            vs = []
            if n == 'RuntimeCall':
                vs = variants
            if n == 'OriginCaller':
                vs = [dict(variants[0], id='system')] + variants
            kind = 'enum' if vs else 'struct'
            node = {'k': 'Enum' if vs else 'Struct', 'l': m.node['l'], 'id': n, 'attrs': [], 'generics': none, 'variants': vs, 'fields': {'style': 'named', 'fields': []}}
            home.types[n] = P.Def(kind, home.path + (n,), node, home)
        self.home = home

    def xcm_config(self):
        """(name, impl) of the executor configuration the message pallet runs with"""
        t, where = self.setting('pallet_xcm', 'XcmExecutor')
        if t is None or not t[2] or t[2][0][0] != 't':
            raise P.SourceError(where.split(':')[0], 0, 'the message executor has no configuration')
        name = t[2][0]
        for crate, inst, im in self.configs:
            if crate == 'xcm_executor' and im.self_ty[1] == name[1]:
                return name, im
        raise P.SourceError(where.split(':')[0], 0, 'no executor configuration %s found' % show(name))

    def eval_const(self, d):
        outs = self.I.const_value(d, Env(d.mod), State())
        return strip(self.I.deep(outs[0][1], outs[0][2])) if len(outs) == 1 else UNIT

    def of(self, xc, name):
        im = xc[1]
        if name not in im.types:
            return None, '%s:%s' % (im.mod.file, im.node['l'])
        n = im.types[name]
        return self.norm(self.full(n['ty'], im), im), '%s:%s (%s)' % (im.mod.file, n['l'], name)

    def pallet(self, name):
        for q in self.pallets:
            if q.name == name:
                return q
        return None

    # ---- configured types, in full names
    def full(self, node, im):
        self.p.full = True
        try:
            return self.p.ty(node, im.mod, im.gen, im.self_ty)
        finally:
            self.p.full = False

    def full_in(self, node, mod):
        self.p.full = True
        try:
            return self.p.ty(node, mod, {}, None)
        finally:
            self.p.full = False

    def config(self, crate, inst=None):
        c = [x for x in self.configs if x[0] == crate and (inst is None or x[1] == inst)]
        return c[0][2] if len(c) == 1 else None

    def setting(self, crate, name, inst=None):
        """(type, place) of an associated type of a pallet's configuration"""
        im = self.config(crate, inst)
        if im is None:
            raise P.SourceError(self.crate.root.file, 0, 'no configuration of %s%s found for the runtime' % (crate, ' (%s)' % inst if inst else ''))
        where = '%s:%s (impl %s::Config for Runtime)' % (im.mod.file, im.node['l'], crate)
        if name not in im.types:
            return None, where
        n = im.types[name]
        where = '%s:%s (%s::Config::%s)' % (im.mod.file, n['l'], crate, name)
        return self.norm(self.full(n['ty'], im), im), where

    def setting_near(self, env, trait, name):
        """the type of that name in the configuration the code of `env` means"""
        cs = [x for x in self.configs if name in x[2].types]
        insts = {last(t) for t in env.gen.values() if t[0] == 't' and last(t).startswith('Instance')}
        bound = self.bounds(env)
        for keep in (lambda x: x[0] == env.mod.crate.name, lambda x: x[0] in bound, lambda x: trait and x[0] == trait.split('::')[0], lambda x: x[1] in insts, lambda x: True):
            ts = {self.norm(self.full(x[2].types[name]['ty'], x[2]), x[2]) for x in cs if keep(x)}
            if len(ts) == 1:
                return ts.pop()
            if ts:
                return None
        return None

    def bounds(self, env):
        """the crates whose configuration the type parameters in force are bounded by"""
        out = set()
        for im in self.p.impls():
            if env.fn in im.fns and im.mod is env.mod and env.self_ty and im.self_ty[1:2] == env.self_ty[1:2]:
                for gs in (im.node['generics'], im.fns[env.fn].get('generics') or {}):
                    bs = [b for q in gs.get('params') or () for b in q.get('bounds') or ()]
                    bs += [b for x in gs.get('where') or () for b in (x.get('bounds') or () if isinstance(x, dict) else ())]
                    for b in bs:
                        if b.get('k') == 'Bound' and b['segs'][-1]['id'] == 'Config':
                            out.add(self.p.abs_path(im.mod, [x['id'] for x in b['segs']])[0])
        return out

    def assoc(self, t, name, trait=None):
        """associated type of a type of the program"""
        if t is None or t[0] != 't':
            return None
        for im in self.p.impls():
            if name in im.types and im.self_ty[0] == 't' and im.self_ty[1] == t[1] and P.unify(im.self_ty, t):
                gen = self.I.match_gen(im, t)
                self.p.full = True
                try:
                    return self.p.ty(im.types[name]['ty'], im.mod, gen, t)
                finally:
                    self.p.full = False
        return None

    def norm(self, t, im=None, depth=0):
        """types with the projections on the runtime and on local types resolved"""
        if depth > 30 or not isinstance(t, tuple):
            return t
        go = lambda x: self.norm(x, im, depth + 1)
        if t[0] == 't':
            if t[1] == 'Runtime':
                return ('t', RT, ())
            if t[1].split('::')[-1] == 'Pallet' and t[2] and go(t[2][0]) == ('t', RT, ()):
                for q in self.pallets:
                    if t[1].startswith(q.path + '::') and (q.inst is None or (len(t[2]) > 1 and last(t[2][1]) == q.inst)):
                        return ('t', '::'.join(self.home.path + (q.name,)), ())
            return ('t', t[1], tuple(go(x) for x in t[2]))
        if t[0] == 'tup':
            return ('tup', tuple(go(x) for x in t[1]))
        if t[0] in ('arr', 'sl', 'assoc'):
            return tuple(go(x) if isinstance(x, tuple) else x for x in t)
        if t[0] == 'proj':
            b = go(t[1])
            if b == ('t', RT, ()):
                if t[3] == 'AccountId':
                    return ('t', 'parachains_common::AccountId', ())
                c = (t[2] or '').split('::')[0]
                cand = [x[2] for x in self.configs if t[3] in x[2].types and (x[0] == c or x[0].startswith(c + '::') if t[2] else True)]
                if t[2] is None and im is not None and t[3] in im.types:
                    cand = [im]
                ts = {self.norm(self.full(x.types[t[3]]['ty'], x), x, depth + 1) for x in cand}
                if len(ts) == 1:
                    return ts.pop()
                return ('proj', b, t[2], t[3])
            a = self.assoc(b, t[3], t[2])
            if a is not None:
                return self.norm(a, im, depth + 1)
            return ('proj', b, t[2], t[3])
        return t

    # ---- values of `Get` types and constants
    def value(self, t, st=None):
        """value of T::get() for a configured type, or None"""
        st = st or State()
        if t[0] != 't':
            return None
        n = last(t)
        if n.startswith('Const') and len(t[2]) == 1 and self.p.def_of(t[1]) is None:
            return self.const_arg(t[2][0])
        d = self.p.def_of(t[1])
        if d is not None and d.kind == 'param':
            return self.param(d)
        if d is not None:
            im, fn = self.I.find_assoc(t, 'get')
            if fn is not None:
                outs = self.I.run(fn, im.mod, t, [], st, self.I.match_gen(im, t), im)
                if len(outs) == 1 and outs[0][0] == 'v':
                    return strip(self.I.deep(outs[0][1], outs[0][2]))
        return None

    def const_arg(self, a):
        if a[0] == 'const':
            v = a[1]
            if v.lower() in ('true', 'false'):
                return B(v.lower() == 'true')
            return I(int(v.replace('_', ''), 0)) if v.lstrip('-').replace('_', '').isalnum() and v[:1].isdigit() else None
        if a[0] == 'cx':
            e, mod = self.p.const_args[a[1]]
            return self.eval(e, mod)
        if a[0] == 't':
            parts = a[1].split('::')
            c = EXT_CONSTS.get((parts[0], parts[-1]))
            if c is not None:
                return I(c)
            d = self.p.def_of(a[1])
            if d is not None and d.kind == 'const':
                return self.eval(d.node['e'], d.mod, self.p.ty(d.node['ty'], d.mod) if d.node.get('ty') else None)
        return None

    def param(self, d):
        want = self.p.ty(d.node['ty'], d.mod)
        return self.eval(d.node['e'], d.mod, want)

    def eval(self, e, mod, want=None):
        st = State()
        env = Env(mod)
        outs = self.I.ev(e, env, st, want)
        if len(outs) != 1 or outs[0][0] != 'v':
            return None
        v, s = outs[0][1], outs[0][2]
        if want is not None:
            v, s = self.I.std.coerce(v, want, s)
        return strip(self.I.deep(v, s))

    # ---- running functions of local types
    def find(self, t, fn, trait=None):
        """(impl, fn node) of an associated function of a type"""
        if t is None or t[0] != 't':
            return None, None
        for im in self.p.impls():
            if fn in im.fns and im.self_ty[0] == 't' and im.self_ty[1] == t[1] and (trait is None or im.trait_name == trait) and P.unify(self.short(im.self_ty), self.short(t)):
                return im, im.fns[fn]
        return None, None

    def short(self, t):
        if t[0] == 't':
            local = self.p.def_of(t[1]) is not None
            return ('t', t[1] if local else t[1].split('::')[-1], tuple(self.short(x) for x in t[2]))
        if t[0] == 'tup':
            return ('tup', tuple(self.short(x) for x in t[1]))
        return t

    def run(self, t, fn, args, st=None, trait=None):
        """outcomes of an associated function of a configured type"""
        im, f = self.find(t, fn, trait)
        if f is None:
            raise P.SourceError(self.crate.root.file, 0, 'function %s of %s not found' % (fn, show(t)))
        outs = self.I.run(f, im.mod, self.short(t), args, st or State(), self.I.match_gen(im, self.short(t)), im)
        self.rep.paths += len(outs)
        return outs, '%s:%s (%s::%s)' % (im.mod.file, f['l'], show(t), fn)

    # ---- who an origin type admits
    def admit(self, t, o, args, st, depth=0):
        """[(admitted, success value, state)] of an EnsureOrigin type for an origin value"""
        if depth > 20:
            raise Unsupported('origin types nested too deep')
        n = last(t)
        c = self.model.caller_of(o)
        raw = dict(c[3]).get('0')
        sysr = raw[2] if c[2] == 'system' else None
        go = lambda t2, s=st: self.admit(t2, o, args, s, depth + 1)
        d = self.p.def_of(t[1])
        if d is not None and d.kind != 'type':
            im, f = self.find(t, 'try_origin')
            if f is None:
                raise P.SourceError(d.mod.file, d.node['l'], 'no try_origin found for the origin type %s' % show(t))
            vs = [o] + [a for a in args]
            vs = vs[:len(f['params'])]
            while len(vs) < len(f['params']):
                vs.append(sym('origin argument', ('t', '?', ())))
            out = []
            for r in self.I.run(f, im.mod, self.short(t), vs, st, self.I.match_gen(im, self.short(t)), im):
                self.rep.paths += 1
                if r[0] == 'panic':
                    continue
                for b, s in self.I.test_variant(self.I.rv(r[1], r[2]), 'Result', 'Ok', r[2]):
                    out.append((b, strip(self.I.deep(self.I.payload(self.I.rv(r[1], r[2]), 'Ok', '0', s), s)) if b else None, s))
            return out
        if n == 'EnsureRoot':
            return [(sysr == 'Root', UNIT, st)]
        if n == 'EnsureRootWithSuccess':
            return [(sysr == 'Root', self.value(t[2][1], st) or app('value of', ('s', show(t[2][1]))), st)]
        if n == 'EnsureSigned':
            return [(sysr == 'Signed', dict(raw[3])['0'] if sysr == 'Signed' else None, st)]
        if n == 'EnsureSignedBy':
            return [(sysr == 'Signed', dict(raw[3])['0'] if sysr == 'Signed' else None, st)]
        if n == 'EnsureNone':
            return [(sysr == 'None', UNIT, st)]
        if n in ('EnsureNever', 'NeverEnsureOrigin'):
            return [(False, None, st)]
        if n == 'EnsureWithSuccess':
            return [(a, self.value(t[2][-1], s), s) for a, v, s in go(t[2][0])]
        if n in ('EitherOf', 'EitherOfDiverse'):
            out = []
            for a, v, s in go(t[2][0]):
                if a:
                    out.append((a, v, s))
                else:
                    out += go(t[2][1], s)
            return out
        if n == 'AsEnsureOriginWithArg':
            return self.admit(t[2][0], o, [], st, depth + 1)
        if n in ('MapSuccess', 'TryMapSuccess', 'TryWithMorphedArg'):
            if n == 'TryWithMorphedArg':
                raise Unsupported('origin type ' + show(t))
            out = []
            for a, v, s in go(t[2][0]):
                if not a:
                    out.append((a, None, s))
                else:
                    out += self.morph(t[2][1], v, s, n == 'TryMapSuccess')
            return out
        if n == 'EnsureXcm':
            out = []
            if c[2] != 'PolkadotXcm':
                return [(False, None, st)]
            loc = dict(raw[3]).get('0')
            for b, s in self.location_filter(t[2][0], loc, st):
                out.append((b, loc, s))
            return out
        if n == 'EnsureSignedPays' and t[1].startswith('pallet_pass'):
            return [(sysr == 'Signed', some(app('pay', dict(raw[3])['0'], self.value(t[2][1], st) or UNIT, self.value(t[2][2], st) or UNIT)) if sysr == 'Signed' else None, st)]
        raise Unsupported('origin type %s is not one the analysis knows' % t[1])

    def morph(self, t, v, st, fallible):
        d = self.p.def_of(t[1])
        if d is not None and d.kind == 'morph':
            env = Env(d.mod)
            ps = [q['id'] for q in d.node.get('generics', {}).get('params', ()) if q.get('k') == 'TypeParam']
            env.gen = {q: a for q, a in zip(ps, t[2])}
            outs = self.I.ev(d.node['f'], env, st)
            out = []
            for o in outs:
                for r in self.I.apply(o[1], [v], o[2], d.node['f']):
                    if r[0] == 'panic':
                        continue
                    x = self.I.rv(r[1], r[2])
                    if not fallible:
                        out.append((True, strip(self.I.deep(x, r[2])), r[2]))
                        continue
                    for b, s in self.I.test_variant(x, 'Result', 'Ok', r[2]):
                        out.append((b, strip(self.I.deep(self.I.payload(x, 'Ok', '0', s), s)) if b else None, s))
            return out
        im, f = self.find(t, 'try_morph' if fallible else 'morph')
        if f is not None:
            out = []
            for r in self.I.run(f, im.mod, self.short(t), [v], st, self.I.match_gen(im, self.short(t)), im):
                if r[0] == 'panic':
                    continue
                x = self.I.rv(r[1], r[2])
                if not fallible:
                    out.append((True, strip(self.I.deep(x, r[2])), r[2]))
                    continue
                for b, s in self.I.test_variant(x, 'Result', 'Ok', r[2]):
                    out.append((b, strip(self.I.deep(self.I.payload(x, 'Ok', '0', s), s)) if b else None, s))
            return out
        if last(t) == 'Identity':
            return [(True, v, st)]
        raise Unsupported('mapping %s of an origin' % show(t))

    def location_filter(self, t, loc, st):
        """[(bool, state)] of a location filter used in an origin"""
        n = last(t)
        if n == 'IsVoiceOfBody':
            return self.I.branch(st, app('voice of body', self.value(t[2][0], st) or ('s', show(t[2][0])), self.value(t[2][1], st) or ('s', show(t[2][1])), loc))
        if n == 'Everything':
            return [(True, st)]
        if n == 'Nothing':
            return [(False, st)]
        im, f = self.find(t, 'contains')
        if f is not None:
            out = []
            for r in self.I.run(f, im.mod, self.short(t), [loc], st, self.I.match_gen(im, self.short(t)), im):
                if r[0] != 'panic':
                    out += self.I.branch(r[2], self.I.boolterm(r[1], r[2]))
            return out
        raise Unsupported('location filter ' + show(t))

    def custom_origins(self):
        """(pallet, enum definition) of the runtime's own origins"""
        out = []
        for q in self.pallets:
            if q.crate != CRATE:
                continue
            for m in self.crate.modules:
                if '::'.join(m.path) != q.path:
                    continue
                for d in m.types.values():
                    if d.kind == 'enum' and any(a[0] == 'pallet::origin' for a in P.live_attrs(d.node.get('attrs'), self.crate.cfg)):
                        out.append((q, d))
        return out

    def principals(self):
        """{class: origin value} of every kind of caller"""
        acc = ('t', 'AccountId', ())
        raw = lambda v, *a: ('adt', 'RawOrigin', v, tuple((str(i), x) for i, x in enumerate(a)))
        out = {'root': origin('system', raw('Root')), 'none': origin('system', raw('None')), 'signed': origin('system', raw('Signed', sym('who', acc)))}
        for q, d in self.custom_origins():
            for v in d.node['variants']:
                fs = tuple((f['id'] or str(i), sym(v['id'] + '.' + str(i), ('t', '?', ()))) for i, f in enumerate(v['fields']['fields']))
                out['governance ' + v['id']] = origin(q.name, ('adt', '::'.join(d.path), v['id'], fs))
        for q in self.pallets:
            if q.crate == 'pallet_communities':
                cid = sym('community', ('t', 'u16', ()))
                sub = sym('subset', ('t', 'Option', (('t', 'pallet_communities::origin::Subset', ()),)))
                d = self.community_origin()
                fs = [f['id'] for f in d.node['fields']['fields']]
                out['community'] = origin(q.name, ('adt', '::'.join(d.path), None, tuple((f, cid if f == 'community_id' else sub) for f in fs)))
            if q.crate == 'pallet_xcm':
                out['message'] = origin(q.name, ('adt', 'Origin', 'Xcm', (('0', sym('location', ('t', 'Location', ()))),)))
            if q.crate == 'cumulus_pallet_xcm':
                out['chain'] = origin(q.name, ('adt', 'Origin', 'SiblingParachain', (('0', sym('para', ('t', 'u32', ()))),)))
        return out

    def community_origin(self):
        d, n, ext = self.p.resolve(self.p.crates['pallet_communities'].root, ('origin', 'RawOrigin'))
        if d is None:
            raise P.SourceError('pallets/communities/src/origin.rs', 0, 'the origin of communities is missing')
        return d

    def done(self):
        self.rep.absorb(self.I)


# ------------------------------------------------------------------ R03, R05, R11
def call_value(w, pallet, name):
    return ('adt', RC, pallet, (('0', ('adt', 'Call', name, ())),))


def pattern_names(w):
    """identifiers the patterns and strings of the runtime's functions use: every call a filter can name is among them"""
    out = set()

    def go(x):
        if isinstance(x, dict):
            if x.get('k') in ('PatStruct', 'PatTupleStruct', 'PatPath') and ('segs' in x or 'path' in x):
                out.add((x['segs'] if 'segs' in x else x['path']['segs'])[-1]['id'])
            if x.get('k') == 'Lit' and x.get('t') == 'str' and x['v'].isidentifier():
                out.add(x['v'])
            for y in x.values():
                go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)
    for m in w.crate.modules:
        for it in m.items:
            if it['k'] != 'Mod':
                go(it)
    return {n for n in out if n[:1].islower()}


def verdicts(w, outs):
    """the truth values a boolean function may give"""
    r = set()
    for o in outs:
        if o[0] == 'panic':
            r.add('panic')
            continue
        for b, s in w.I.branch(o[2], w.I.boolterm(o[1], o[2])):
            r.add(b)
    return r


OWNER = {'create', 'start_destroy', 'destroy_accounts', 'destroy_approvals', 'finish_destroy', 'transfer_ownership', 'set_team', 'set_metadata', 'clear_metadata'}
MANAGER = {'mint', 'burn', 'freeze', 'thaw', 'freeze_asset', 'thaw_asset', 'block'}
WRAPPERS = ('pallet_utility', 'pallet_multisig')


def r03(rep):
    w = World(rep)
    t, where = w.setting('pallet_proxy', 'ProxyType')
    d = w.p.def_of(t[1]) if t and t[0] == 't' else None
    if d is None or d.kind != 'enum':
        raise P.SourceError(w.crate.root.file, 0, 'the proxy kinds are not an enumeration of the runtime')
    kinds = [v['id'] for v in d.node['variants']]
    for k in ('Any', 'NonTransfer', 'CancelProxy', 'Assets', 'AssetOwner', 'AssetManager', 'Collator'):
        if k not in kinds:
            raise P.SourceError(d.mod.file, d.node['l'], 'proxy kind %s is missing' % k)
    names = sorted(pattern_names(w) | OWNER | MANAGER | {'reject_announcement', 'announce', 'proxy', 'add_proxy', 'transfer', 'force_set_balance'})
    kind = lambda k: ('adt', t[1], k, ())
    allowed = {}
    fwhere = None
    for k in kinds:
        allowed[k] = set()
        for q in w.pallets:
            for c in names + ['(any other call)']:
                outs, fwhere = w.run(t, 'filter', [kind(k), call_value(w, q.name, c)], trait='InstanceFilter')
                r = verdicts(w, outs)
                rep.check(len(r) == 1 and 'panic' not in r, 'the filter is a function of the kind and the call', fwhere, 'kind %s with %s::%s gives %s' % (k, q.name, c, sorted(map(str, r))), 'filter ' + k)
                if True in r:
                    allowed[k].add((q.name, c))
    def crate(name):
        return w.pallet(name).crate
    spec = {'NonTransfer': lambda q, c: crate(q) not in ('pallet_balances', 'pallet_assets'),
            'CancelProxy': lambda q, c: crate(q) in WRAPPERS or (crate(q) == 'pallet_proxy' and c == 'reject_announcement'),
            'Assets': lambda q, c: crate(q) in WRAPPERS + ('pallet_assets',),
            'AssetOwner': lambda q, c: crate(q) in WRAPPERS or (crate(q) == 'pallet_assets' and c in OWNER),
            'AssetManager': lambda q, c: crate(q) in WRAPPERS or (crate(q) == 'pallet_assets' and c in MANAGER),
            'Collator': lambda q, c: crate(q) in WRAPPERS + ('pallet_collator_selection',)}
    for k, f in spec.items():
        for q, c in sorted(allowed[k]):
            rep.check(f(q, c), 'a restricted proxy makes only calls of its kind', fwhere, 'the %s proxy may call %s::%s' % (k, q, c), '%s allows %s' % (k, q))
        for q in w.pallets if k != 'NonTransfer' else ():
            for c in names + ['(any other call)']:
                if f(q.name, c) and c != 'block':
                    rep.check((q.name, c) in allowed[k], 'a proxy makes every call of its kind', fwhere, 'the %s proxy may not call %s::%s' % (k, q.name, c), '%s refuses %s' % (k, q.name))
    for q in w.pallets:
        rep.check((q.name, '(any other call)') in allowed['Any'], 'a proxy makes every call of its kind', fwhere, 'the unrestricted proxy may not call %s' % q.name, 'Any refuses %s' % q.name)
    for a in kinds:
        for b in kinds:
            outs, swhere = w.run(t, 'is_superset', [kind(a), kind(b)], trait='InstanceFilter')
            r = verdicts(w, outs)
            more = allowed[b] - allowed[a]
            rep.check(r == {False} or (r == {True} and not more), 'a kind includes another only if it permits all its calls', swhere,
                      '%s is taken to include %s, which also permits %s' % (a, b, ', '.join('%s::%s' % x for x in sorted(more)[:3])) if more else 'inclusion of %s in %s has no single answer' % (b, a), 'superset %s %s' % (a, b))
            if (a, b) in NARROWER:
                rep.check(r == {True}, 'a kind includes its narrower ones', swhere, '%s is not taken to include %s' % (a, b), 'includes %s %s' % (a, b))
            if a == b or a == 'Any':
                rep.check(r == {True}, 'every kind includes itself and the unrestricted kind includes all', swhere, '%s is not taken to include %s' % (a, b), 'includes %s %s' % (a, b))
    rep.extra['proxy kinds'] = len(kinds)
    rep.extra['calls tried per kind'] = len(w.pallets) * (len(names) + 1)
    w.done()
    return ('Interprets the configured proxy filter for every kind with every pallet and every call name the source can distinguish plus one that it does not name, compares the '
            'admitted calls with the area of the kind, and interprets the inclusion test for every pair against the admitted sets.')


NARROWER = {('Assets', 'AssetOwner'), ('Assets', 'AssetManager'), ('NonTransfer', 'Collator')}


def r05(rep):
    w = World(rep)
    t, where = w.setting('pallet_scheduler', 'OriginPrivilegeCmp')
    ps = w.principals()
    ps['signed by another'] = origin('system', ('adt', 'RawOrigin', 'Signed', (('0', sym('other', ('t', 'AccountId', ()))),)))
    caller = {k: w.model.caller_of(o) for k, o in ps.items()}
    n = 0
    if t is None or w.p.def_of(t[1]) is None:
        rep.check(False, 'privilege comparison', where, 'the scheduler compares origins with %s' % show(t), 'comparison')
        return 'The configured comparison is not one of the repository.'
    for a, x in caller.items():
        for b, y in caller.items():
            outs, fw = w.run(t, 'cmp_privilege', [x, y], trait='PrivilegeCmp')
            for o in outs:
                n += 1
                if o[0] == 'panic':
                    rep.check(False, 'privilege comparison', fw, 'comparing %s with %s may panic' % (a, b), 'panic')
                    continue
                v = strip(w.I.deep(o[1], o[2]))
                same = x == y or w.I.std.eq(x, y, o[2]) == B(True) or o[2].facts.decide_eq(x, y) is True
                f = o[2].facts
                if not same and a in ('signed', 'signed by another') and b in ('signed', 'signed by another'):
                    same = f.decide_eq(sym('who', ('t', 'AccountId', ())), sym('other', ('t', 'AccountId', ()))) is True
                ord_ = lambda k: some(('adt', 'Ordering', k, ()))
                want = [ord_('Equal')] if same else [ord_('Greater')] if a == 'root' else [NONE, ord_('Less')] if b == 'root' else [NONE]
                rep.check(v in want, 'equal origins are equal, root is above the others, all else is unrelated', fw,
                          'comparing %s with %s%s gives %s' % (a, b, ' (the same)' if same else '', fmt(v)), 'compare %s %s' % (a if a == 'root' or same else 'other', b if b == 'root' else 'other'))
    rep.extra['pairs of origin classes'] = len(caller) ** 2
    w.done()
    return 'Interprets the comparison configured for the scheduler for every pair of origin classes (root, none, two signers, each governance origin, community, message, chain).'


def fmt(v):
    if v == NONE:
        return 'None'
    if v[0] == 'adt' and v[2]:
        return v[2] + ('(%s)' % ', '.join(fmt(x) for _, x in v[3]) if v[3] else '')
    if v[0] == 'sym':
        return v[1]
    if v[0] == 'int':
        return str(v[1])
    return str(v)[:120]


def r11(rep):
    w = World(rep)
    t, where = w.setting('pallet_contracts', 'CallFilter')
    names = sorted(pattern_names(w) | {'transfer_allow_death', 'transfer_keep_alive', 'transfer_all', 'force_transfer', 'force_set_balance', 'transfer'})
    n = 0
    if t and t[0] == 't' and last(t) == 'Nothing' and w.p.def_of(t[1]) is None:
        pass
    else:
        for q in w.pallets:
            for c in names + ['(any other call)']:
                n += 1
                if w.p.def_of(t[1]) is None:
                    rep.check(False, 'contracts dispatch only plain transfers', where, 'contracts may dispatch what %s lets through' % show(t), 'filter')
                    break
                outs, fw = w.run(t, 'contains', [call_value(w, q.name, c)])
                r = verdicts(w, outs)
                plain = q.crate == 'pallet_balances' and c in ('transfer_allow_death', 'transfer_keep_alive')
                rep.check(r == {False} or (plain and r <= {True, False}), 'contracts dispatch only plain transfers', fw, 'a contract may dispatch %s::%s' % (q.name, c), 'dispatch ' + q.name)
    for s, allowed in (('UploadOrigin', {'root'}), ('InstantiateOrigin', {'root', 'community 1', 'community 2'})):
        ot, ow = w.setting('pallet_contracts', s)
        got = set()
        for who, v, cls in admitted(w, ot, ow):
            got.add(cls)
            rep.check(cls in allowed, 'who may add contracts', ow, '%s admits %s' % (s, cls), '%s admits %s' % (s, cls))
        for cls in sorted(allowed - got):
            rep.check(False, 'who may add contracts', ow, '%s does not admit %s' % (s, cls), '%s refuses %s' % (s, cls))
    rep.extra['calls tried'] = n
    w.done()
    return 'Interprets the contract call filter for every pallet and distinguishable call, and the configured upload and instantiate origins for every class of caller.'


def admitted(w, t, where, args=()):
    """[(class, success value, refined class)] of the callers an origin type lets through"""
    out = []
    if t is None or t[0] != 't':
        raise P.SourceError(where, 0, 'origin setting not found')
    for cls, o in w.principals().items():
        for a, v, s in w.admit(t, o, list(args), State()):
            w.rep.paths += 1
            if not a:
                continue
            refined = cls
            if cls == 'community':
                cid = sym('community', ('t', 'u16', ()))
                x = s.facts.canon(cid)
                if x[0] == 'int':
                    refined = 'community %d' % x[1]
            if cls == 'message':
                for x in true_atoms(s):
                    if x[0] == 'app' and x[1] == 'voice of body' and x[2][0] == RELAY and x[2][1] == ('adt', 'BodyId', 'Defense', ()):
                        refined = 'relay staking authority'
            out.append((cls, v, refined))
    return out


# ------------------------------------------------------------------ R02
NOBODY, ROOT = frozenset(), frozenset({'root'})
ORIGINS = [('pallet_assets', 'Instance1', 'CreateOrigin', NOBODY), ('pallet_assets', 'Instance1', 'ForceOrigin', ROOT),
           ('pallet_nfts', 'Instance2', 'ForceOrigin', ROOT), ('pallet_nfts', 'Instance2', 'CreateOrigin', ROOT),
           ('pallet_treasury', None, 'RejectOrigin', ROOT), ('pallet_treasury', None, 'SpendOrigin', NOBODY),
           ('pallet_scheduler', None, 'ScheduleOrigin', ROOT), ('pallet_preimage', None, 'ManagerOrigin', ROOT),
           ('cumulus_pallet_xcmp_queue', None, 'ControllerOrigin', ROOT), ('pallet_xcm', None, 'AdminOrigin', ROOT),
           ('pallet_referenda_tracks', 'Instance2', 'AdminOrigin', ROOT),
           ('pallet_collator_selection', None, 'UpdateOrigin', ROOT | {'relay staking authority'}),
           ('pallet_ranked_collective', 'Instance1', 'AddOrigin', NOBODY), ('pallet_ranked_collective', 'Instance1', 'PromoteOrigin', ROOT),
           ('pallet_ranked_collective', 'Instance1', 'DemoteOrigin', ROOT), ('pallet_ranked_collective', 'Instance1', 'RemoveOrigin', ROOT),
           ('pallet_ranked_collective', 'Instance1', 'ExchangeOrigin', ROOT),
           ('pallet_referenda', 'Instance1', 'CancelOrigin', ROOT | {'governance ReferendumCanceller'}),
           ('pallet_referenda', 'Instance1', 'KillOrigin', ROOT | {'governance ReferendumKiller'}),
           ('pallet_referenda', 'Instance2', 'CancelOrigin', ROOT), ('pallet_referenda', 'Instance2', 'KillOrigin', ROOT),
           ('pallet_communities', None, 'CreateOrigin', NOBODY)]


def r02(rep):
    w = World(rep)
    n = 0
    for crate, inst, name, allowed in ORIGINS:
        t, where = w.setting(crate, name, inst)
        if t is None:
            raise P.SourceError(where.split(':')[0], 0, 'the configuration of %s does not set %s' % (crate, name))
        got = admitted(w, t, where, [sym('argument', ('t', '?', ()))])
        n += len(w.principals())
        bad = sorted({c for _, _, c in got} - allowed)
        rep.check(not bad, 'an administrative origin admits only its authority', where, '%s of %s admits %s' % (name, crate + (' ' + inst if inst else ''), ', '.join(bad)), '%s %s %s' % (crate, inst, name))
    rep.extra['origin settings'] = len(ORIGINS)
    rep.extra['settings times classes of callers'] = n
    w.done()
    return ('Evaluates every administrative origin setting, as configured outside of benchmarking, on every class of caller: combinators of the SDK by their documented meaning, '
            'the repository\'s own by interpreting their bodies. The admitted classes must lie within the authority named for the setting.')


# ------------------------------------------------------------------ R04
def text_of(v):
    """the letters of a byte string somewhere inside a value"""
    if not isinstance(v, tuple):
        return None
    if v[0] == 'adt' and v[1] in ('str', 'String'):
        pass
    if v and v[0] == 'seq' or v[0] == 'lit' or v[0] == 'arr':
        bs = []

        def go(x):
            if isinstance(x, bytes):
                bs.append(x)
            elif isinstance(x, tuple):
                if x and x[0] == 'int':
                    bs.append(bytes([x[1] & 255]))
                    return
                for y in x[1:] if x and isinstance(x[0], str) else x:
                    go(y)
        go(v)
        return b''.join(bs).decode('utf8', 'replace')
    for x in v:
        if isinstance(x, tuple):
            r = text_of(x)
            if r:
                return r
    return None


def plain(s):
    return ''.join(c for c in s.lower() if c.isalnum())


def adts_with(v, fields):
    if isinstance(v, tuple):
        if v and v[0] == 'adt' and fields <= {k for k, _ in v[3]}:
            yield v
            return
        for x in v:
            yield from adts_with(x, fields)


def r04(rep):
    w = World(rep)
    t, where = w.setting('pallet_referenda', 'Tracks', 'Instance1')
    outs, tw = w.run(t, 'tracks', [])
    table = {}
    for o in outs:
        if o[0] != 'v':
            continue
        for x in adts_with(strip(w.I.deep(o[1], o[2])), {'id', 'info'}):
            f = dict(x[3])
            info = dict(f['info'][3]) if f['info'][0] == 'adt' else {}
            table.setdefault(f['id'], []).append(text_of(info.get('name')) or '')
    R = 'each authority has the one track made for it'
    rep.check(bool(table), R, tw, 'no track found in the table', 'table')
    for i, names in table.items():
        rep.check(len(names) == 1 and i[0] == 'int', R, tw, 'track %s is listed %d times' % (fmt(i), len(names)), 'duplicate track')
    own = {}
    for cls, o in w.principals().items():
        outs, fw = w.run(t, 'track_for', [w.model.caller_of(o)])
        name = 'root' if cls == 'root' else cls.split()[1] if cls.startswith('governance') else None
        for r in outs:
            if r[0] == 'panic':
                rep.check(False, R, fw, 'panics for %s' % cls, 'panic')
                continue
            for b, s in w.I.test_variant(w.I.rv(r[1], r[2]), 'Result', 'Ok', r[2]):
                if name is None:
                    rep.check(not b, R, fw, 'an origin that is no governance authority (%s) has a track' % cls, 'track for ' + cls)
                    continue
                rep.check(b, R, fw, 'the %s origin has no track' % name, 'no track ' + name)
                if b:
                    i = strip(w.I.deep(w.I.payload(w.I.rv(r[1], r[2]), 'Ok', '0', s), s))
                    rep.check(i in table, R, fw, 'the track %s of %s is not in the table' % (fmt(i), name), 'missing ' + name)
                    if i in table:
                        rep.check(plain(table[i][0]) == plain(name), R, fw, 'the %s origin decides on the track named "%s"' % (name, table[i][0]), 'track of ' + name)
                    own.setdefault(i, set()).add(name)
    for i, ns in own.items():
        rep.check(len(ns) == 1, R, tw, 'track %s is shared by %s' % (fmt(i), ', '.join(sorted(ns))), 'shared')

    # authorities of the custom origins
    R = 'a custom authority admits only its own origin'
    found = 0
    for q, d in w.custom_origins():
        for v in d.node['variants']:
            e = d.mod.types.get(v['id'])
            if e is None or e.kind != 'struct':
                continue
            found += 1
            t2 = ('t', '::'.join(e.path), ())
            got = {c for _, _, c in admitted(w, t2, '')}
            rep.check(got <= {'governance ' + v['id']}, R, '%s:%s (%s)' % (e.mod.file, e.node['l'], v['id']), '%s admits %s' % (v['id'], ', '.join(sorted(got))), 'authority ' + v['id'])
    rep.check(found > 0, R, w.crate.root.file, 'no authority of the custom origins found', 'authorities')

    # a community's own track
    R = 'a community changes only its own track'
    t, where = w.setting('pallet_referenda_tracks', 'UpdateOrigin', 'Instance2')
    arg = sym('track', ('t', 'u16', ()))
    for cls, o in w.principals().items():
        for a, v, s in w.admit(t, o, [arg], State()):
            rep.paths += 1
            if not a or cls == 'root':
                continue
            x = app('track for', w.model.caller_of(o))
            mine = w.I.payload(x, 'Ok', '0', s)
            rep.check(s.facts.decide_eq(mine, arg) is True, R, where, 'an origin of class %s may change a track that is not its own' % cls, 'own track')
    # proposals to a community's track
    R = 'only members and root submit to the track of a community'
    t, where = w.setting('pallet_referenda', 'SubmitOrigin', 'Instance2')
    arg = sym('track origin', ('t', OC, ()))
    may = set()
    for cls, o in w.principals().items():
        for a, v, s in w.admit(t, o, [arg], State()):
            rep.paths += 1
            if a:
                may.add(cls)
            if not a or cls == 'root':
                continue
            who = sym('who', ('t', 'AccountId', ()))
            cid = w.I.payload(app('track for', arg), 'Ok', '0', s)
            member = any(f[0] == 'app' and f[1].endswith('::is_member_of') and s.facts.decide_eq(f[2][0], cid) is True and f[2][1] == who for f in true_atoms(s))
            rep.check(cls == 'signed' and member, R, where, 'a %s origin may submit without being a member of the community of the track' % cls, 'submit ' + cls)
            rep.check(v == who or cls != 'signed', R, where, 'the proposal is not submitted in the name of its signer', 'submit name')
    for cls, who in (('signed', 'members'), ('root', 'root')):
        rep.check(cls in may, R, where, '%s cannot submit to the track of a community' % who, 'submit never ' + cls)
    rep.extra['tracks'] = len(table)
    w.done()
    return ('Interprets the track table and the track lookup for every origin class and matches lookups with table entries by identifier and name; interprets the custom authorities, '
            'the track update origin and the submit origin of community referenda for every class of caller.')


def true_atoms(s):
    """conditions known to hold on a path"""
    return [k for k, b in s.facts.lits.items() if b is True]


# ------------------------------------------------------------------ locations
JT, ACC = ('t', 'Junction', ()), ('t', 'AccountId', ())


def location(parents, *junctions):
    return ('adt', 'Location', None, (('parents', I(parents)), ('interior', ('arr', tuple(junctions)))))


def shapes(deep=8):
    """every shape of a location (parents, junctions), the junctions arbitrary"""
    for p in range(4):
        for n in range(deep + 1):
            js = [sym('junction %d' % i, JT) for i in range(n)]
            yield p, js, location(p, *js)


def parts(t):
    """the members of a tuple type, or the type itself"""
    if t is None:
        return []
    if t[0] == 'tup':
        return [y for x in t[1] for y in parts(x)]
    return [t]


def j_para(n):
    return ('adt', 'Junction', 'Parachain', (('0', I(n)),))


def j_net(n):
    return ('adt', 'Junction', 'GlobalConsensus', (('0', ('adt', 'NetworkId', n, ())),))


HUB = location(1, j_para(1000))


def is_junction(w, s, j, want):
    """does the path know that the junction is the given one"""
    if s.facts.decide_eq(j, want) is True:
        return True
    if s.facts.variant(j) != want[2]:
        return False
    return all(is_junction(w, s, w.I.payload(j, want[2], k, s), x) if x[0] == 'adt' else s.facts.decide_eq(w.I.payload(j, want[2], k, s), x) is True for k, x in want[3])


def truths(w, outs):
    for o in outs:
        if o[0] == 'panic':
            continue
        for b, s in w.I.branch(o[2], w.I.boolterm(o[1], o[2])):
            if b:
                yield s


def r07(rep):
    w = World(rep)
    xc = w.xcm_config()
    R = 'reserves are taken only from the chain that is the reserve'
    t, where = w.of(xc, 'IsReserve')
    n = 0
    for x in parts(t):
        if w.p.def_of(x[1]) is None:
            rep.check(last(x) in ('NativeAsset', 'Nothing'), R, where, 'reserves are also accepted by %s' % show(x), 'reserve ' + show(x))
            continue
        for p, js, loc in shapes():
            asset = ('adt', 'Asset', None, (('id', ('adt', 'AssetId', None, (('0', loc),))), ('fun', sym('amount', ('t', 'Fungibility', ())))))
            org = sym('origin', ('t', 'Location', ()))
            w.I.note_type(w.I.field(org, 'parents', State()), ('t', 'u8', ()))
            outs, fw = w.run(x, 'contains', [asset, org])
            for s in truths(w, outs):
                n += 1
                own = s.facts.decide_eq(org, loc) is True
                hub = same_location(w, s, org, HUB)
                under = p == 1 and js and is_junction(w, s, js[0], j_para(1000))
                other = p == 2 and js and is_junction(w, s, js[0], j_net('Polkadot'))
                what = 'parents %d, %d junctions' % (p, len(js))
                rep.check(own or hub, R, fw, 'an asset (%s) is accepted without its origin being the reserve chain' % what, 'origin ' + show(x))
                rep.check(own or under or other, R, fw, 'an asset (%s) that neither lies under the asset hub nor belongs to the other relay network is accepted' % what, 'asset ' + show(x))
    R = 'no teleports'
    for t, where in (w.of(xc, 'IsTeleporter'), w.setting('pallet_xcm', 'XcmTeleportFilter')):
        bad = [x for x in parts(t) if not (last(x) in ('Nothing', 'NoTeleport') and w.p.def_of(x[1]) is None)]
        rep.check(t is not None and not bad, R, where, 'teleports are allowed by %s' % ', '.join(show(x) for x in bad), 'teleport')
    rep.extra['accepting paths'] = n
    w.done()
    return ('Interprets every reserve filter of the executor configuration for assets of every location shape (up to 3 parents and 8 arbitrary junctions) and an arbitrary origin; '
            'on each accepting path the facts must name the reserve chain as origin and place the asset under it. The teleport filters must be the ones admitting nothing.')


def same_location(w, s, org, want):
    if s.facts.decide_eq(org, want) is True:
        return True
    f = dict(want[3])
    par, inter = w.I.field(org, 'parents', s), w.I.field(org, 'interior', s)
    if s.facts.decide_eq(par, f['parents']) is not True:
        return False
    if s.facts.decide_eq(inter, f['interior']) is True:
        return True
    n = len(f['interior'][1])
    return s.facts.decide_eq(('len', inter), I(n)) is True and all(is_junction(w, s, w.I.std.index(inter, I(k), s), j) for k, j in enumerate(f['interior'][1]))


def some_results(w, outs):
    """(value, state) of the paths ending in Some / Ok"""
    for o in outs:
        if o[0] == 'panic':
            continue
        v = w.I.rv(o[1], o[2])
        kind = 'Result' if v[0] == 'adt' and v[1] == 'Result' else 'Option'
        t = w.I.typeof(v)
        if v[0] != 'adt' and t is not None and t[0] == 't' and t[1] in ('Result', 'Option'):
            kind = t[1]
        good = 'Ok' if kind == 'Result' else 'Some'
        for b, s in w.I.test_variant(v, kind, good, o[2]):
            if b:
                yield strip(w.I.deep(w.I.payload(v, good, '0', s), s)), s


def converters(w):
    """the repository's own conversions of locations into accounts, wherever the configuration uses them"""
    seen = {}

    def go(t, where):
        if not isinstance(t, tuple):
            return
        if t and t[0] == 't' and w.find(t, 'convert_location')[1] is not None:
            seen.setdefault(t, where)
        for x in t[1:] if t and isinstance(t[0], str) else t:
            go(x, where)
    xc = w.xcm_config()
    for name in xc[1].types:
        go(*w.of(xc, name))
    for crate, inst, im in w.configs:
        for name in im.types:
            go(w.norm(w.full(im.types[name]['ty'], im), im), '%s:%s' % (im.mod.file, im.types[name]['l']))
    return seen


def pallet_id(w):
    t, where = w.setting('pallet_communities', 'PalletId')
    v = w.value(t) if t else None
    if v is None:
        raise P.SourceError(where, 0, 'the identifier of the communities pallet cannot be evaluated')
    return v


def is_community_account(w, s, acc, cid, pid):
    """does the path know that the account is the one derived for the community"""
    f = s.facts
    if f.decide_eq(acc, app('sub account', pid, cid)) is True:
        return True
    return f.decide_eq(app('pallet of', acc), pid) is True and f.decide_eq(cid, app('id of', acc)) is True


def r06(rep):
    w = World(rep)
    pid = pallet_id(w)
    R = 'an account is taken for a community only if it is the account derived for it'
    who, com = sym('who', ACC), sym('community', ('t', 'u16', ()))
    n = 0
    for name in ('AdminOrigin', 'MemberMgmtOrigin'):
        t, where = w.setting('pallet_communities', name)
        for cls, o in w.principals().items():
            for a, v, s in w.admit(t, o, [], State()):
                rep.paths += 1
                if not a:
                    continue
                n += 1
                key = ('sto', 'CommunityIdFor', (w.model.caller_of(o),))
                stored = s.facts.decide_eq(v, w.I.payload(key, 'Some', '0', s)) is True
                if cls == 'community':
                    good = stored or s.facts.decide_eq(v, com) is True
                elif cls == 'signed':
                    good = stored or is_community_account(w, s, who, v, pid)
                else:
                    good = stored
                rep.check(good, R, where, '%s: a %s origin acts as a community without being its account or its configured origin' % (name, cls), '%s %s' % (name, cls))
    # addresses
    t, where = w.setting('frame_system', 'Lookup')
    R2 = 'addresses mean the account they name'
    for v in ('Id', 'Index', 'Raw', 'Address32', 'Address20'):
        x = sym('address', ACC if v == 'Id' else ('t', 'u16', ()) if v == 'Index' else ('t', '?', ()))
        outs, fw = w.run(t, 'lookup', [('adt', 'MultiAddress', v, (('0', x),))])
        for r, s in some_results(w, outs):
            n += 1
            good = (v == 'Id' and s.facts.decide_eq(r, x) is True) or (v == 'Index' and s.facts.decide_eq(r, app('sub account', pid, x)) is True)
            rep.check(good, R2, fw, 'an address of the form %s is looked up as %s' % (v, fmt(r)), 'lookup ' + v)
        oks = sum(1 for _ in some_results(w, outs))
        rep.check(oks > 0 or v not in ('Id', 'Index'), R2, fw, 'an address of the form %s is refused' % v, 'refused ' + v)
    # locations to accounts
    R3 = 'locations are mapped to community accounts by the same rule'
    convs = converters(w)
    for t, where in convs.items():
        for p, js, loc in shapes(4):
            outs, fw = w.run(t, 'convert_location', [loc])
            for r, s in some_results(w, outs):
                if not has_app(r, 'sub account') and p != 0:
                    continue
                n += 1
                good = p == 0 and len(js) == 1 and s.facts.variant(js[0]) == 'Plurality'
                if good:
                    body = w.I.payload(js[0], 'Plurality', 'id', s)
                    good = s.facts.variant(body) == 'Index'
                    i = w.I.payload(body, 'Index', '0', s)
                    good = good and s.facts.decide_eq(r, app('sub account', pid, i)) is True and s.facts.decide(('lt', i, I(65536))) is True
                rep.check(good, R3, fw, 'a location (parents %d, %d junctions) becomes the account %s' % (p, len(js), fmt(r)), 'location %s' % last(t))
    rep.check(any(True for _ in convs), R3, w.crate.root.file, 'no location is mapped to a community account', 'none')
    # signed origins to locations
    for t, where in senders(w):
        if w.p.def_of(t[1]) is None:
            continue
        for cls, o in w.principals().items():
            outs, fw = w.run(t, 'try_convert', [o])
            for r, s in some_results(w, outs):
                n += 1
                rep.check(speaks_for(w, s, cls, r, pid), R3, fw, 'a %s origin is represented as the location %s' % (cls, fmt_loc(r)), 'represent %s %s' % (cls, last(t)))
    rep.extra['accepting paths'] = n
    w.done()
    return ('Interprets the community origins, the address lookup, the location converters and the origin converters of the runtime for every class of origin, every address form and every '
            'location shape; on each accepting path the account must be tied to the configured communities pallet identifier and the same community number.')


def has_app(t, name):
    if not isinstance(t, tuple):
        return False
    if len(t) > 1 and t[0] == 'app' and t[1] == name:
        return True
    return any(has_app(x, name) for x in t)


def fmt_loc(r):
    return fmt(r)


def junction_of(r):
    """the only junction of a local location value"""
    if r[0] == 'adt' and r[1] == 'Junction':
        return r
    if r[0] == 'adt' and r[1] == 'Location':
        f = dict(r[3])
        if f['parents'] == I(0) and f['interior'][0] == 'arr' and len(f['interior'][1]) == 1:
            return f['interior'][1][0]
    if r[0] == 'arr' and len(r[1]) == 1:
        return r[1][0]
    return None


def speaks_for(w, s, cls, r, pid):
    """does a location stand for the community the origin is"""
    j = junction_of(r)
    if j is None or j[0] != 'adt' or j[2] != 'Plurality':
        return False
    b = dict(j[3]).get('id')
    if b is None or b[0] != 'adt' or b[2] != 'Index':
        return False
    i = dict(b[3])['0']
    if cls == 'community':
        return s.facts.decide_eq(i, sym('community', ('t', 'u16', ()))) is True
    if cls == 'signed':
        return is_community_account(w, s, sym('who', ACC), i, pid)
    return False


def senders(w):
    t, where = w.setting('pallet_xcm', 'SendXcmOrigin')
    if t is None or t[0] != 't' or last(t) != 'EnsureXcmOrigin':
        raise P.SourceError(where.split(':')[0], 0, 'the origin that may send messages is %s' % show(t))
    return [(x, where) for x in parts(t[2][1])]


# ------------------------------------------------------------------ R08
PAID = {'AllowTopLevelPaidExecutionFrom'}
UNPAID = {'AllowExplicitUnpaidExecutionFrom', 'AllowUnpaidExecutionFrom'}


def r08(rep):
    w = World(rep)
    pid = pallet_id(w)
    xc = w.xcm_config()
    R = 'messages execute only if paid or from the relay or its executive'
    t, where = w.of(xc, 'Barrier')
    n = [0]

    def free(f, where):
        for x in parts(f):
            if w.p.def_of(x[1]) is None:
                rep.check(last(x) in ('Nothing',), R, where, 'free execution is granted to %s' % show(x), 'free ' + show(x))
                continue
            for p, js, loc in shapes():
                outs, fw = w.run(x, 'contains', [loc])
                for s in truths(w, outs):
                    n[0] += 1
                    relay = p == 1 and not js
                    body = len(js) == 1 and p == 1 and s.facts.variant(js[0]) == 'Plurality' and s.facts.variant(w.I.payload(js[0], 'Plurality', 'id', s)) == 'Executive'
                    rep.check(relay or body, R, fw, 'free execution is granted to a location with %d parents and %d junctions that is neither the relay nor its executive body' % (p, len(js)), 'free ' + last(x))

    def barrier(t):
        for x in parts(t):
            nm = last(x)
            local = w.p.def_of(x[1]) is not None
            if nm == 'TakeWeightCredit' and not local or nm in PAID and not local:
                rep.ok(R, where)
            elif nm in UNPAID and not local:
                free(x[2][0], where)
            elif nm in ('WithComputedOrigin', 'TrailingSetTopicAsId') and not local:
                barrier(x[2][0])
            elif nm == 'DenyThenTry' and not local:
                barrier(x[2][1])
            else:
                rep.check(False, R, where, 'messages also execute by %s' % show(x), 'barrier ' + show(x))
    rep.check(bool(parts(t)), R, where, 'there is no barrier', 'none')
    barrier(t)
    t, where = w.setting('pallet_xcm', 'XcmExecuteFilter')
    rep.check(t is not None and last(t) == 'Nothing' and w.p.def_of(t[1]) is None, 'local users cannot execute messages', where, 'messages that %s accepts can be executed' % show(t), 'execute filter')

    R = 'no location acts as another'
    for name in ('Aliasers', 'UniversalAliases'):
        t, where = w.of(xc, name)
        rep.check(t is not None and (t == ('tup', ()) or t[0] == 't' and last(t) == 'Nothing' and w.p.def_of(t[1]) is None), R, where, 'a location may act as another by %s' % show(t), name)

    R = 'only communities send messages'
    for t, where in senders(w):
        if w.p.def_of(t[1]) is None:
            rep.check(False, R, where, 'messages may be sent by whom %s represents' % show(t), 'send ' + show(t))
            continue
        for cls, o in w.principals().items():
            outs, fw = w.run(t, 'try_convert', [o])
            for r, s in some_results(w, outs):
                n[0] += 1
                who = sym('who', ACC)
                com = cls == 'community' or (cls == 'signed' and s.facts.decide_eq(app('pallet of', who), pid) is True) or \
                    (cls == 'signed' and any(x[0] == 'app' and x[1] == 'sub account' and s.facts.decide_eq(who, x) is True for x in list(s.facts.eqs) + list(s.facts.eqs.values())))
                rep.check(com, R, fw, 'a %s origin may send messages without being a community' % cls, 'send %s' % cls)

    R = 'a relay account acts only as its own account'
    nets = 0
    for t, where in converters(w).items():
        for p, js, loc in shapes(4):
            if p == 0:
                continue
            outs, fw = w.run(t, 'convert_location', [loc])
            for r, s in some_results(w, outs):
                n[0] += 1
                good = p == 1 and len(js) == 1 and s.facts.variant(js[0]) == 'AccountId32'
                if good:
                    i = w.I.payload(js[0], 'AccountId32', 'id', s)
                    net = w.I.payload(js[0], 'AccountId32', 'network', s)
                    rep.check(s.facts.decide_eq(r, i) is True, R, fw, 'a relay account is mapped to another account (%s)' % fmt(r), 'account ' + last(t))
                    ks = some(('adt', 'NetworkId', 'Kusama', ()))
                    okn = s.facts.variant(net) == 'None' or s.facts.decide_eq(net, NONE) is True or s.facts.decide_eq(net, ks) is True or \
                        (s.facts.variant(net) == 'Some' and (s.facts.variant(w.I.payload(net, 'Some', '0', s)) == 'Kusama' or s.facts.decide_eq(w.I.payload(net, 'Some', '0', s), ks[3][0][1]) is True))
                    rep.check(okn, R, fw, 'an account of a network that is not the relay network is accepted', 'network ' + last(t))
                    nets += 1
                rep.check(good, R, fw, 'a location with %d parents and %d junctions that is no relay account becomes the account %s' % (p, len(js), fmt(r)), 'location ' + last(t))
    rep.extra['accepting paths'] = n[0]
    rep.extra['relay account paths'] = nets
    w.done()
    return ('Evaluates the execution barrier, interprets its free-execution filter for every location shape, the sending converters for every origin class and the account converters for '
            'every location shape with at least one parent; accepting paths must carry the facts that make them legitimate.')


# ------------------------------------------------------------------ payments
DAY_MS = 24 * 60 * 60 * 1000


def is_community(s, who, pid):
    """True, False or None: does the path know whether the account is a community's"""
    has = app('has', app('sub account parts', who))
    if s.facts.lits.get(has) is False:
        return False
    eq = s.facts.decide_eq(app('pallet of', who), pid)
    if eq is False:
        return False
    return True if s.facts.lits.get(has) is True and eq is True else None


def r09(rep):
    w = World(rep)
    pid = pallet_id(w)
    t, where = w.setting('pallet_payments', 'FeeHandler')
    R = 'the fee schedule'
    asset, amount = sym('asset', ('t', 'FungibleAssetLocation', ())), sym('amount', ('t', 'u128', ()))
    who = {'sender': sym('sender', ACC), 'beneficiary': sym('beneficiary', ACC)}
    outs, fw = w.run(t, 'apply_fees', [asset, who['sender'], who['beneficiary'], amount, sym('remark', ('t', 'Option', (('sl', ('t', 'u8', ())),)))])
    treasury = app('account of', ('s', 'Treasury'))
    seen = set()
    cap = w.value(w.setting('pallet_payments', 'MaxFees')[0])
    for o in outs:
        if o[0] == 'panic':
            # a list of at most the permitted length always fits
            over = [k for k, b in o[2].facts.lits.items() if not b and k[0] == 'fits' and k[1][0] == 'arr' and cap is not None and len(k[1][1]) <= cap[1]]
            rep.check(bool(over), R, fw, 'computing the fees panics: %s' % (o[1],), 'panic')
            continue
        s = o[2]
        v = strip(w.I.deep(o[1], s))
        for side, pct in (('sender', 1), ('beneficiary', 3)):
            pays = strip(w.I.deep(w.I.field(v, side + '_pays', s), s))
            com = is_community(s, who[side], pid)
            seen.add((side, com))
            if pays[0] not in ('arr',):
                rep.check(False, R, fw, 'the fees of the %s are not a list that can be read: %s' % (side, fmt(pays)), 'list ' + side)
                continue
            if com is None:
                rep.check(False, R, fw, 'the fees of the %s do not depend on whether it is a community' % side, 'community ' + side)
                continue
            if com:
                rep.check(not pays[1], R, fw, 'a community is charged as %s' % side, 'charged ' + side)
                continue
            good = len(pays[1]) == 1 and pays[1][0][0] == 'tup' and len(pays[1][0][1]) == 3
            rep.check(good, R, fw, 'the %s is charged %d fees' % (side, len(pays[1])), 'count ' + side)
            if not good:
                continue
            to, fee, must = pays[1][0][1]
            rep.check(to == treasury, R, fw, 'the fee of the %s goes to %s' % (side, fmt(to)), 'receiver ' + side)
            rep.check(must == ('bool', True), R, fw, 'the fee of the %s is not mandatory' % side, 'mandatory ' + side)
            rep.check(fee_is(w, s, fee, asset, amount, pct), R, fw, 'the fee of the %s is %s, not the larger of the minimum balance and %d percent of the amount, rounded down' % (side, fmt(fee), pct), 'amount ' + side)
    for side in who:
        for c in (True, False):
            rep.check((side, c) in seen or (side, None) in seen, R, fw, 'no path charges a %s that is %sa community' % (side, '' if c else 'not '), 'path %s %s' % (side, c))
    R = 'the published settings'
    t, where = w.setting('pallet_payments', 'IncentivePercentage')
    rep.check(w.value(t) == app('ratio', I(1), I(10)), R, where, 'the dispute incentive is %s' % fmt(w.value(t) or UNIT), 'incentive')
    t, where = w.setting('pallet_payments', 'CancelBufferBlockLength')
    n = w.value(t)
    ms = block_time(w)
    rep.check(n is not None and n[0] == 'int' and n[1] * ms == 2 * DAY_MS, R, where, 'the refund window is %s blocks of %d ms' % (fmt(n or UNIT), ms), 'window')
    w.done()
    return ('Interprets the fee handler for arbitrary parties, asset and amount; on each path the facts say whether each party is a community, and the resulting lists of fees are compared '
            'with the schedule. The incentive and the refund window are evaluated and compared with the block time of the runtime.')


def block_time(w):
    t, where = w.setting('pallet_aura', 'SlotDuration')
    v = w.value(t) if t is not None else None
    if v is None or v[0] != 'int':
        raise P.SourceError(where.split(':')[0], 0, 'the block time cannot be evaluated')
    return v[1]


def fee_is(w, s, fee, asset, amount, pct):
    f = Fraction(pct, 100)
    r = app('ratio', I(f.numerator), I(f.denominator))
    shares = [app('mul_floor', r, amount)]
    low = [app('Assets::minimum_balance', asset)]
    for sh in shares:
        for m in low:
            if s.facts.decide_eq(fee, sh) is True and s.facts.decide(('lt', sh, m)) is False:
                return True
            if s.facts.decide_eq(fee, m) is True and s.facts.decide(('lt', m, sh)) is False:
                return True
            if fee == app('max', *sorted((sh, m), key=repr)):
                return True
    return False


def r10(rep):
    w = World(rep)
    t, where = w.setting('pallet_payments', 'PaymentId')
    R = 'identifiers of payments'
    ben = sym('beneficiary', ACC)
    makers = id_makers(w, t)
    w.I.stubs = {id(im.fns['from']): 'the identifier of' for im in makers}
    outs, fw = w.run(t, 'next', [sym('sender', ACC), ben])
    w.I.stubs = {}
    idx = app('System::extrinsic_index')
    some_paths = 0
    for o in outs:
        if o[0] == 'panic':
            continue
        for v, s in some_results(w, [o]):
            some_paths += 1
            inside = s.facts.variant(idx) == 'Some'
            rep.check(inside, R, fw, 'an identifier is issued outside of an extrinsic', 'outside')
            if not inside:
                continue
            parts_ = ('tup', (app('System::block_number'), w.I.payload(idx, 'Some', '0', s), app('encode', ben)))
            rep.check(strip(v) == app('the identifier of', parts_) or strip(v) in expected_id(w, t, makers, parts_, s), R, fw, 'the identifier is not made from the current block, the current extrinsic and the account of the beneficiary', 'made from')
    rep.check(some_paths > 0, R, fw, 'no identifier is ever issued', 'never')
    w.done()
    return ('Interprets the identifier source of the payments configuration and compares the identifier of each path with the one the shared library makes of the current block number, the '
            'index of the current extrinsic and the encoded beneficiary; paths without an extrinsic must issue none.')


def id_makers(w, t):
    return [im for im in w.p.impls() if 'from' in im.fns and im.self_ty[0] == 't' and im.self_ty[1] == t[1] and im.trait_args and im.trait_args[0][0] == 'tup' and len(im.trait_args[0][1]) == 3]


def expected_id(w, t, makers, parts_, s):
    """the identifiers the library makes of (block, extrinsic, account)"""
    out = []
    for im in makers:
        for o in w.I.run(im.fns['from'], im.mod, w.short(t), [parts_], s, w.I.match_gen(im, w.short(t)), im):
            if o[0] != 'panic':
                out.append(strip(w.I.deep(o[1], o[2])))
    return out


# ------------------------------------------------------------------ passkeys
def r12(rep):
    w = World(rep)
    R = 'challenges are hashes of recent blocks'
    t, where = w.setting('pallet_pass', 'Authenticator')
    lists = {}
    for m in w.crate.modules:
        for it in m.macros:
            if it['m']['name'] == 'composite_authenticator':
                tt = it['m']['tt']
                names = [x for x in tt if isinstance(x, str)]
                name = names[1] if names[0] == 'pub' else names[0]
                body = next(x['t'] for x in tt if isinstance(x, dict) and x['g'] == '{')
                lists[name + 'Authenticator'] = (m, [x for x in body if isinstance(x, str) and x != ','], it['m']['l'])
    auths = []
    if last(t) in lists and w.p.def_of(t[1]) is None:
        m, names, l = lists[last(t)]
        for x in names:
            d, k, ext = w.p.resolve(m, (x,))
            if d is None:
                auths.append((('t', '::'.join(ext or (x,)), ()), '%s:%s' % (m.file, l)))
            elif d.kind == 'type':
                auths.append((w.norm(w.full_in(d.node['ty'], d.mod)), '%s:%s' % (m.file, l)))
            else:
                auths.append((('t', '::'.join(d.path), ()), '%s:%s' % (m.file, l)))
    else:
        auths.append((t, where))
    rep.check(bool(auths), R, where, 'no authenticator is enabled', 'none')
    n = 0
    R2 = 'only real authenticators are enabled'
    for a, aw in auths:
        real = a[0] == 't' and w.p.def_of(a[1]) is None and a[1].startswith('pass_') and 'dummy' not in a[1].lower()
        rep.check(real, R2, aw, 'the authenticator %s is enabled' % show(a), 'authenticator ' + show(a))
        chs = [x for x in (a[2] if a[0] == 't' else ()) if x[0] == 't' and w.find(x, 'check_challenge')[1] is not None]
        if real:
            rep.check(len(chs) > 0, R, aw, 'the authenticator %s has no challenger that can be examined' % show(a), 'challenger ' + show(a))
        for c in chs:
            cx, ch = sym('block', ('t', 'u32', ())), sym('challenge', ('sl', ('t', 'u8', ())))
            outs, fw = w.run(c, 'check_challenge', [cx, ch])
            now = app('System::block_number')
            good = 0
            for v, s in some_results(w, outs):
                n += 1
                good += 1
                rep.check(s.facts.decide(('lt', cx, now)) is True, R, fw, 'a challenge referring to a block that does not exist yet is accepted', 'future ' + last(c))
                rep.check(not_older(s, cx, now, 3), R, fw, 'a challenge referring to a block older than the last three is accepted', 'old ' + last(c))
                h = app('System::block_hash', cx)
                eq = any(s.facts.decide_eq(ch, x) is True for x in (h, w.I.field(h, '0', s), app('encode', h)))
                rep.check(eq, R, fw, 'a challenge is accepted without being the hash of the block it refers to', 'hash ' + last(c))
            rep.check(good > 0, R, fw, 'no challenge is ever accepted', 'never ' + last(c))
            for s in refusals(w, outs):
                n += 1
                h = app('System::block_hash', cx)
                why = s.facts.decide(('lt', cx, now)) is False or s.facts.decide(('lt', ladd(cx, I(3)), now)) is True or \
                    any(s.facts.decide_eq(ch, x) is False for x in (h, w.I.field(h, '0', s), app('encode', h)))
                rep.check(why, R, fw, 'the hash of one of the last three blocks is refused', 'refused ' + last(c))
    rep.extra['paths of challenges'] = n
    w.done()
    return ('Reads the list of enabled authenticators, and interprets the challenge check of each for an arbitrary block number and challenge; accepting paths must know that the block is '
            'below the current one, at most three behind it, and that its hash is the challenge.')


def refusals(w, outs):
    """the states in which an optional result is absent"""
    for o in outs:
        if o[0] == 'v':
            for b, s in w.I.test_variant(w.I.rv(o[1], o[2]), 'Option', 'Some', o[2]):
                if not b:
                    yield s


def not_older(s, cx, now, k):
    return s.facts.decide(('lt', ladd(cx, I(k)), now)) is False


# ------------------------------------------------------------------ fees
def pays_to(w, t, where, rep, R, key, want, what):
    """does a handler of imbalances give them to the wanted account"""
    if t[0] == 'tup' and not t[1]:
        rep.check(False, R, where, 'the %s are burnt' % what, key)
        return
    if t[0] == 't' and w.p.def_of(t[1]) is None:
        if last(t) in ('ResolveTo', 'ResolveAssetTo'):
            v = w.value(t[2][0])
            rep.check(v == want, R, where, 'the %s go to %s' % (what, fmt(v or UNIT)), key)
            return
        rep.check(False, R, where, 'the %s are handled by %s' % (what, show(t)), key)
        return
    for fn in ('handle_credit', 'on_nonzero_unbalanced', 'on_unbalanced', 'on_unbalanceds', 'take_revenue'):
        if w.find(t, fn)[1] is None:
            continue
        cr = sym('credit', ('t', 'Credit', ()))
        outs, fw = w.run(t, fn, [cr])
        paid = 0
        for o in outs:
            if o[0] == 'panic':
                continue
            s = o[2]
            gifts = [e for e in s.eff if e[0] == 'ext' and e[1].split('::')[-1] in ('resolve', 'deposit', 'resolve_creating', 'resolve_into_existing')]
            if not gifts:
                # nobody to pay: the author of the block is unknown
                aut = app('Authorship::author')
                rep.check(want == 'author' and s.facts.variant(aut) == 'None', R, fw, 'the %s are lost' % what, key + ' lost')
                continue
            paid += 1
            to = w.I.payload(app('Authorship::author'), 'Some', '0', s) if want == 'author' else want
            good = len(gifts) == 1 and s.facts.decide_eq(gifts[0][2][0], to) is True and gifts[0][2][1] == cr
            rep.check(good, R, fw, 'the %s go to %s' % (what, ', '.join(fmt(x) for g in gifts for x in g[2])), key)
        rep.check(paid > 0, R, fw, 'the %s are never paid out' % what, key + ' never')
        return
    rep.check(False, R, where, 'the %s are handled by %s' % (what, show(t)), key)


def r13(rep):
    for paseo in (False, True):
        w = World(rep, paseo=paseo)
        treasury = app('account of', ('s', 'Treasury'))
        R = 'registering costs the deposit'
        t, where = w.setting('pallet_communities_manager', 'RegisterOrigin')
        unit = 10 ** (10 if paseo else 12)
        for cls, o in w.principals().items():
            for a, v, s in w.admit(t, o, [], State()):
                if not a:
                    continue
                rep.paths += 1
                if cls == 'root':
                    rep.check(v == NONE, R, where, 'root pays for registering', 'root')
                elif cls == 'signed':
                    rep.check(v == some(('tup', (I(unit // 2), sym('who', ACC), treasury))), R, where, 'an account registers a community for %s' % fmt(v), 'price')
                else:
                    rep.check(False, R, where, 'a %s origin may register communities' % cls, 'register ' + cls)
        R = 'who creates memberships'
        t, where = w.setting('pallet_communities_manager', 'CreateMembershipsOrigin')
        for cls, o in w.principals().items():
            for a, v, s in w.admit(t, o, [], State()):
                if a:
                    rep.check(cls in ('root', 'governance CreateMemberships'), R, where, 'a %s origin may create memberships' % cls, 'memberships ' + cls)
        R = 'fees go where they are due'
        t, where = w.setting('pallet_transaction_payment', 'OnChargeTransaction')
        good = t[0] == 't' and last(t) in ('FungibleAdapter', 'CurrencyAdapter') and w.p.def_of(t[1]) is None
        rep.check(good and last(t[2][0]) == 'Balances', R, where, 'native fees are charged by %s' % show(t), 'native adapter')
        if good:
            pays_to(w, t[2][1], where, rep, R, 'native', treasury, 'native fees')
        t, where = w.setting('pallet_asset_tx_payment', 'OnChargeAssetTransaction')
        good = t[0] == 't' and last(t) == 'FungiblesAdapter' and w.p.def_of(t[1]) is None
        rep.check(good, R, where, 'asset fees are charged by %s' % show(t), 'asset adapter')
        if good:
            pays_to(w, t[2][1], where, rep, R, 'asset', 'author', 'asset fees')
        t, where = w.of(w.xcm_config(), 'Trader')
        rep.check(bool(parts(t)), R, where, 'execution of messages is not charged', 'traders')
        for x in parts(t):
            if last(x) == 'TakeFirstAssetTrader' and w.p.def_of(x[1]) is None:
                h = x[2][4]
                v = w.value(h[2][-1]) if h[0] == 't' and last(h) == 'XcmFeesTo32ByteAccount' and w.p.def_of(h[1]) is None else None
                rep.check(v == treasury, R, where, 'message fees in assets go to %s' % fmt(v or ('s', show(h))), 'message assets')
            elif last(x) == 'UsingComponents' and w.p.def_of(x[1]) is None:
                pays_to(w, x[2][4], where, rep, R, 'message native', treasury, 'native fees of messages')
            else:
                rep.check(False, R, where, 'messages are charged by %s' % show(x), 'trader ' + show(x))
        w.done()
    return ('Evaluates, for both networks, the origins that register communities and create memberships for every class of origin together with the price they yield, and the receivers of the '
            'native, asset and message fee handlers; handlers written here are interpreted and every path must hand the whole credit to the right account.')


# ------------------------------------------------------------------ transactions
CHECKS = [('CheckNonZeroSender',), ('CheckSpecVersion',), ('CheckTxVersion',), ('CheckGenesis',), ('CheckEra', 'CheckMortality'), ('CheckNonce',), ('CheckWeight',), ('payment',)]
PAY = ('ChargeTransactionPayment', 'ChargeAssetTxPayment', 'ChargeTransactionToPassAccount')
SKIPPABLE = {'CheckNonce', 'payment'}


def r14(rep):
    w = World(rep)
    R = 'every transaction passes every check'
    t, where = w.setting('frame_system', 'Block')
    xt = [x for x in adts(t) if last(x) == 'UncheckedExtrinsic']
    if len(xt) != 1 or w.p.def_of(xt[0][1]) is not None:
        raise P.SourceError(where.split(':')[0], 0, 'blocks hold %s' % show(t))
    extra = xt[0][2][3]
    seq = []
    for x in parts(extra):
        skip = False
        names = []
        y = x
        while True:
            if w.p.def_of(y[1]) is not None:
                names.append('local ' + show(y))
                break
            n = last(y)
            if n == 'SkipCheckIfFeeless':
                skip = True
                y = y[2][1]
                continue
            if n in PAY:
                names.append('payment')
                # what finally charges must be the asset payment or the plain one
                inner = y
                while last(inner) == 'ChargeTransactionToPassAccount' or (last(inner) == 'ChargeTransactionPayment' and len(inner[2]) > 1):
                    inner = inner[2][0 if last(inner) == 'ChargeTransactionToPassAccount' else 1]
                rep.check(last(inner) in ('ChargeAssetTxPayment', 'ChargeTransactionPayment') and w.p.def_of(inner[1]) is None, R, where, 'the payment of transactions ends in %s' % show(inner), 'charges')
                break
            names.append(n)
            break
        seq.append((names[0], skip))
    pos = -1
    for alt in CHECKS:
        idx = [i for i, (n, sk) in enumerate(seq) if n in alt]
        rep.check(len(idx) == 1, R, where, 'the check %s appears %d times' % (alt[0], len(idx)), 'present ' + alt[0])
        if len(idx) != 1:
            continue
        i = idx[0]
        rep.check(i > pos, R, where, 'the check %s comes too early' % alt[0], 'order ' + alt[0])
        pos = i
        rep.check(not seq[i][1] or alt[0] in SKIPPABLE, R, where, 'the check %s is skipped for calls free of fees' % alt[0], 'skipped ' + alt[0])
    rep.extra['extensions'] = len(seq)
    # everything else that handles transactions uses the same list
    same = 0
    for name in ('UncheckedExtrinsic', 'SignedPayload', 'CheckedExtrinsic', 'Block', 'Executive'):
        d = w.crate.root.types.get(name)
        if d is None or d.kind != 'type':
            continue
        ty = w.norm(w.full_in(d.node['ty'], d.mod))
        for x in adts(ty):
            at = {'UncheckedExtrinsic': 3, 'SignedPayload': 1, 'CheckedExtrinsic': 2}.get(last(x))
            if at is None or w.p.def_of(x[1]) is not None or len(x[2]) <= at:
                continue
            same += 1
            rep.check(x[2][at] == extra, R, '%s:%s (%s)' % (d.mod.file, d.node['l'], name), '%s is checked differently' % last(x), 'same ' + last(x))
    rep.extra['uses'] = same
    w.done()
    return ('Resolves the transaction type of the configured block through all aliases to its list of extensions: each required check must be there once, in order, and only the nonce and '
            'payment checks may sit under the skip for calls free of fees; every other transaction type must carry the same list.')


def adts(t):
    if not isinstance(t, tuple):
        return
    if t and t[0] == 't':
        yield t
    for x in t:
        yield from adts(x)


# ------------------------------------------------------------------ indices
PUBLISHED = {
    ('frame_system', None): 0, ('cumulus_pallet_parachain_system', None): 1, ('pallet_timestamp', None): 2, ('parachain_info', None): 3, (CRATE, None): 4, ('pallet_pass', None): 6,
    ('pallet_balances', None): 10, ('pallet_transaction_payment', None): 11, ('pallet_assets_freezer', 'Instance1'): 12, ('pallet_assets', 'Instance1'): 13, ('pallet_asset_tx_payment', None): 14,
    ('pallet_vesting', None): 15, ('pallet_skip_feeless_payment', None): 16, ('pallet_gas_transaction_payment', None): 17,
    ('pallet_authorship', None): 20, ('pallet_collator_selection', None): 21, ('pallet_session', None): 22, ('pallet_aura', None): 23, ('cumulus_pallet_aura_ext', None): 24,
    ('cumulus_pallet_xcmp_queue', None): 30, ('pallet_xcm', None): 31, ('cumulus_pallet_xcm', None): 32, ('pallet_message_queue', None): 33,
    ('pallet_multisig', None): 42, ('pallet_utility', None): 43, ('pallet_proxy', None): 44, ('pallet_scheduler', None): 45, ('pallet_preimage', None): 46,
    ('pallet_treasury', None): 50, ('pallet_ranked_collective', 'Instance1'): 51, ('pallet_referenda', 'Instance1'): 52, ('pallet_payments', None): 60,
    ('pallet_communities', None): 71, ('pallet_referenda_tracks', 'Instance2'): 72, ('pallet_referenda', 'Instance2'): 73, ('pallet_nfts', 'Instance2'): 74,
    ('pallet_communities_manager', None): 75, ('pallet_contracts', None): 80,
}
PUBLISHED_CALLS = {
    'pallet_payments': {'pay': 0, 'release': 1, 'request_refund': 2, 'accept_and_pay': 3, 'cancel': 10, 'dispute_refund': 11, 'request_payment': 12, 'resolve_dispute': 20},
    'pallet_communities': {'create': 0, 'set_admin_origin': 1, 'add_member': 3, 'remove_member': 4, 'promote': 5, 'demote': 6, 'set_decision_method': 7, 'vote': 8, 'remove_vote': 9,
                           'unlock': 10, 'dispatch_as_account': 11},
    'pallet_communities_manager': {'register': 0, 'create_memberships': 1},
}


def r01(rep):
    w = World(rep)
    R = 'pallets keep their index'
    seen = {}
    for q in w.pallets:
        k = (q.crate, (q.inst or '').split('::')[-1] or None)
        if q.index in seen:
            rep.check(False, R, q.where, '%s and %s share the index %s' % (q.name, seen[q.index].name, q.index), 'share %s' % q.index)
        seen[q.index] = q
        if k in PUBLISHED:
            rep.check(q.index == PUBLISHED[k], R, q.where, '%s has the index %s, published with %s' % (q.name, q.index, PUBLISHED[k]), 'index ' + q.name)
        else:
            rep.check(q.index not in PUBLISHED.values(), R, q.where, '%s takes the index %s published for another pallet' % (q.name, q.index), 'taken ' + q.name)
    have = {(q.crate, (q.inst or '').split('::')[-1] or None) for q in w.pallets}
    for k, i in PUBLISHED.items():
        rep.check(k in have, R, w.home.file, 'the pallet %s published with index %d is gone' % (k[0], i), 'gone %d' % i)
    R = 'calls keep their index'
    from . import frame
    n = 0
    for crate, table in PUBLISHED_CALLS.items():
        calls, hooks = frame.calls(w.p, w.p.crates[crate])
        by = {}
        names = {}
        for fn, im, idx in calls:
            at = '%s:%s (%s)' % (im.mod.file, fn['l'], fn['id'])
            n += 1
            rep.check(idx not in by, R, at, '%s and %s share the call index %s' % (fn['id'], by.get(idx), idx), 'share %s %s' % (crate, idx))
            by[idx] = fn['id']
            names[fn['id']] = idx
            if fn['id'] in table:
                rep.check(idx == table[fn['id']], R, at, 'the call %s has the index %s, published with %s' % (fn['id'], idx, table[fn['id']]), 'call %s %s' % (crate, fn['id']))
            else:
                rep.check(idx not in table.values(), R, at, 'the call %s takes the index %s published for another call' % (fn['id'], idx), 'taken %s %s' % (crate, fn['id']))
        for k, i in table.items():
            rep.check(k in names, R, w.p.crates[crate].root.file, 'the call %s of %s published with index %d is gone' % (k, crate, i), 'gone %s %s' % (crate, k))
    rep.extra['pallets'] = len(w.pallets)
    rep.extra['calls'] = n
    w.done()
    return ('Reads the pallet table of the runtime and the call tables of the pallets, evaluates their indices and compares them with the published ones; indices must be unique and those '
            'published must not be reused.')


# ------------------------------------------------------------------ weights
U32T, WT = ('t', 'u32', ()), ('t', 'Weight', ())
MAXW = app('maximum weight')
UNSUPPORTED = {'hrmp_new_channel_open_request', 'hrmp_channel_accepted', 'hrmp_channel_closing', 'exchange_asset', 'universal_origin', 'export_message', 'lock_asset', 'unlock_asset',
               'note_unlockable', 'request_unlock', 'alias_origin'}
PER_ASSET = {'withdraw_asset', 'receive_teleported_asset', 'transfer_asset', 'transfer_reserve_asset', 'deposit_reserve_asset', 'initiate_reserve_withdraw', 'initiate_teleport', 'burn_asset',
             'expect_asset'}
FIXED = {'reserve_asset_deposited', 'deposit_asset'}
SINGLE = {'query_response', 'transact', 'clear_origin', 'descend_origin', 'report_error', 'report_holding', 'buy_execution', 'refund_surplus', 'set_error_handler', 'set_appendix', 'clear_error',
          'claim_asset', 'trap', 'subscribe_version', 'unsubscribe_version', 'expect_origin', 'expect_error', 'expect_transact_status', 'query_pallet', 'expect_pallet', 'report_transact_status',
          'clear_transact_status', 'set_fees_mode', 'set_topic', 'clear_topic', 'unpaid_execution'}


class WeightModel(RtModel):
    """weights as multiples of benchmarks"""

    def call_path(self, f, args, n, env, st, want):
        I_ = self.I
        name = f['segs'][-1]['id']
        t, nm = I_.assoc_target(f, env) if len(f['segs']) > 1 or 'qself' in f else (None, None)
        if t is not None and t[0] == 'proj' and t[-1] in ('WeightInfo', 'DbWeight'):
            what = 'benchmark' if t[-1] == 'WeightInfo' else 'database weight'
            return I_.many(args, env, st, None, lambda vs, s: self.weight(app(what, ('s', name), *[strip(I_.deep(x, s)) for x in vs]), s))
        if t is not None and t[0] == 't':
            d = self.p.def_of(t[1])
            if d is not None and 'weights' in d.path and last(t) == 'WeightInfo':
                return I_.many(args, env, st, None, lambda vs, s: self.weight(app('benchmark', ('s', name), *[strip(I_.deep(x, s)) for x in vs]), s))
            if d is None and last(t) == 'Weight':
                if name in ('from_parts', 'zero', 'from_all'):
                    return I_.many(args, env, st, None, lambda vs, s: self.weight(app('weight', *[strip(I_.deep(x, s)) for x in vs]), s))
            if d is None and name == 'new' and last(t) == 'FeePolynomial':
                return I_.many(args, env, st, None, lambda vs, s: V(vs[0], s))
        return super().call_path(f, args, n, env, st, want)

    def weight(self, x, st):
        self.I.note_type(x, WT)
        return V(x, st)

    def path(self, n, env, st):
        ids = [x['id'] for x in n['segs']]
        if ids[-2:] == ['Weight', 'MAX']:
            return self.weight(MAXW, st)
        return super().path(n, env, st)

    def macro(self, m, n, env, st, want):
        if m['name'] == 'smallvec' and m.get('args') is not None:
            return self.I.many(m['args'], env, st, None, lambda vs, s: V(('arr', tuple(strip(self.I.deep(x, s)) for x in vs)), s))
        return super().macro(m, n, env, st, want)

    def method(self, ref, v, m, args, n, env, st, want, targs):
        I_ = self.I
        v0 = strip(I_.deep(v, st)) if v[0] in ('ref', 'conv') else v
        t = I_.typeof(v0)
        tn = last(t) if t is not None and t[0] == 't' else None
        if tn == 'Assets' and not args and m in ('inner', 'iter', 'into_iter', 'into_inner'):
            return V(v0, st)
        if tn == 'Assets' and not args and m in ('count', 'len'):
            x = app('number of assets', v0)
            I_.note_type(x, ('t', 'usize', ()))
            return V(x, st)
        if m == 'get_dispatch_info' and not args:
            w = app('weight of the call', v0)
            I_.note_type(w, WT)
            return V(('adt', 'DispatchInfo', None, (('class', app('class', v0)), ('pays_fee', app('pays fee', v0)), ('weight', w))), st)
        if v0[0] == 'app' and v0[1] == 'database weight' and m in ('reads', 'writes', 'reads_writes'):
            return I_.many(args, env, st, None, lambda vs, s: self.weight(app('database weight', *[strip(I_.deep(x, s)) for x in vs]), s))
        if tn == 'Weight' or v0 == MAXW:
            if m in ('ref_time', 'proof_size') and not args:
                x = app(m, v0)
                I_.note_type(x, ('t', 'u64', ()))
                return V(x, st)
            if len(args) == 1:
                def g(vs, s):
                    a = strip(I_.deep(vs[0], s))
                    if m in ('saturating_mul', 'mul'):
                        return self.weight(v0 if a == I(1) else app('times', v0, a), s)
                    if m in ('min', 'max', 'saturating_add'):
                        return self.weight(app('weight ' + m, *sorted((v0, a), key=repr)), s)
                    return self.weight(app('weight ' + m, v0, a), s)
                return I_.many(args, env, st, None, g)
        if m == 'eval' and len(args) == 1:
            def g(vs, s):
                x = app('eval', strip(I_.deep(v, s)), strip(I_.deep(vs[0], s)))
                I_.note_type(x, ('t', 'u128', ()))
                return V(x, s)
            return I_.many(args, env, st, None, g)
        return super().method(ref, v, m, args, n, env, st, want, targs)


def asset_cases(w):
    """values of the asset arguments of instructions with the number of assets each stands for"""
    assets = sym('assets', ('t', 'Assets', ()))
    cnt = app('number of assets', assets)
    hold = w.value(w.of(w.xcm_config(), 'MaxAssetsIntoHolding')[0])
    if hold is None or hold[0] != 'int':
        raise P.SourceError(w.xcm_config()[1].mod.file, 0, 'the size of the holding cannot be evaluated')
    fun = lambda v: ('adt', 'WildFungibility', v, ())
    wild = lambda v, *fs: ('adt', 'AssetFilter', 'Wild', (('0', ('adt', 'WildAsset', v, fs)),))
    k = sym('count', U32T)
    least = hold[1]
    any_ = sym('asset id', ('t', 'AssetId', ()))
    yield 'Assets', assets, lambda f, s: same_number(s, f, cnt)
    yield 'AssetFilter', ('adt', 'AssetFilter', 'Definite', (('0', assets),)), lambda f, s: same_number(s, f, cnt)
    yield 'AssetFilter', wild('All'), lambda f, s: at_least(f, least)
    yield 'AssetFilter', wild('AllOf', ('id', any_), ('fun', fun('Fungible'))), lambda f, s: at_least(f, 1)
    yield 'AssetFilter', wild('AllOf', ('id', any_), ('fun', fun('NonFungible'))), lambda f, s: at_least(f, least)
    yield 'AssetFilter', wild('AllCounted', ('0', k)), lambda f, s: same_number(s, f, k) or (at_least(f, least) and s.facts.decide(('lt', k, f)) is not True)
    yield 'AssetFilter', wild('AllOfCounted', ('id', any_), ('fun', fun('Fungible')), ('count', k)), lambda f, s: same_number(s, f, k) or (at_least(f, least) and s.facts.decide(('lt', k, f)) is not True)


def same_number(s, a, b):
    return strip(a) == b or s.facts.decide_eq(strip(a), b) is True


def at_least(f, n):
    return f[0] == 'int' and f[1] >= n


def r15(rep):
    w = World(rep, model=WeightModel)
    # fees
    R = 'fees rise with the scarcer resource'
    t, where = w.setting('pallet_transaction_payment', 'WeightToFee')
    users = [('transactions', t, where)]
    for x in parts(w.of(w.xcm_config(), 'Trader')[0]):
        for y in adts(x):
            if w.p.def_of(y[1]) is not None and w.find(y, 'weight_to_fee')[1] is not None:
                users.append(('messages', y, w.of(w.xcm_config(), 'Trader')[1]))
    weight = sym('weight', WT)
    dims = {app('ref_time', weight): None, app('proof_size', weight): None}
    for what, t, where in users:
        if w.find(t, 'weight_to_fee')[1] is None:
            rep.check(False, R, where, 'the fee of %s is computed by %s' % (what, show(t)), 'fee ' + what)
            continue
        outs, fw = w.run(t, 'weight_to_fee', [weight])
        for o in outs:
            if o[0] == 'panic':
                continue
            s = o[2]
            v = strip(w.I.deep(o[1], s))
            evs = [x for x in all_apps(v, 'eval')] + [x for l in list(s.facts.lits) + [k for k in fact_terms(s)] for x in all_apps(l, 'eval')]
            polys = {}
            for x in evs:
                polys.setdefault(x[2][1], set()).add(x[2][0])
            good = set(polys) == set(dims) and all(len(p) == 1 for p in polys.values())
            rep.check(good, R, fw, 'the fee does not weigh the time and the proof size by one polynomial each', 'dimensions ' + what)
            if not good:
                continue
            two = [app('eval', list(polys[d])[0], d) for d in dims]
            larger = any(s.facts.decide_eq(v, a) is True and s.facts.decide(('lt', a, b)) is False for a, b in (two, two[::-1])) or v == app('max', *sorted(two, key=repr))
            rep.check(larger, R, fw, 'the fee is not the larger of the time fee and the proof-size fee', 'larger ' + what)
            for d in dims:
                bad = list(linear(list(polys[d])[0], s))
                for msg in bad:
                    rep.check(False, R, fw, 'the fee of %s %s' % (d[1], msg), 'linear %s' % d[1])
                if not bad:
                    rep.check(rate(list(polys[d])[0]) == RATES[d[1]], R, fw, 'the fee of %s is not charged at its rate' % d[1], 'rate %s' % d[1])
    # instructions
    R = 'instructions are charged by their own benchmark'
    wt, where = w.of(w.xcm_config(), 'Weigher')
    if last(wt) != 'WeightInfoBounds' or w.p.def_of(wt[1]) is not None:
        rep.check(False, R, where, 'messages are weighed by %s' % show(wt), 'weigher')
    it = wt[2][0]
    im, _ = w.find(it, 'withdraw_asset')
    fns = dict(im.fns) if im is not None else {}
    cases = list(asset_cases(w))
    for name in sorted(UNSUPPORTED | PER_ASSET | FIXED | SINGLE | set(fns)):
        if name not in fns:
            rep.check(False, R, where, 'the instruction %s has no weight' % name, 'missing ' + name)
            continue
        fn = fns[name]
        bench = app('benchmark', ('s', name))
        per = name in PER_ASSET
        for kind, val, count in cases:
            ps = fn['params']
            tys = [w.p.ty(p['ty'], im.mod, im.gen, im.self_ty) for p in ps]
            at = [i for i, x in enumerate(tys) if last_ty(x) == kind]
            if per and not at or (not per and val is not cases[0][1]):
                continue
            args = [sym('argument %d' % i, x) for i, x in enumerate(tys)]
            if per:
                args[at[0]] = val
            outs, fw = w.run(it, name, args)
            for o in outs:
                if o[0] == 'panic':
                    continue
                s, v = o[2], strip(w.I.deep(o[1], o[2]))
                if name in UNSUPPORTED:
                    rep.check(v == MAXW, R, fw, 'the unsupported instruction %s costs %s' % (name, fmt_w(v)), 'unsupported ' + name)
                elif per:
                    f = I(1) if v == bench else v[2][1] if v[0] == 'app' and v[1] == 'times' and v[2][0] == bench else None
                    rep.check(f is not None and count(f, s), R, fw, 'the instruction %s costs %s for %s' % (name, fmt_w(v), fmt(val)), 'assets ' + name)
                elif name in SINGLE:
                    rep.check(v == bench, R, fw, 'the instruction %s costs %s' % (name, fmt_w(v)), 'own ' + name)
                elif name in FIXED:
                    rep.check(positive(v) and bounded(v), R, fw, 'the instruction %s costs %s' % (name, fmt_w(v)), 'fixed ' + name)
                else:
                    rep.check(v in (bench, MAXW), R, fw, 'the instruction %s costs %s' % (name, fmt_w(v)), 'own ' + name)
    rep.extra['instructions'] = len(fns)
    # calls
    R = 'calls declare their own weight'
    n = 0
    from . import frame
    for crate in PUBLISHED_CALLS:
        c = w.p.crates[crate]
        calls, hooks = frame.calls(w.p, c)
        trait = next((d for m in c.modules for d in m.types.values() if d.kind == 'trait' and d.path[-1] == 'WeightInfo'), None)
        if trait is None:
            raise P.SourceError(c.root.file, 0, 'the weights of the calls are not declared')
        have = {i['id']: i for i in trait.node['items'] if i['k'] == 'Fn'}
        for fn, im, idx in calls:
            n += 1
            at = '%s:%s (%s)' % (im.mod.file, fn['l'], fn['id'])
            own = [a for a in fn.get('attrs') or () if a['path'] == 'pallet::weight']
            if not own:
                implied = [a for a in im.attrs if a['path'] == 'pallet::call' and 'WeightInfo' in a['tokens']]
                rep.check(bool(implied) and fn['id'] in have, R, at, 'the call %s declares no weight' % fn['id'], 'none %s %s' % (crate, fn['id']))
                continue
            found = declared(w, fn, im, own[0]['args'])
            if found is not None:
                inner = {app('weight of the call', sym(p['pat']['id'], None)) for p in fn['params'] if p['pat']['k'] == 'PatIdent' and 'RuntimeCall' in repr(w.p.ty(p['ty'], im.mod, im.gen, im.self_ty))}
                uses = set()
                for v in found:
                    have_ = set(summands(v))
                    names = {x[2][0][1] for x in have_ if x[0] == 'app' and x[1] == 'benchmark'}
                    uses |= {x for x in have_ if x[0] == 'app' and x[1] == 'benchmark'}
                    rep.check(names == {fn['id']}, R, at, 'the call %s declares the weight of %s' % (fn['id'], ', '.join(sorted(names)) or 'nothing benchmarked'), 'weight %s %s' % (crate, fn['id']))
                    rep.check(inner <= have_, R, at, 'the call %s does not declare the weight of the call it makes' % fn['id'], 'inner weight %s %s' % (crate, fn['id']))
                if fn['id'] in have and have[fn['id']]['params']:
                    rep.check(any(mentions(x[2][1:], 'sym') for x in uses), R, at, 'the weight of %s does not depend on its arguments' % fn['id'], 'arguments %s %s' % (crate, fn['id']))
                continue
            uses = [x for x in weight_calls(own[0]['args'])] if own[0]['args'] else []
            names = {x['f']['segs'][-1]['id'] for x in uses}
            rep.check(names == {fn['id']}, R, at, 'the call %s declares the weight of %s' % (fn['id'], ', '.join(sorted(names)) or 'nothing benchmarked'), 'weight %s %s' % (crate, fn['id']))
            if names == {fn['id']} and fn['id'] in have and have[fn['id']]['params']:
                ps = {q for p in fn['params'][1:] for q in pat_names(p['pat'])}
                rep.check(all(idents(x['args']) & ps for x in uses), R, at, 'the weight of %s does not depend on its arguments' % fn['id'], 'arguments %s %s' % (crate, fn['id']))
    rep.extra['calls'] = n
    w.done()
    return ('Interprets the conversion of weights to fees for an arbitrary weight (each path yields the larger of two linear polynomials, one per resource), the weight of every instruction for '
            'every form of asset argument (own benchmark, times the number of assets, or the maximum) and reads the weight each call of the pallets declares.')


def last_ty(t):
    while t is not None and t[0] == 'ref':
        t = t[-1]
    return last(t) if t is not None and t[0] == 't' else None


def positive(v):
    """is a weight certain not to be zero"""
    if v[0] == 'app' and v[1] == 'weight':
        return any(x[0] != 'int' or x[1] > 0 for x in v[2])
    if v[0] == 'app' and v[1] in ('weight min',):
        return all(positive(x) for x in v[2])
    if v[0] == 'app' and v[1] in ('weight max', 'weight saturating_add'):
        return any(positive(x) for x in v[2])
    return v[0] == 'app' and v[1] in ('benchmark', 'times', 'maximum weight')


def declared(w, fn, im, expr):
    """the weights a weight attribute may give, for arbitrary arguments; None when it cannot be followed"""
    expr = expr[0] if isinstance(expr, list) and len(expr) == 1 else expr
    if not isinstance(expr, dict):
        return None
    ps = [p for p in fn['params'] if p['pat']['k'] == 'PatIdent']
    args = []
    for p in ps:
        a = sym(p['pat']['id'], None)
        w.I.note_type(a, w.p.ty(p['ty'], im.mod, im.gen, im.self_ty))
        args.append(a)
    body = [{'k': 'ExprStmt', 'l': fn['l'], 'e': expr, 'semi': False}]
    n = len(w.I.unknowns)
    try:
        outs = w.I.run(dict(fn, params=ps, body=body, ret=None, attrs=[]), im.mod, im.self_ty, args, None, dict(im.gen), im)
    except P.SourceError:
        return None
    out = []
    for o in outs:
        if o[0] == 'panic':
            continue
        v = strip(w.I.deep(o[1], o[2]))
        out.append(strip(v[1][0]) if v[0] == 'tup' and v[1] else v)
    if not out or any(not mentions(v, 'app') or not any(x[0] == 'app' and x[1] in ('benchmark', 'weight', 'maximum weight', 'weight of the call') for x in summands(v)) for v in out):
        return None
    return out


def summands(v):
    if v[0] == 'app' and v[1] in ('weight saturating_add', 'weight add'):
        for x in v[2]:
            yield from summands(x)
    else:
        yield v


def mentions(t, tag):
    if not isinstance(t, tuple):
        return False
    return (len(t) > 0 and t[0] == tag) or any(mentions(x, tag) for x in t)


def bounded(v):
    """is a weight at most a fixed amount"""
    if v[0] == 'app' and v[1] == 'weight':
        return all(x[0] == 'int' for x in v[2])
    if v[0] == 'app' and v[1] == 'weight min':
        return any(bounded(x) for x in v[2])
    if v[0] == 'app' and v[1] in ('weight max', 'weight saturating_add'):
        return all(bounded(x) for x in v[2])
    return False


def fmt_w(v):
    if v[0] == 'app' and v[1] == 'benchmark':
        return 'the benchmark of ' + v[2][0][1]
    if v[0] == 'app' and v[1] == 'times':
        return '%s for each of %s' % (fmt_w(v[2][0]), fmt(v[2][1]))
    return fmt(v)


def all_apps(t, name):
    if not isinstance(t, tuple):
        return
    if len(t) > 2 and t[0] == 'app' and t[1] == name:
        yield t
    for x in t:
        yield from all_apps(x, name)


def fact_terms(s):
    f = s.facts
    out = list(f.eqs) + list(f.eqs.values())
    for d, c in f.lin:
        out += list(d)
    return out


def linear(poly, s):
    """what keeps a polynomial from rising linearly from zero"""
    if poly[0] != 'arr' or len(poly[1]) != 1 or poly[1][0][0] != 'adt':
        yield 'is not a single term'
        return
    f = dict(poly[1][0][3])
    if f.get('degree') != I(1):
        yield 'is not linear'
    if f.get('negative') != ('bool', False):
        yield 'falls'
    ci, cf = f.get('coeff_integer'), f.get('coeff_frac')
    if ci is not None and ci[0] == 'int' and ci[1] == 0 and cf == app('ratio', I(0), I(1)):
        yield 'is always zero'
    if ci is not None and ci[0] == 'app' and ci[1] == 'div':
        p, q = ci[2]
        if cf != app('from_rational', app('rem', p, q), q):
            yield 'has a fraction that does not belong to its whole part'


CENT = 333_333_333
BASE = app('ref_time', app('base weight of an extrinsic'))
RATES = {'ref_time': (Fraction(CENT, 100), BASE), 'proof_size': (Fraction(CENT, 10_000), I(1))}


def rate(poly):
    """(number, unit) when a linear polynomial charges number for each unit"""
    f = dict(poly[1][0][3])
    ci, cf = f.get('coeff_integer'), f.get('coeff_frac')
    if ci is None or cf is None:
        return None
    if ci[0] == 'int' and cf[0] == 'app' and cf[1] == 'ratio' and all(x[0] == 'int' for x in cf[2]):
        return Fraction(ci[1]) + Fraction(cf[2][0][1], cf[2][1][1]), I(1)
    if ci[0] == 'app' and ci[1] == 'div' and ci[2][0][0] == 'int':
        p, q = ci[2]
        if q[0] == 'lin' and q[2] == 0 and len(q[1]) == 1:
            return Fraction(p[1], q[1][0][1]), base_weight(q[1][0][0])
        return Fraction(p[1]), base_weight(q)
    return None


def base_weight(t):
    if t[0] == 'app' and t[1] == 'ref_time' and t[2][0][0] == 'app' and t[2][0][1].endswith('ExtrinsicBaseWeight::get'):
        return BASE
    return t


def weight_calls(n):
    """calls of benchmarked weights in a syntax tree"""
    if isinstance(n, list):
        for x in n:
            yield from weight_calls(x)
    elif isinstance(n, dict):
        if n.get('k') == 'Call' and n['f'].get('k') == 'Path':
            ids = [x['id'] for x in n['f']['segs']]
            if 'WeightInfo' in ids[:-1]:
                yield n
        for x in n.values():
            yield from weight_calls(x)


def idents(n):
    out = set()
    if isinstance(n, list):
        for x in n:
            out |= idents(x)
    elif isinstance(n, dict):
        if n.get('k') == 'Path' and len(n['segs']) == 1:
            out.add(n['segs'][0]['id'])
        for x in n.values():
            out |= idents(x)
    return out


# ------------------------------------------------------------------ chain specifications
SPEC = 'chain_spec_generator'
NETWORKS = (('kusama', False, 'KSM'), ('paseo', True, 'PAS'))
CHAINS = {'kreivo': 'live', 'live': 'live', 'kreivo-local': 'local', 'local': 'local'}


class SpecModel(Model):
    """json values as records"""

    def call_path(self, f, args, n, env, st, want):
        I_ = self.I
        ids = [x['id'] for x in f['segs']]
        if ids[-1] == 'new' and len(ids) > 1 and ids[-2] in ('Properties', 'Map') and not args:
            return V(('adt', 'Json', None, ()), st)
        return None

    def macro(self, m, n, env, st, want):
        I_ = self.I
        if m['name'] in ('include_bytes', 'include_str') and m.get('args'):
            a = m['args'][0]
            if a['k'] == 'Lit':
                return V(app('file', ('s', text_lit(a)), ('s', env.mod.file)), st)
        if m['name'] == 'json':
            if 'json' not in m:
                raise Unsupported('a json value that does not parse')
            return [('v', v, s) for v, s in self.json(m['json'], env, st)]
        return None

    def json(self, j, env, st):
        """[(value, state)] of the parsed text of a json value"""
        I_ = self.I
        if 'o' in j:
            outs = [((), st)]
            for k, x in j['o']:
                outs = [(fs + ((k, v),), s2) for fs, s in outs for v, s2 in self.json(x, env, s)]
            return [(('adt', 'Json', None, fs), s) for fs, s in outs]
        if 'a' in j:
            outs = [((), st)]
            for x in j['a']:
                outs = [(fs + (v,), s2) for fs, s in outs for v, s2 in self.json(x, env, s)]
            return [(('arr', fs), s) for fs, s in outs]
        e = j['e']
        if e['k'] == 'Path' and len(e['segs']) == 1 and e['segs'][0]['id'] == 'null':
            return [(NONE, st)]
        return [(strip(I_.deep(o[1], o[2])), o[2]) for o in I_.ev(e, env, st) if o[0] == 'v']

    def method(self, ref, v, m, args, n, env, st, want, targs):
        I_ = self.I
        if v[0] == 'adt' and v[1] == 'Json':
            if m in ('as_object', 'as_object_mut') and not args:
                return V(some(v if m == 'as_object' or ref is None else ref), st)
            if m in ('clone', 'into', 'to_owned') and not args:
                return V(v, st)
            if m == 'insert' and len(args) == 2:
                def g(vs, s):
                    k = text_of_value(strip(I_.deep(vs[0], s)))
                    x = strip(I_.deep(vs[1], s))
                    old = I_.rv(ref, s) if ref is not None else v
                    fs = tuple(f for f in old[3] if f[0] != k) + ((k, x),)
                    return V(NONE, I_.write(ref[1], ref[2], ('adt', 'Json', None, fs), s))
                return I_.many(args, env, st, None, g)
        return None

    def unknown_method(self, ref, v, m, args, st, n, want):
        return V(app(m, *args), st)

    def unknown(self, name, args, st, node, want):
        return V(app(name, *args), st)


def text_lit(a):
    v = a.get('v')
    return v if isinstance(v, str) else str(v)


def text_of_value(v):
    """the text of a constant string value"""
    if v[0] == 'seq' and all(x[0] == 'vals' and all(y[0] == 'int' for y in x[1]) for x in v[1]):
        return bytes(y[1] for x in v[1] for y in x[1]).decode('utf8', 'replace')
    if v[0] == 'arr' and all(y[0] == 'int' for y in v[1]):
        return bytes(y[1] for y in v[1]).decode('utf8', 'replace')
    return None


def split_tt(tt):
    cur, out = [], []
    for x in tt:
        if x == ',':
            out.append(cur)
            cur = []
        else:
            cur.append(x)
    return out + ([cur] if cur else [])


def adts_named(t, name):
    if not isinstance(t, tuple):
        return
    if len(t) == 4 and t[0] == 'adt' and isinstance(t[1], str) and t[1].split('::')[-1] == name:
        yield t
    for x in t:
        yield from adts_named(x, name)


def spec_of(rep, I_, d, R, place):
    """what one specification says: {symbol, decimals, relay, para}, possibly from a file"""
    outs = [o for o in I_.run(d.node, d.mod, None, []) if o[0] != 'panic']
    rep.paths += len(outs)
    where = '%s:%s (%s)' % (d.mod.file, d.node['l'], d.path[-1])
    res = []
    for o in outs:
        v = I_.deep(o[1], o[2])
        if v[0] == 'adt' and v[2] == 'Err':
            continue
        files = list(all_apps(v, 'file'))
        if files:
            for f in files:
                rel = os.path.normpath(os.path.join(os.path.dirname(f[2][1][1]), f[2][0][1]))
                res.append((file_spec(rel), where, rel))
            continue
        ext = [x for x in adts_named(v, 'Extensions')]
        props = [dict(x[3]) for a in all_apps(v, 'with_properties') for x in adts_named(a[2][1:], 'Json')]
        gen = [dict(x[3]) for a in all_apps(v, 'with_genesis_config_patch') for x in a[2][1:] if x[0] == 'adt' and x[1] == 'Json'] or \
              [dict(x[3]) for a in all_apps(v, 'with_genesis_config_patch') for x in adts_named(a[2][1:], 'Json')][:1]
        s = {}
        if ext:
            f = dict(ext[0][3])
            s['relay'] = text_of_value(strip(f.get('relay_chain', UNIT)))
            s['para'] = f['para_id'][1] if f.get('para_id', UNIT)[0] == 'int' else None
        if props:
            s['symbol'] = text_of_value(props[0].get('tokenSymbol', UNIT))
            x = props[0].get('tokenDecimals', UNIT)
            s['decimals'] = x[1] if x[0] == 'int' else None
            x = strip(props[0].get('ss58Format', UNIT))
            s['format'] = x[1] if x[0] == 'int' else None
        for g in gen:
            x = g.get('parachainInfo')
            if x is not None and x[0] == 'adt':
                y = strip(dict(x[3]).get('parachainId', UNIT))
                s['genesis'] = y[1] if y[0] == 'int' else None
        res.append((s, where, None))
    return res


def file_spec(rel):
    p = os.path.join(P.REPO, rel)
    if not os.path.exists(p):
        return None
    with open(p) as f:
        try:
            j = json.load(f)
        except ValueError:
            return {}
    pr = j.get('properties') or {}
    s = {'symbol': pr.get('tokenSymbol'), 'decimals': pr.get('tokenDecimals'), 'format': pr.get('ss58Format'), 'relay': j.get('relay_chain', j.get('relayChain')), 'para': j.get('para_id', j.get('paraId'))}
    g = j.get('genesis') or {}
    for q in (g.get('runtimeGenesis') or {}).values():
        if isinstance(q, dict):
            x = (q.get('parachainInfo') or {}).get('parachainId')
            if x is not None:
                s['genesis'] = x
    return s


def chain_names(p, crate):
    """{chain name: functions it leads to} of the program"""
    out = {}
    fns = lambda n, m: {d.path for x in walk_paths(n) for d, k, e in [p.resolve(m, tuple(s['id'] for s in x['segs']), 'values')] if d is not None and d.kind == 'fn' and d.path[-1] == 'chain_spec'}

    def lits(n):
        if isinstance(n, dict):
            if n.get('k') in ('Lit', 'PatLit') and isinstance(n.get('v'), str) and n.get('t', 'str') in ('str', 'Str', None):
                yield n['v']
            for x in n.values():
                yield from lits(x)
        elif isinstance(n, list):
            for x in n:
                yield from lits(x)

    def go(n, m):
        if isinstance(n, list):
            for x in n:
                go(x, m)
        elif isinstance(n, dict):
            if n.get('k') == 'Tuple' and len(n['elems']) == 2 and n['elems'][0].get('k') == 'Lit':
                f = fns(n['elems'][1], m)
                for l in lits(n['elems'][0]):
                    if f:
                        out.setdefault(l, set()).update(f)
            if n.get('k') == 'Arm' or ('pat' in n and 'body' in n):
                f = fns(n.get('body'), m)
                for l in lits(n.get('pat')):
                    if f:
                        out.setdefault(l, set()).update(f)
            if n.get('k') == 'MethodCall' and n.get('m') == 'insert' and len(n.get('args') or ()) == 2:
                f = fns(n['args'][1], m)
                for l in lits(n['args'][0]):
                    if f:
                        out.setdefault(l, set()).update(f)
            for x in n.values():
                go(x, m)
    for m in crate.modules:
        for d in m.values.values():
            if d.kind == 'fn' and d.path[-1] != 'chain_spec':
                go(d.node.get('body'), m)
    return out


def walk_paths(n):
    if isinstance(n, list):
        for x in n:
            yield from walk_paths(x)
    elif isinstance(n, dict):
        if n.get('k') == 'Path':
            yield n
        for x in n.values():
            yield from walk_paths(x)


def r16(rep):
    R = 'specifications agree with the runtime'
    seen = 0
    paras = {}
    for net, paseo, symbol in NETWORKS:
        w = World(rep, paseo=paseo)
        d, k, e = w.p.resolve(w.crate.root, ('constants', 'currency', 'UNITS'), 'values')
        if d is None:
            raise P.SourceError(w.crate.root.file, 0, 'the currency unit is missing')
        units = w.eval_const(d)
        t, _ = w.setting('frame_system', 'SS58Prefix')
        prefix = w.value(t)
        w.done()
        p = P.Program({SPEC: ['default'] + (['paseo'] if paseo else [])})
        crate = p.crates[SPEC]
        I_ = Interp(p, SpecModel())
        I_.model.I = I_
        names = chain_names(p, crate)
        main = '%s (%s)' % (crate.root.file, net)
        R2 = 'each chain name yields its own specification'
        for c, kind in CHAINS.items():
            fs = names.get(c, set())
            rep.check(len(fs) == 1 and kind in list(fs)[0], R2, main, 'the chain name %s yields %s' % (c, ', '.join('::'.join(f) for f in fs) or 'nothing'), 'name ' + c)
        for path in sorted({f for fs in names.values() for f in fs}):
            kind = 'live' if 'live' in path else 'local'
            d = next(x for m in crate.modules for x in m.values.values() if x.path == path)
            specs = spec_of(rep, I_, d, R, kind)
            rep.check(bool(specs), R, '%s:%s' % (d.mod.file, d.node['l']), 'no %s specification for %s' % (kind, net), 'none %s %s' % (kind, net))
            for s, where, rel in specs:
                seen += 1
                if s is None:
                    rep.check(False, R, where, 'the %s specification for %s is not in the repository (%s)' % (kind, net, rel), 'missing specification %s %s' % (kind, net))
                    continue
                say = lambda what, got, want: rep.check(got is not None and got == want, R, where, 'the %s of the %s specification for %s is %s, not %s' % (what, kind, net, got, want), '%s %s %s' % (what, kind, net))
                say('token symbol', s.get('symbol'), symbol)
                rep.check(isinstance(s.get('decimals'), int) and units[0] == 'int' and 10 ** s['decimals'] == units[1], R, where, 'the %s specification for %s has %s decimals, the unit is %s' % (
                    kind, net, s.get('decimals'), fmt(units)), 'decimals %s %s' % (kind, net))
                rep.check(prefix == I(s.get('format')), R, where, 'the %s specification for %s writes addresses in format %s, the runtime in %s' % (kind, net, s.get('format'), fmt(prefix or UNIT)),
                          'address format %s %s %s' % (kind, net, s.get('format')))
                say('relay chain', s.get('relay'), net if kind == 'live' else net + '-local')
                rep.check(isinstance(s.get('para'), int), R, where, 'the %s specification for %s has no parachain number' % (kind, net), 'para %s %s' % (kind, net))
                paras.setdefault(s.get('para'), []).append((kind, net, where))
                if 'genesis' in s:
                    say('parachain number in the genesis state', s['genesis'], s.get('para'))
                elif rel is None:
                    rep.check(False, R, where, 'the genesis state of the %s specification for %s has no parachain number' % (kind, net), 'genesis %s %s' % (kind, net))
        rep.absorb(I_)
    rep.check(len(paras) == 1, R, 'chain-spec-generator', 'the parachain number differs: %s' % {k: [x[:2] for x in v] for k, v in paras.items()}, 'parachain number')
    rep.extra['specifications'] = seen
    return ('Interprets the functions that build the specifications for both networks (file-based ones are read from the included file), and compares token symbol, decimals, address format, relay chain and '
            'parachain number with the currency unit evaluated from the runtime and with each other; the chain names of the program must lead to their own specification.')


RULES = {'R01': r01, 'R02': r02, 'R03': r03, 'R04': r04, 'R05': r05, 'R06': r06, 'R07': r07, 'R08': r08, 'R09': r09, 'R10': r10, 'R11': r11, 'R12': r12, 'R13': r13, 'R14': r14, 'R15': r15, 'R16': r16}

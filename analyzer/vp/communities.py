"""Rules for the communities pallet (M01-M10)."""
from .terms import *
from . import prog as P
from . import frame
from .frame import FrameModel, Path, strip
from .interp import State, V

CRATE = 'pallet_communities'
VOTES = ('AssetBalance', 'NativeBalance', 'Standard')


class CommModel(FrameModel):
    others = 0      # locks of a voter besides the one of the poll at hand
    poll = None

    # ---- members
    def cfg_call(self, name, m, args, n, env, st, want):
        I_ = self.I
        d = lambda x, s: strip(I_.deep(x, s))
        T = lambda x: ('proj', ('param', 'T'), None, x)
        if name == 'MemberMgmt':
            def g(vs, s):
                vs = [d(x, s) for x in vs]
                t = app('MemberMgmt::' + m, *vs)
                if m == 'check_membership':
                    I_.note_type(t, ('t', 'Option', (T('CommunityId'),)))
                    return V(t, s)
                if m in ('is_member_of',):
                    I_.note_type(t, ('t', 'bool', ()))
                    return V(t, s)
                if m == 'rank_of':
                    I_.note_type(t, ('t', 'Option', (('t', 'GenericRank', ()),)))
                    return V(t, s)
                if m in ('members_total', 'ranks_total'):
                    I_.note_type(t, ('t', 'u32', ()))
                    return V(t, s)
                if m in ('user_memberships', 'group_memberships', 'memberships'):
                    out = []
                    for b, s2 in I_.branch(s, app('has', t)):
                        items = []
                        for i in range(2 if b else 0):
                            e = ('elem', t, I(i))
                            items.append(('tup', (('fld', e, '0'), ('fld', e, '1'))))
                        out.append(('v', ('iter', tuple(items)), s2))
                    return out
                if m in ('assign', 'release', 'set_rank'):
                    return self.fallible('MemberMgmt::' + m, s, n, ok(UNIT), ('member', m) + tuple(vs) + (I_.where(n),))
                return self.fallible('MemberMgmt::' + m, s, n, ok(('ret', I_.fresh(), m, tuple(vs))), ('member', m) + tuple(vs) + (I_.where(n),))
            return I_.many(args, env, st, None, g)
        if name in ('Balances',):
            return self.freezes(name, m, args, n, env, st, want, False)
        if name in ('Assets', 'AssetsFreezer'):
            if m == 'create':
                return I_.many(args, env, st, None, lambda vs, s: self.fallible('create asset', s, n, ok(UNIT), ('asset', tuple(d(x, s) for x in vs), I_.where(n))))
            return self.freezes(name, m, args, n, env, st, want, True)
        if name == 'Polls':
            return self.polls(m, args, n, env, st, want)
        return super().cfg_call(name, m, args, n, env, st, want)

    def auth_type(self, origin, who):
        if origin in ('AdminOrigin', 'MemberMgmtOrigin'):
            self.I.note_type(who, ('proj', ('param', 'T'), None, 'CommunityId'))
        if origin in ('CreateOrigin', 'RegisterOrigin'):
            self.I.note_type(who, ('t', 'Option', (('inf',),)))

    def on_arith(self, op, a, b, st, node, ty):
        """arithmetic that may leave its type"""
        return st.effect(('arith', op, a, b, self.I.where(node)))

    # ---- freezes: the amount frozen per asset and account
    def frozen_key(self, name, asset, who, st):
        a = ('s', 'native') if name == 'Balances' else asset
        return (a, who)

    def frozen_now(self, key, reason, st):
        """[(amount, state)]"""
        pend, out = [st], []
        for k, v in reversed(st.glob.get('frozen', ())):
            nxt = []
            for s in pend:
                for b, s2 in self.same_keys(k, key, s):
                    (out.append((v, s2)) if b else nxt.append(s2))
            pend = nxt
        for s in pend:
            t = app('frozen', key[0], key[1])
            out.append((t, s))
        return out

    def set_frozen(self, key, v, st, node, reason):
        s = st.copy()
        s.glob['frozen'] = st.glob.get('frozen', ()) + ((key, v),)
        return s.effect(('freeze', key, v, reason, self.I.where(node)))

    def freezes(self, name, m, args, n, env, st, want, multi):
        I_ = self.I
        if m not in ('balance_frozen', 'set_frozen', 'set_freeze', 'extend_freeze', 'thaw', 'increase_frozen', 'decrease_frozen'):
            return self.fund_call(name, m, args, n, env, st, want, multi)

        def g(vs, s):
            vs = [zero(strip(I_.deep(x, s))) for x in vs]
            asset, a = (vs[0], vs[1:]) if multi else (None, vs)
            reason, who = a[0], a[1]
            key = self.frozen_key(name, asset, who, s)
            if m == 'balance_frozen':
                return [('v', v, s2) for v, s2 in self.frozen_now(key, reason, s)]
            out = []
            for cur, s2 in self.frozen_now(key, reason, s):
                if m in ('set_frozen', 'set_freeze'):
                    new = [(a[2], s2)]
                elif m == 'thaw':
                    new = [(I(0), s2)]
                elif m == 'extend_freeze':
                    new = [(a[2] if b else cur, s3) for b, s3 in I_.branch(s2, ('lt', cur, a[2]))]
                else:
                    new = [(ladd(cur, a[2], 1 if m == 'increase_frozen' else -1), s2)]
                for x, s3 in new:
                    out.append(('v', ok(UNIT), self.set_frozen(key, x, s3, n, reason)))
            e = app('error', ('s', m), I(I_.fresh()))
            out.append(('v', err(e), s.effect(('failed', '%s::%s' % (name, m), I_.where(n)))))
            return out
        return I_.many(args, env, st, None, g)

    # ---- locks of a voter
    def storage_op(self, S, m, args, n, env, st, want):
        if S.name == 'CommunityVoteLocks' and m in ('iter_prefix_values', 'iter_prefix', 'iter_key_prefix'):
            I_ = self.I

            def g(vs, s):
                who = strip(I_.deep(vs[0], s))
                out = []
                for items, s2 in self.locks(S, who, s):
                    if m == 'iter_prefix_values':
                        v = tuple(x[1] for x in items)
                    elif m == 'iter_prefix':
                        v = tuple(('tup', x) for x in items)
                    else:
                        v = tuple(x[0] for x in items)
                    out.append(('v', ('iter', v), s2))
                return out
            return I_.many(args, env, st, None, g)
        return super().storage_op(S, m, args, n, env, st, want)

    def other_locks(self, who):
        t = app('other locks', who)
        out = []
        for i in range(self.others):
            e = ('elem', t, I(i))
            S = next(x for x in self.sto.values() if x.name == 'CommunityVoteLocks')
            self.I.note_type(('fld', e, 'vote'), S.val)
            out.append((('fld', e, 'poll'), ('fld', e, 'vote')))
        return out

    def locks(self, S, who, st):
        """[(entries now stored for the voter, state)]"""
        others = self.other_locks(who)
        f = st.facts
        for i, (p, v) in enumerate(others):
            f = f.assume(('eq', p, self.poll), False) or f
        out = []
        for v, s in self.read_sto(S, [who, self.poll], st.with_facts(f)):
            out.append((others + ([(self.poll, v)] if v is not None else []), s))
        return out

    # ---- polls
    def tally_now(self, idx, st):
        for k, v in reversed(st.glob.get('tally', ())):
            if st.facts.decide_eq(k, idx) is True:
                return v
        base = app('tally', idx)
        d = self.tally_def
        fs = []
        for f in d.node['fields']['fields']:
            x = ('fld', base, f['id'])
            t = self.p.ty(f['ty'], d.mod, {'T': ('param', 'T')}, None)
            self.I.note_type(x, t)
            fs.append((f['id'], x))
        return ('adt', '::'.join(d.path), None, tuple(fs))

    def polls(self, m, args, n, env, st, want):
        I_ = self.I

        def g(vs, s):
            idx = strip(I_.deep(vs[0], s))
            cls = app('class', idx)
            I_.note_type(cls, ('proj', ('param', 'T'), None, 'CommunityId'))
            if m == 'as_ongoing':
                return [('v', some(('tup', (self.tally_now(idx, s2), cls))) if b else NONE, s2) for b, s2 in I_.branch(s, app('ongoing', idx))]
            if m in ('try_access_poll', 'access_poll'):
                out = []
                for b, s2 in I_.branch(s, app('ongoing', idx)):
                    if b:
                        a, s3 = I_.alloc(self.tally_now(idx, s2), s2)
                        cases = [(('adt', 'PollStatus', 'Ongoing', (('0', ('ref', a, ())), ('1', cls))), a, s3)]
                    else:
                        cases = []
                        for c, s3 in I_.branch(s2, app('completed', idx)):
                            if c:
                                cases.append((('adt', 'PollStatus', 'Completed', (('0', app('end', idx)), ('1', app('passed', idx)))), None, s3))
                            else:
                                cases.append((('adt', 'PollStatus', 'None', ()), None, s3))
                    for ps, a, s3 in cases:
                        for o in I_.apply(vs[1], [ps], s3, n, want):
                            if o[0] != 'v':
                                out.append(o)
                                continue
                            keep = [(True, o[1], o[2])]
                            if m == 'try_access_poll':
                                keep = [(ok_, ok(x) if ok_ else err(x), s4) for ok_, x, s4 in I_.std.cases(I_.rv(o[1], o[2]), 'Result', o[2])]
                            for ok_, val, s4 in keep:
                                if a is not None and ok_:
                                    s5 = s4.copy()
                                    t = strip(I_.deep(s4.store[a], s4))
                                    s5.glob['tally'] = s4.glob.get('tally', ()) + ((idx, t),)
                                    if t != self.tally_now(idx, s4):
                                        s5 = s5.effect(('tally', idx, t, I_.where(n)))
                                    s4 = s5
                                out.append(('v', val, s4))
                return out
            return self.fallible('Polls::' + m, s, n, ok(('ret', I_.fresh(), m, (idx,))), ('poll', m, tuple(strip(I_.deep(x, s)) for x in vs), I_.where(n)))
        return I_.many(args, env, st, None, g)

    def method(self, ref, v, m, args, n, env, st, want, targs):
        I_ = self.I
        d = lambda x, s: strip(I_.deep(x, s))
        if v[0] == 'adt' and v[1] == 'PollStatus' and not args:
            if m == 'ensure_ongoing':
                if v[2] == 'Ongoing':
                    f = dict(v[3])
                    return V(some(('tup', (f['0'], f['1']))), st)
                return V(NONE, st)
            if m == 'is_ongoing':
                return V(B(v[2] == 'Ongoing'), st)
        if m in ('promote_by', 'demote_by') and len(args) == 1:
            return I_.many(args, env, st, None, lambda vs, s: V(app(m, d(v, s), d(vs[0], s)), s))
        if m in ('dispatch', 'dispatch_bypass_filter') and len(args) == 1:
            def g(vs, s):
                post = ('ret', I_.fresh(), 'post info', ())
                e = ('adt', 'DispatchErrorWithPostInfo', None, (('post_info', ('ret', I_.fresh(), 'post info', ())), ('error', app('dispatch error', I(I_.fresh())))))
                return self.fallible(m, s, n, ok(post), ('dispatch', m, d(v, s), d(vs[0], s), I_.where(n)), err(e))
            return I_.many(args, env, st, None, g)
        if m in ('caller', 'into_caller') and not args:
            return V(app('caller', d(v, st)), st)
        if m in ('as_system_ref', 'as_signed', 'into_signer', 'as_signer') and not args:
            t = app('as_system_ref' if m == 'as_system_ref' else 'signer', d(v, st))
            I_.note_type(t, ('t', 'Option', (('t', 'frame_system::RawOrigin', ()) if m == 'as_system_ref' else ('proj', ('param', 'T'), None, 'AccountId'),)))
            return V(t, st)
        if m == 'deconstruct' and not args:
            return V(app('parts', d(v, st)), st)
        if m == 'set_caller_from' or m == 'add_filter' or m == 'reset_filter':
            return I_.many(args, env, st, None, lambda vs, s: V(UNIT, s.effect(('origin changed', m, I_.where(n)))))
        return super().method(ref, v, m, args, n, env, st, want, targs)

    def payload(self, v, variant, fld, st):
        # an origin that is not of the kind asked for is handed back
        if v[0] == 'app' and v[1].startswith('origin as ') and variant == 'Err':
            return v[2][0]
        return super().payload(v, variant, fld, st)

    def convert(self, v, want, st, node):
        """an origin read as one of the kinds it may hold"""
        if want[0] == 't' and want[1] == 'Result' and want[2] and want[2][0][0] == 't' and want[2][0][1].split('::')[-1] in ('RawOrigin', 'Origin'):
            d = self.p.def_of(want[2][0][1])
            kind = 'community' if d is not None else 'system'
            o = strip(self.I.deep(v, st))
            t = app('origin as ' + kind, o)
            self.I.note_type(t, ('t', 'Result', (want[2][0], ('inf',))))
            return V(t, st)
        if want[0] == 't' and want[1].split('::')[-1] in ('Perbill', 'Permill', 'GenericRank'):
            return V(v, st)
        return None

    def call_path(self, f, args, n, env, st, want):
        I_ = self.I
        ids = [x['id'] for x in f['segs']]
        if len(ids) >= 2 and ids[-1] in ('from_rational', 'from_rational_with_rounding') and ids[-2] in ('Perbill', 'Permill', 'Percent', 'Perquintill', 'PerU16'):
            def g(vs, s):
                t = app('ratio', strip(I_.deep(vs[0], s)), strip(I_.deep(vs[1], s)))
                return V(ok(t) if ids[-1] != 'from_rational' else t, s)
            return I_.many(args, env, st, None, g)
        if len(ids) >= 2 and ids[-2] in ('Perbill', 'Permill', 'Percent') and ids[-1] in ('zero', 'one') and not args:
            return V(app('ratio', I(0 if ids[-1] == 'zero' else 1), I(1)), st)
        return super().call_path(f, args, n, env, st, want)


class World(frame.World):
    def __init__(self, rep, others=0):
        super().__init__(rep, CRATE, CommModel, {CRATE: ['default', 'std', 'xcm']})
        self.model.others = others
        self.model.tally_def = self.type('Tally')
        self.need('Info', 'CommunityIdFor', 'CommunityDecisionMethod', 'CommunityVotes', 'CommunityVoteLocks')

    def run(self, call):
        for q in call.fn['params']:
            if q['pat']['k'] == 'PatIdent' and q['pat']['id'] == 'poll_index':
                self.model.poll = sym('poll_index', self.p.ty(q['ty'], call.im.mod, call.im.gen, call.im.self_ty))
        return super().run(call)


CALLS = {'create': 'CreateOrigin', 'set_admin_origin': 'AdminOrigin', 'add_member': 'MemberMgmtOrigin', 'remove_member': 'MemberMgmtOrigin',
         'promote': 'MemberMgmtOrigin', 'demote': 'MemberMgmtOrigin', 'set_decision_method': 'AdminOrigin', 'vote': 'Signed', 'remove_vote': 'Signed',
         'unlock': 'Signed', 'dispatch_as_account': 'MemberMgmtOrigin'}
CHANGES = ('write', 'fund', 'event', 'member', 'dispatch', 'tally', 'freeze', 'asset', 'inc_providers', 'poll', 'ext')


LOCKING = ('vote', 'remove_vote', 'unlock')


def each(rep, only=None, others=None):
    """every way through the calls; the ones that touch locks also with other locks of the voter present"""
    if others is None:
        yield from each(rep, only, 0)
        for k in (1, 2) if P.THOROUGH else (1,):
            yield from each(rep, LOCKING if only is None else set(LOCKING) & set(only), k)
        return
    if only is not None and not only:
        return
    w = World(rep, others)
    names = {c.name for c in w.calls}
    for n in CALLS:
        if n not in names:
            raise P.SourceError(w.crate.root.file, 0, 'call %s is missing' % n)
    for c in w.calls:
        if only and c.name not in only and (others or c.name in CALLS):
            continue
        good, bad = w.run(c)
        yield w, c, good, bad
    w.done()


def account_of(community):
    return app('sub account', app('const', ('s', 'PalletId')), community)


def has(t, x):
    return t == x or (isinstance(t, tuple) and any(has(y, x) for y in t if isinstance(y, tuple)))


def m01(rep):
    R1, R2 = 'authority required before any effect', 'acts on the community of the authority only'
    for w, c, good, bad in each(rep):
        kinds = CALLS.get(c.name)
        for pa in good:
            auths = [(o, a) for o, a in pa.auth() if a[2][1] == c.argv[0]]
            seen = False
            for e in pa.eff:
                if e[0] == 'auth' and e[2][2][1] == c.argv[0]:
                    seen = True
                elif e[0] in CHANGES and not seen:
                    rep.bad(R1, e[-1], '%s has an effect before its caller is authenticated' % c.name)
            if not [e for e in pa.eff if e[0] in CHANGES]:
                continue
            if kinds is None:
                rep.check(bool(auths), R1, c.where, 'call %s changes state without authenticating its caller' % c.name)
                continue
            mine = [a for o, a in auths if o == kinds]
            if not rep.check(bool(mine), R1, c.where, 'a way through %s succeeds without the caller passing %s' % (c.name, kinds)):
                continue
            if kinds in ('Signed', 'CreateOrigin'):
                continue
            me = mine[0]
            for e in pa.eff:
                if e[0] == 'write' and e[1] == 'CommunityIdFor':
                    if e[3] is not None:
                        rep.check(pa.same(e[3], me), R2, e[-1], '%s hands the administration of another community over' % c.name)
                    else:
                        cell = ('sto', 'CommunityIdFor', e[2])
                        rep.check(pa.f.decide_is(cell, 'Some') is True and pa.same(('pay', cell, 'Some', '0'), me), R2, e[-1],
                                  '%s removes an administrator of another community' % c.name)
                elif e[0] == 'write' and e[1] in ('Info', 'CommunityDecisionMethod'):
                    rep.check(pa.same(e[2][0], me), R2, e[-1], '%s changes a community other than the caller\'s' % c.name, '%s changes %s of any community' % (c.name, e[1]))
                elif e[0] == 'write':
                    rep.bad(R2, e[-1], '%s changes %s' % (c.name, e[1]))
                elif e[0] == 'member':
                    rep.check(pa.same(e[2], me), R2, e[-1], '%s changes memberships of another community' % c.name)
                elif e[0] == 'dispatch':
                    rep.check(has(pa.f.canon(e[3]), pa.f.canon(account_of(me))), R2, e[-1], '%s dispatches as another community' % c.name)
                elif e[0] == 'event' and e[1][0] == 'adt' and 'id' in dict(e[1][3]):
                    rep.check(pa.same(dict(e[1][3])['id'], me), R2, e[-1], '%s announces another community' % c.name)
    rep.assumptions.append('the membership interface changes only the group it is given')
    return 'Every way through every call: authority obtained first, and every storage key, membership group and dispatching account belongs to the community the authority stands for.'


def impl_fn(w, tname_, fn, trait=None, args=None):
    """(fn, impl) of a type of the pallet"""
    d = w.type(tname_)
    ty = ('t', '::'.join(d.path), tuple(('param', p['id']) for p in d.node['generics']['params'] if p['k'] == 'TypeParam'))
    for im in w.p.find_impls(ty):
        if fn in im.fns and (trait is None or im.trait_name == trait):
            return im.fns[fn], im, ty
    raise P.SourceError(d.mod.file, 0, '%s::%s is missing' % (tname_, fn))


def run_fn(w, fn, im, ty, args, st=None):
    out = []
    for o in w.I.run(fn, im.mod, ty, args, st or State(), dict(im.gen), im):
        w.rep.paths += 1
        out.append(o)
    return out


def at(im, fn):
    return '%s:%s (%s)' % (im.mod.file, fn['l'], fn['id'])


def is_community(f, o, x):
    """does the origin hold community x's own origin?"""
    t = app('origin as community', o)
    return f.decide_is(t, 'Ok') is True and f.decide_eq(('fld', ('pay', t, 'Ok', '0'), 'community_id'), x) is True


def m02(rep):
    R1, R2, R3 = 'community recognised only by its own origin or admin', 'community must exist and be active', 'account derived from the community\'s own identifier'
    w = World(rep)
    o = sym('origin')
    fn, im, ty = impl_fn(w, 'origin::EnsureCommunity', 'try_origin')
    where = at(im, fn)
    n = 0
    for r in run_fn(w, fn, im, ty, [o]):
        if r[0] == 'panic':
            rep.bad(R1, r[1][1], 'recognising a community can panic')
            continue
        for good, x, s in w.I.std.cases(w.I.rv(r[1], r[2]), 'Result', r[2]):
            if not good:
                rep.check(s.facts.decide_eq(x, o) is True, R1, where, 'a refused origin is not handed back')
                continue
            n += 1
            f = s.facts
            x = strip(w.I.deep(x, s))
            cell = ('sto', 'CommunityIdFor', (app('caller', o),))
            admin = f.decide_is(cell, 'Some') is True and f.decide_eq(('pay', cell, 'Some', '0'), x) is True
            rep.check(is_community(f, o, x) or admin, R1, where, 'an origin that is neither the community\'s own nor its admin\'s is recognised')
            sysref = app('as_system_ref', o)
            pl = ('pay', sysref, 'Some', '0')
            for v in ('Root', 'None'):
                excl = f.decide_is(sysref, 'Some') is False or f.decide_is(pl, v) is False or is_community(f, o, x)
                rep.check(excl or not admin, R1, where, 'the %s origin can be recognised as a community' % ('root' if v == 'Root' else 'unsigned'))
            ic = ('sto', 'Info', (x,))
            act = f.decide_is(ic, 'Some') is True and f.decide_is(('fld', ('pay', ic, 'Some', '0'), 'state'), 'Active') is True
            if not act:
                act = any(f.decide_eq(k[2][0], x) is True for k in [ic]) and f.decide_eq(('fld', ('pay', ic, 'Some', '0'), 'state'), ('adt', '::'.join(w.type('CommunityState').path), 'Active', ())) is True and f.decide_is(ic, 'Some') is True
            rep.check(act, R2, where, 'a community that does not exist or is not active is recognised')
    rep.check(n > 0, R1, where, 'no community is ever recognised')
    for name in ('origin::AsSignedByCommunity', 'origin::AsSignedByStaticCommunity'):
        fn, im, ty = impl_fn(w, name, 'try_origin')
        where = at(im, fn)
        n = 0
        for r in run_fn(w, fn, im, ty, [o]):
            if r[0] == 'panic':
                rep.bad(R3, r[1][1], 'reading the community can panic')
                continue
            for good, x, s in w.I.std.cases(w.I.rv(r[1], r[2]), 'Result', r[2]):
                if not good:
                    continue
                n += 1
                x = strip(w.I.deep(x, s))
                t = app('origin as community', o)
                cid = ('fld', ('pay', t, 'Ok', '0'), 'community_id')
                f = s.facts
                rep.check(f.decide_is(t, 'Ok') is True and f.decide_eq(x, account_of(cid)) is True, R3, where, 'an origin is seen as an account that is not its own community\'s')
                if 'Static' in name:
                    k = [v for v in consts(x, f, cid, w)]
                    rep.check(bool(k), R3, where, 'a community other than the configured one is accepted')
        rep.check(n > 0, R3, where, 'no community is ever seen as an account')
    # helpers used by other code
    fn, im, ty = impl_fn(w, 'Pallet', 'community_account')
    cid = sym('community')
    for r in run_fn(w, fn, im, ty, [cid]):
        if r[0] != 'panic':
            rep.check(r[2].facts.decide_eq(strip(w.I.deep(r[1], r[2])), account_of(cid)) is True, R3, at(im, fn), 'the account of a community is not derived from its identifier')
    fn, im, ty = impl_fn(w, 'origin::RawOrigin', 'new')
    for r in run_fn(w, fn, im, ty, [cid]):
        if r[0] != 'panic':
            rep.check(r[2].facts.decide_eq(w.field(r[1], 'community_id', r[2]), cid) is True and is_adt(w.field(r[1], 'subset', r[2]), 'None'), R3, at(im, fn), 'the origin made for a community is not its whole voice')
    fn, im, ty = impl_fn(w, 'origin::RawOrigin', 'id')
    me = sym('self')
    for r in run_fn(w, fn, im, ty, [me]):
        if r[0] != 'panic':
            rep.check(r[2].facts.decide_eq(strip(w.I.deep(r[1], r[2])), ('fld', me, 'community_id')) is True, R3, at(im, fn), 'a community origin does not report its own identifier')
    # membership as an origin
    R4 = 'member recognised only if signed and a member'
    fn, im, ty = impl_fn(w, 'origin::EnsureMember', 'try_origin')
    n = 0
    for r in run_fn(w, fn, im, ty, [o, cid]):
        if r[0] == 'panic':
            continue
        for good, x, s in w.I.std.cases(w.I.rv(r[1], r[2]), 'Result', r[2]):
            if good:
                n += 1
                f = s.facts
                t = app('origin as system', o)
                who = ('pay', ('pay', t, 'Ok', '0'), 'Signed', '0')
                rep.check(f.decide_is(t, 'Ok') is True and f.decide_is(('pay', t, 'Ok', '0'), 'Signed') is True and
                          f.decide(app('MemberMgmt::is_member_of', cid, who)) is True, R4, at(im, fn), 'an origin that is not a signed member is recognised as a member')
    rep.check(n > 0, R4, at(im, fn), 'no member is ever recognised')
    w.done()
    return 'Every way through the functions that recognise communities and members in an origin, and that turn communities into accounts.'


def consts(x, f, cid, w):
    """configured constants known equal to the identifier on the path"""
    for t, v in f.log:
        if t[0] == 'eq' and v is True:
            a, b = t[1:]
            for y, z in ((a, b), (b, a)):
                if f.decide_eq(y, cid) is True and z != cid and not has(z, ('sym', 'origin', None)):
                    yield z


def m03(rep):
    R1, R2, R3, R4 = 'identifier and administrator unused', 'deposit paid first', 'handover frees the previous administrator and takes nobody\'s community', 'community starts active and alive'
    for w, c, good, bad in each(rep):
        for pa in good:
            ids, info = pa.of('CommunityIdFor'), pa.of('Info')
            if c.name == 'create':
                adm, cid = c.args['admin_origin'], c.args['community_id']
                k = (pa.f.canon(adm),)
                rep.check(k in ids and ids[k][0] is not None and pa.same(ids[k][0], cid) and len(ids) == 1, R1, c.where, 'the administrator is not registered for the new community')
                kc = (pa.f.canon(cid),)
                rep.check(kc in info and info[kc][0] is not None and len(info) == 1, R4, c.where, 'the community is not recorded')
                register(rep, w, c, pa, adm, cid, (R1, R2, R4))
            elif c.name == 'set_admin_origin':
                me = [a for o, a in pa.auth() if o == 'AdminOrigin']
                old = pa.f.canon(app('caller', c.argv[0]))
                new = pa.f.canon(c.args['admin_origin'])
                if not me:
                    rep.bad(R3, c.where, 'the administration is handed over without authority')
                    continue
                rep.check((new,) in ids and ids[(new,)][0] is not None and pa.same(ids[(new,)][0], me[0]), R3, c.where, 'the new administrator is not registered')
                ce = ('sto', 'CommunityIdFor', (new,))
                if new != old:
                    rep.check((old,) in ids and ids[(old,)][0] is None, R3, c.where, 'the previous administrator keeps the community')
                    taken = pa.f.decide_is(ce, 'Some') is False or pa.same(('pay', ce, 'Some', '0'), me[0])
                    rep.check(taken or pa.f.decide_eq(new, old) is True, R3, c.where, 'the new administrator\'s previous community is lost', 'handover to the administrator of another community')
                co = ('sto', 'CommunityIdFor', (old,))
                rep.check(pa.f.decide_is(co, 'Some') is True and pa.same(('pay', co, 'Some', '0'), me[0]), R3, c.where, 'an origin that is not the registered administrator hands the community over')
                rep.check(all(x in ((old,), (new,)) for x in ids) and not info, R3, c.where, 'a handover changes other communities')
            else:
                for k, (v, where) in list(ids.items()) + list(info.items()):
                    rep.bad(R1, where, '%s changes the registry of communities' % c.name)
    register_fn(rep, (R1, R2, R4))
    return 'Registry writes, payment of the deposit and the facts known at each, on every way through the calls and the registration function other pallets use.'


def register(rep, w, c, pa, adm, cid, R):
    R1, R2, R4 = R
    f = pa.f
    rep.check(f.decide_is(('sto', 'Info', (cid,)), 'Some') is False, R1, pa.where('write'), 'an identifier in use can be registered again')
    rep.check(f.decide_is(('sto', 'CommunityIdFor', (adm,)), 'Some') is False, R1, pa.where('write'), 'an administrator of a community can register another')
    dep = [a for o, a in pa.auth() if o == 'CreateOrigin']
    deposit(rep, pa, dep[0] if dep else None, R2, c)
    for k, (v, where) in pa.of('Info').items():
        if v is not None:
            st_ = w.field(v, 'state', pa.st)
            rep.check(is_adt(st_, 'Active'), R4, where, 'a community does not start active')
    prov = [e for e in pa.eff if e[0] == 'inc_providers']
    rep.check(len(prov) == 1 and pa.same(prov[0][1], account_of(cid)), R4, pa.where('write'), 'the account of a new community is not kept alive')


def deposit(rep, pa, dep, rule, c):
    f = pa.f
    if dep is None:
        rep.bad(rule, c.where, 'a community is registered without authority')
        return
    moves = [e for e in pa.eff if e[0] == 'fund']
    if f.decide_is(dep, 'Some') is True:
        t = ('pay', dep, 'Some', '0')
        want = (('fld', t, '1'), ('fld', t, '2'), ('fld', t, '0'))
        good = len(moves) == 1 and moves[0][1] == 'transfer' and all(pa.same(a, b) for a, b in zip(moves[0][3:6], want))
        rep.check(good, rule, pa.where('fund', 'write'), 'the deposit due is not paid')
        for e in pa.eff:
            if e[0] == 'mode':
                rep.check(is_adt(e[-3], 'Preserve'), rule, e[-1], 'the deposit can close the account of the depositor')
    elif f.decide_is(dep, 'Some') is False:
        rep.check(not moves, rule, pa.where('fund', 'write'), 'a deposit is taken when none is due')
    else:
        rep.bad(rule, pa.where('fund', 'write'), 'the deposit due is not considered')


def register_fn(rep, R):
    """the function through which other pallets register communities"""
    R1, R2, R4 = R
    w = World(rep)
    fn, im, ty = impl_fn(w, 'Pallet', 'register')
    adm, cid, dep = sym('admin'), sym('community'), sym('deposit')
    w.I.note_type(dep, ('t', 'Option', (('inf',),)))
    c = frame.Call(w, fn, im, None)
    for o in run_fn(w, fn, im, ty, [adm, cid, dep]):
        if o[0] == 'panic':
            continue
        for good, x, s in w.I.std.cases(w.I.rv(o[1], o[2]), 'Result', o[2]):
            if not good:
                continue
            pa = Path(w, c, s)
            f = pa.f
            rep.check(f.decide_is(('sto', 'Info', (cid,)), 'Some') is False, R1, c.where, 'an identifier in use can be registered again')
            rep.check(f.decide_is(('sto', 'CommunityIdFor', (adm,)), 'Some') is False, R1, c.where, 'an administrator of a community can register another')
            deposit(rep, pa, dep, R2, c)
            ids, info = pa.of('CommunityIdFor'), pa.of('Info')
            rep.check([k for k in ids] == [(f.canon(adm),)] and pa.same(ids[(f.canon(adm),)][0] or UNIT, cid), R1, c.where, 'the administrator is not registered for the new community')
            for k, (v, where) in info.items():
                rep.check(k == (f.canon(cid),) and v is not None and is_adt(w.field(v, 'state', s), 'Active'), R4, where, 'a community does not start active')
            rep.check(len(info) == 1, R4, c.where, 'the community is not recorded')
            prov = [e for e in pa.eff if e[0] == 'inc_providers']
            rep.check(len(prov) == 1 and pa.same(prov[0][1], account_of(cid)), R4, c.where, 'the account of a new community is not kept alive')
            fails = [e for e in pa.eff if e[0] == 'failed']
            rep.check(not fails, R2, c.where, 'a registration goes through although a step failed')
    w.done()


def membership(pa, who, m):
    t = app('MemberMgmt::check_membership', who, m)
    if pa.f.decide_is(t, 'Some') is True:
        return ('pay', t, 'Some', '0')
    return None


def weight(w, f, vote):
    """weight of a vote whose kind is known"""
    v = kind(f, vote)
    if v == 'Standard':
        return I(1)
    bal = part(vote, v, '2' if v == 'AssetBalance' else '1')
    return app('saturated', bal, ('ty', ('t', 'u32', ())))


def kind(f, vote):
    if vote[0] == 'adt':
        return vote[2]
    return f.variant(vote)


def part(vote, v, i):
    if vote[0] == 'adt':
        return dict(vote[3])[i]
    return ('pay', vote, v, i)


def say(f, vote):
    return part(vote, kind(f, vote), '0')


def m04(rep):
    R1, R2, R3, R4 = 'voter holds the membership', 'poll ongoing and of the member\'s community', 'kind of vote fits the decision method', 'vote has weight'
    for w, c, good, bad in each(rep):
        for pa in good:
            f = pa.f
            votes = pa.of('CommunityVotes')
            if c.name not in ('vote', 'remove_vote'):
                for k, (v, where) in votes.items():
                    rep.bad(R1, where, '%s changes votes' % c.name)
                for e in pa.effects('tally'):
                    rep.bad(R1, e[-1], '%s changes a tally' % c.name)
                continue
            who = [a for o, a in pa.auth() if o == 'Signed' and a[2][1] == c.argv[0]]
            m, p = c.args['membership_id'], c.args['poll_index']
            if not rep.check(bool(who), R1, c.where, '%s goes through without a signer' % c.name):
                continue
            who = who[0]
            com = membership(pa, who, m)
            if not rep.check(com is not None, R1, c.where, '%s goes through for somebody who does not hold the membership' % c.name):
                continue
            rep.check(f.decide(app('ongoing', p)) is True, R2, c.where, '%s goes through for a poll that is not ongoing' % c.name)
            rep.check(set(votes) == {(f.canon(p), f.canon(m))}, R1, c.where, '%s changes the vote of another membership or poll' % c.name)
            for k, (v, where) in votes.items():
                if c.name == 'remove_vote':
                    rep.check(v is None, R1, where, 'the vote stays recorded')
                else:
                    rep.check(v is not None and pa.same(w.field(v, '0', pa.st), c.args['vote']) and pa.same(w.field(v, '1', pa.st), who), R1, where, 'the vote recorded is not the one cast by the caller')
            if c.name == 'remove_vote':
                continue
            rep.check(pa.same(app('class', p), com), R2, c.where, 'a vote goes through in a poll of another community')
            vote = c.args['vote']
            method = ('sto', 'CommunityDecisionMethod', (com,))
            kv, km = f.variant(vote), f.variant(method)
            if kv is None:
                rep.bad(R3, c.where, 'the kind of vote is not considered')
                continue
            fits = False
            if kv == 'AssetBalance':
                fits = km == 'CommunityAsset' and pa.same(('pay', vote, kv, '1'), ('pay', method, km, '0'))
                if fits:
                    rep.check(f.decide(('lt', ('pay', vote, kv, '2'), ('pay', method, km, '1'))) is False, R4, c.where, 'a vote below the minimum goes through')
            elif kv == 'NativeBalance':
                fits = km == 'NativeToken'
            else:
                e = f.var.get(f.canon(method))
                neg = set(e[1]) if e else set()
                fits = km in ('Membership', 'Rank') or (km is None and {'NativeToken', 'CommunityAsset'} <= neg)
            rep.check(fits, R3, c.where, 'a vote of kind %s goes through under the decision method %s' % (kv, km or 'of any kind'))
            wt = weight(w, f, vote)
            rep.check(f.decide(('lt', I(0), wt)) is True, R4, c.where, 'a vote of zero weight goes through')
    return 'Facts known at the end of every successful way through voting and removing votes; votes and tallies untouched by every other call.'


def mult(w, f, com, m):
    """[(multiplier, facts)]: the member's rank under the rank method, else one"""
    method = ('sto', 'CommunityDecisionMethod', (com,))
    return method


def m05(rep):
    R1, R2, R3 = 'tally changes by exactly the votes cast and removed', 'at most one vote per membership and poll', 'removal depends only on the vote in force'
    R4 = 'weights do not overflow'
    for w, c, good, bad in each(rep, {'vote', 'remove_vote'}):
        if c.name not in ('vote', 'remove_vote'):
            for pa in good:
                for k, (v, where) in pa.of('CommunityVotes').items():
                    rep.bad(R2, where, '%s changes a recorded vote' % c.name)
                for k, v in pa.st.glob.get('tally', ()):
                    rep.bad(R1, c.where, '%s changes a tally' % c.name)
            continue
        for pa in good:
            m, p = c.args['membership_id'], c.args['poll_index']
            for e in pa.effects('arith'):
                rep.check(e[1].startswith('sat'), R4, e[-1], '%s: the weight of a vote can overflow' % c.name)
            who = [a for o, a in pa.auth() if o == 'Signed']
            com = who and membership(pa, who[0], m)
            if not com:
                rep.bad(R1, c.where, 'no membership')
                continue
            cell = ('sto', 'CommunityVotes', (p, m))
            had = pa.f.decide_is(cell, 'Some')
            old = ('fld', ('pay', cell, 'Some', '0'), '0')
            mine = None
            for k, (v, where) in pa.of('CommunityVotes').items():
                if rep.check(pa.same(k[0], p) and pa.same(k[1], m), R2, where, '%s changes the recorded vote of another membership or poll' % c.name):
                    mine = (v, where)
            if c.name == 'vote':
                rep.check(mine is not None and mine[0] is not None and pa.same(w.field(mine[0], '0', pa.st), c.args['vote']) and pa.same(w.field(mine[0], '1', pa.st), who[0]),
                          R2, mine[1] if mine else c.where, 'the vote cast is not recorded for the membership and its voter')
            else:
                rep.check(mine is not None and mine[0] is None, R2, mine[1] if mine else c.where, 'the vote removed stays recorded')
            if had is None:
                rep.bad(R2, c.where, '%s does not consider an earlier vote of the membership' % c.name)
                continue
            rep.ok(R2, c.where)
            new = c.args['vote'] if c.name == 'vote' else None
            if c.name == 'remove_vote' and not had:
                rep.bad(R2, c.where, 'a vote that was not cast is removed')
                continue
            method = ('sto', 'CommunityDecisionMethod', (com,))
            rank = app('MemberMgmt::rank_of', com, m)
            w.I.note_type(rank, ('t', 'Option', (('t', 'GenericRank', ()),)))
            cases = [pa.st]
            vt = w.I.typeof(c.args['vote'])if new else None
            dm = next(x for x in w.model.sto.values() if x.name == 'CommunityDecisionMethod').val
            for v in ([new] if new else []) + ([old] if had else []):
                t = w.type('Vote')
                cases = [s for s0 in cases for s in enum_cases(w, v, '::'.join(t.path), VOTES, s0)]
                cases = [s for s0 in cases for b, s in w.I.branch(s0, say(s0.facts, v))]
            cases = [s for s0 in cases for s in enum_cases(w, method, dm[1], ('Membership', 'NativeToken', 'CommunityAsset', 'Rank'), s0)]
            cases = [s for s0 in cases for s in enum_cases(w, rank, 'Option', ('Some', 'None'), s0)]
            for s in cases:
                f = s.facts
                mu = I(1)
                if f.variant(method) == 'Rank':
                    mu = ('pay', rank, 'Some', '0') if f.variant(rank) == 'Some' else I(0)
                base = app('tally', p)
                E = {k: ('fld', base, k) for k in ('ayes', 'nays', 'bare_ayes')}
                for v, sign in ((old, -1), (new, 1)):
                    if v is None or (v is old and not had):
                        continue
                    wt = weight(w, f, v)
                    aye = f.decide(say(f, v)) is True
                    E['ayes' if aye else 'nays'] = ladd(E['ayes' if aye else 'nays'], product(mu, wt), sign)
                    if aye:
                        E['bare_ayes'] = ladd(E['bare_ayes'], wt, sign)
                T = None
                for k, v in reversed(pa.st.glob.get('tally', ())):
                    if f.decide_eq(k, p) is True:
                        T = v
                        break
                extra = [k for k, v in pa.st.glob.get('tally', ()) if f.decide_eq(k, p) is not True]
                rep.check(not extra, R1, c.where, 'the tally of another poll changes')
                if T is None:
                    rep.bad(R1, c.where, '%s does not reach the tally' % c.name)
                    continue
                for k in E:
                    d = f.canon(lsub(rank_norm(w.field(T, k, s)), E[k]))
                    d = rank_norm(d)
                    rep.check(d == I(0) or f.decide_eq(d, I(0)) is True, R1, pa.where('tally'), '%s: %s does not change by the votes cast and removed' % (c.name, k),
                              '%s: wrong change of %s' % (c.name, k))
                if had and f.variant(method) == 'Rank' and any(has(f.canon(w.field(T, k, s)), f.canon(rank)) for k in ('ayes', 'nays')):
                    rep.bad(R3, pa.where('tally'), 'a vote is taken out with the rank and decision method in force now, not those it was counted with', 'removal weighs the vote with current rank and method')
    rep.assumptions.append('the totals of a poll stay within the range of the weight type')
    return 'Difference between the tally before and after on every way through voting and removing a vote, for every kind of vote, side, decision method and rank, with and without an earlier vote.'


def rank_norm(t):
    """the default rank is zero"""
    if isinstance(t, tuple):
        if t[:2] == ('app', 'default') and len(t[2]) == 1:
            return I(0)
        if t and t[0] == 'app' and t[1] == 'mul' and any(rank_norm(x) == I(0) for x in t[2]):
            return I(0)
        if t and t[0] == 'lin':
            out = I(t[2])
            for a, c in t[1]:
                out = ladd(out, rank_norm(a), c)
            return out
        if t and t[0] == 'app':
            return ('app', t[1], tuple(rank_norm(x) for x in t[2]))
    return t


def product(a, b):
    if a[0] == 'int':
        return lmul(b, a[1])
    if b[0] == 'int':
        return lmul(a, b[1])
    return app('mul', *sorted((a, b), key=repr))


def enum_cases(w, v, ty, variants, st):
    """states in which the variant is known"""
    out, pend = [], [st]
    for x in variants:
        nxt = []
        for s in pend:
            for b, s2 in w.I.test_variant(v, ty, x, s):
                (out if b else nxt).append(s2)
        pend = nxt
    return out


def m06(rep):
    R1, R2, R3, R4 = 'vote with funds is locked and frozen', 'freeze after removal is the largest remaining lock', 'unlock only after the poll', 'each vote keeps its own lock'
    most = 3 if P.THOROUGH else 2
    for k in range(most + 1):
        for w, c, good, bad in each(rep, {'vote', 'remove_vote', 'unlock'}, k):
            for pa in good:
                m06_path(rep, w, c, pa, (R1, R2, R3, R4))
    return 'Locks and frozen amounts at the end of every way through voting, removing and unlocking, for voters with up to %d further locks of any kind, asset and amount.' % most


def m06_path(rep, w, c, pa, R):
    R1, R2, R3, R4 = R
    if c.name not in ('vote', 'remove_vote', 'unlock'):
        for e in pa.effects('freeze'):
            rep.bad(R1, e[-1], '%s changes frozen funds' % c.name)
        for k, (v, where) in pa.of('CommunityVoteLocks').items():
            rep.bad(R1, where, '%s changes locks' % c.name)
        return
    p = c.args['poll_index']
    caller = [a for o, a in pa.auth() if o == 'Signed']
    if not caller:
        rep.bad(R1, c.where, 'no signer')
        return
    caller = caller[0]
    vty = '::'.join(w.type('Vote').path)
    states = [pa.st]
    removed = None
    voter = caller
    if c.name == 'unlock':
        rep.check(pa.f.decide(app('ongoing', p)) is False, R3, c.where, 'funds are unlocked while the poll is ongoing')
        lc = ('sto', 'CommunityVoteLocks', (caller, p))
        if not rep.check(pa.f.decide_is(lc, 'Some') is True, R3, c.where, 'unlocking goes through without a lock'):
            return
        removed = ('pay', lc, 'Some', '0')
        w.I.note_type(removed, ('t', vty, ()))
    else:
        m = c.args['membership_id']
        cell = ('sto', 'CommunityVotes', (p, m))
        if pa.f.decide_is(cell, 'Some') is True:
            removed = ('fld', ('pay', cell, 'Some', '0'), '0')
            voter = ('fld', ('pay', cell, 'Some', '0'), '1')
    new = c.args['vote'] if c.name == 'vote' else None
    locks = pa.of('CommunityVoteLocks')
    for v in [x for x in (removed, new) if x is not None]:
        states = [s for s0 in states for s in enum_cases(w, v, vty, VOTES, s0)]
    if removed is not None and new is not None:
        states = [s for s0 in states for b, s in w.I.branch(s0, w.I.std.eq(voter, caller, s0))]
    others = w.model.other_locks(voter)
    for s in states:
        f = s.facts
        fund = lambda v: v is not None and kind(f, v) != 'Standard'
        asset = lambda v: ('s', 'native') if kind(f, v) == 'NativeBalance' else part(v, 'AssetBalance', '1')
        amount = lambda v: part(v, kind(f, v), '1' if kind(f, v) == 'NativeBalance' else '2')
        frozen = {}
        for key, v in s.glob.get('frozen', ()):
            frozen[tuple(f.canon(x) for x in key)] = v
        fk = lambda a, who: (f.canon(a), f.canon(who))
        lk = {tuple(f.canon(x) for x in k): v for k, v in locks.items()}
        expect_keys = set()
        if fund(removed):
            k = (f.canon(voter), f.canon(p))
            if not (fund(new) and k == (f.canon(caller), f.canon(p))):
                rep.check(k in lk and lk[k][0] is None, R2, c.where, '%s leaves the lock of the vote taken away' % c.name)
            expect_keys.add(k)
            fz = frozen.get(fk(asset(removed), voter))
            final = new is not None and fund(new) and f.decide_eq(asset(new), asset(removed)) is True and f.decide_eq(voter, caller) is True
            expect = fk(asset(removed), voter)
            if not rep.check(fz is not None, R2, c.where, '%s leaves the funds of the vote taken away frozen' % c.name):
                continue
            # largest of the remaining locks of the asset
            rest = [(v, amt) for v, amt in remaining(w, f, others, asset(removed), s)]
            if rest is None:
                continue
            und = [v for v, a in rest if a is None]
            if und:
                sub = [s]
                for pl, v in others:
                    sub = [x for s0 in sub for x in enum_cases(w, v, vty, VOTES, s0)]
                    sub = [x for s0 in sub for x in asset_cases(w, v, asset(removed), s0)]
            else:
                sub = [s]
            for s2 in sub:
                f2 = s2.facts
                am = [a for v, a in remaining(w, f2, others, asset(removed), s2) if a not in (None, 'no')]
                if final:
                    am = am + [amount(new)]
                    good = all(le(f2, a, fz) for a in am)
                    rep.check(good, R1, pa.where('freeze'), '%s freezes less than a remaining lock' % c.name)
                else:
                    good = all(le(f2, a, fz) for a in am) and (any(f2.decide_eq(fz, a) is True for a in am) or (f2.decide_eq(fz, I(0)) is True))
                    rep.check(good, R2, pa.where('freeze'), '%s: the amount left frozen is not the largest remaining lock of the asset' % c.name,
                              '%s: frozen amount is not the largest remaining lock' % c.name)
        if fund(new):
            k = (f.canon(caller), f.canon(p))
            expect_keys.add(k)
            rep.check(k in lk and lk[k][0] is not None and f.decide_eq(lk[k][0], new) is True, R1, c.where, 'a vote with funds is not recorded as a lock')
            fz = frozen.get(fk(asset(new), caller))
            if fz is None and le(f, amount(new), app('frozen', asset(new), caller)):
                fz = app('frozen', asset(new), caller)          # enough is frozen already
            if rep.check(fz is not None, R1, c.where, 'the funds of a vote are not frozen'):
                rep.check(le(f, amount(new), fz), R1, pa.where('freeze'), 'less than the funds voted with is frozen')
                if not (fund(removed) and f.decide_eq(asset(new), asset(removed)) is True and f.decide_eq(voter, caller) is True):
                    rep.check(le(f, app('frozen', asset(new), caller), fz), R1, pa.where('freeze'), 'an existing freeze is reduced by a vote')
        allowed = set()
        if fund(new):
            allowed.add(fk(asset(new), caller))
        if fund(removed):
            allowed.add(fk(asset(removed), voter))
        for k in frozen:
            rep.check(k in allowed, R2, pa.where('freeze'), '%s changes a freeze it has nothing to do with' % c.name)
        for k in lk:
            rep.check(k in expect_keys, R2, c.where, '%s changes a lock it has nothing to do with' % c.name)
    for e in pa.effects('freeze'):
        r = e[3]
        rep.check(is_adt(r, 'VoteCasted'), R1, e[-1], 'funds are frozen under another reason')
    S = next(x for x in w.model.sto.values() if x.name == 'CommunityVoteLocks')
    V_ = next(x for x in w.model.sto.values() if x.name == 'CommunityVotes')
    if c.name != 'unlock':
        shared = len(S.keys) <= 2 and not any('MembershipId' in repr(t) for t in S.keys)
        rep.check(not shared, R4, '%s:%s' % (S.mod.file, S.node['l']), 'votes of several memberships of one account in a poll share one lock: taking one away frees the funds of the others',
                  'one lock per voter and poll')


def remaining(w, f, others, asset, s):
    """[(lock, amount | 'no' | None when unknown)]"""
    out = []
    for p, v in others:
        k = f.variant(v)
        if k is None:
            out.append((v, None))
        elif k == 'Standard':
            out.append((v, 'no'))
        elif k == 'NativeBalance':
            out.append((v, ('pay', v, k, '1') if asset == ('s', 'native') else 'no'))
        else:
            if asset == ('s', 'native'):
                out.append((v, 'no'))
                continue
            d = f.decide_eq(('pay', v, k, '1'), asset)
            out.append((v, ('pay', v, k, '2') if d is True else 'no' if d is False else None))
    return out


def asset_cases(w, v, asset, st):
    if st.facts.variant(v) != 'AssetBalance' or asset == ('s', 'native'):
        return [st]
    return [s for b, s in w.I.branch(st, w.I.std.eq(('pay', v, 'AssetBalance', '1'), asset, st))]


def le(f, a, b):
    return f.decide_eq(a, b) is True or f.decide(('lt', b, a)) is False or a == I(0)


def m07(rep):
    R1, R2, R3, R4 = 'approval is the share of ayes', 'support is the share of everything that could be cast', 'no overflow', 'tally starts at zero and reports its ayes'
    w = World(rep)
    w.model.sat_exact = False
    w.model.strict = True
    d = w.model.tally_def
    cid = sym('community')
    p = sym('poll')
    t = w.model.tally_now(p, State())
    fl = dict(t[3])
    A, N, Bb = fl['ayes'], fl['nays'], fl['bare_ayes']
    for name in ('approval', 'support', 'ayes', 'new'):
        fn, im, ty = impl_fn(w, 'Tally', name, 'VoteTally')
        where = at(im, fn)
        args = [cid] if name == 'new' else [t, cid]
        for o in run_fn(w, fn, im, ty, args):
            if o[0] == 'panic':
                rep.bad(R3, o[1][1], '%s can overflow: %s' % (name, o[1][0]), '%s overflows' % name)
                continue
            rep.ok(R3, where)
            s = o[2]
            v = strip(w.I.deep(o[1], s))
            f = s.facts
            if name == 'ayes':
                rep.check(f.decide_eq(v, A) is True, R4, where, 'a tally does not report its ayes')
            elif name == 'new':
                for k in ('ayes', 'nays', 'bare_ayes'):
                    rep.check(f.decide_eq(w.field(v, k, s), I(0)) is True, R4, where, 'a new tally does not start at zero')
            elif name == 'approval':
                for z, s2 in w.I.branch(s, ('lt', I(0), ladd(A, N))):
                    f2 = s2.facts
                    if v[:2] != ('app', 'ratio'):
                        rep.bad(R1, where, 'approval is not a fraction')
                        continue
                    a, b = v[2]
                    if z:
                        rep.check(f2.decide_eq(a, A) is True and f2.decide_eq(b, ladd(A, N)) is True, R1, where, 'approval is not the ayes over all votes')
                    else:
                        zero = f2.assume(('eq', A, I(0)), True)
                        rep.check(zero is None or (zero.decide_eq(a, I(0)) is True and (zero.decide_eq(b, I(0)) is False or zero.decide(('lt', I(0), b)) is True)), R1, where, 'an empty tally has approval or divides by zero')
            else:
                method = ('sto', 'CommunityDecisionMethod', (cid,))
                km = f.variant(method)
                if v[:2] != ('app', 'ratio') or km is None:
                    rep.bad(R2, where, 'support does not depend on the decision method')
                    continue
                a, b = v[2]
                u32 = ('ty', ('t', 'u32', ()))
                want = {'Membership': app('MemberMgmt::members_total', cid), 'Rank': app('MemberMgmt::ranks_total', cid),
                        'NativeToken': app('saturated', app('Balances::total_issuance'), u32),
                        'CommunityAsset': app('saturated', app('Assets::total_issuance', ('pay', method, 'CommunityAsset', '0')), u32)}[km]
                rep.check(f.decide_eq(a, Bb) is True and f.decide_eq(b, want) is True, R2, where, 'support under %s is not the bare ayes over what could be cast' % km)
    w.done()
    return 'Result of every way through the four functions of the tally, for every tally value and decision method.'


def m08(rep):
    R1, R2, R3 = 'dispatched signed by the community\'s account', 'outcome of the inner call is reported', 'declared weight covers the inner call'
    for w, c, good, bad in each(rep):
        for pa in good:
            ds = pa.effects('dispatch')
            if c.name != 'dispatch_as_account':
                for e in ds:
                    rep.bad(R1, e[-1], '%s dispatches a call' % c.name)
                continue
            me = [a for o, a in pa.auth() if o == 'MemberMgmtOrigin']
            if not rep.check(len(ds) == 1 and bool(me), R1, c.where, 'the call is dispatched %d times' % len(ds)):
                continue
            e = ds[0]
            org = e[3]
            rep.check(is_adt(org, 'Signed') and pa.same(dict(org[3])['0'], account_of(me[0])), R1, e[-1], 'the call is not dispatched signed by the community\'s account')
            rep.check(e[1] == 'dispatch', R1, e[-1], 'the call is dispatched past the filter')
            rep.check(pa.same(e[2], c.args['call']), R1, e[-1], 'another call is dispatched')
            rep.check(not pa.effects('origin changed'), R1, e[-1], 'the origin carries more than the signature')
            rep.check(not pa.effects('failed'), R2, e[-1], 'the failure of the inner call is not reported')
        if c.name == 'dispatch_as_account':
            for pa in good:
                if pa.effects('failed'):
                    rep.bad(R2, c.where, 'the failure of the inner call is not reported')
            weight_covers(rep, R3, w, c)
    return 'Dispatch effects on every way through every call, the error of the inner dispatch, and the weight expression of the call.'


def weight_covers(rep, rule, w, c):
    """the declared weight contains the whole weight of the inner call as a summand"""
    at_ = [a for a in c.fn.get('attrs') or () if a['path'] == 'pallet::weight']
    if not at_ or not at_[0].get('args'):
        rep.bad(rule, c.where, 'no weight is declared for the call')
        return
    exprs = at_[0]['args']
    info = app('dispatch info', c.args['call'])
    from .interp import Env
    ok_ = True
    for e in exprs[:1]:
        env = Env(c.im.mod, c.im.self_ty, dict(c.im.gen))
        st = State()
        a, st = w.I.alloc(c.args['call'], st)
        env.vars['call'] = a
        for o in w.I.ev(e, env, st):
            if o[0] != 'v':
                ok_ = False
                continue
            v = strip(w.I.deep(o[1], o[2]))
            if v[0] == 'tup':
                v = v[1][0]
            ok_ = ok_ and summand(v, c.args['call'])
    rep.check(ok_, rule, c.where, 'the declared weight does not cover the inner call')


def summand(v, call):
    """is the inner call's weight a summand?"""
    if v[0] == 'lin':
        return any(c >= 1 and summand(a, call) for a, c in v[1])
    if v[0] == 'fld' and v[2] in ('weight', 'call_weight'):
        return has(v[1], call) and v[1][0] == 'app' and 'get_dispatch_info' in str(v[1][1])
    if v[0] == 'app' and v[1] in ('saturating_add', 'add', 'max', 'total_weight'):
        return any(summand(x, call) for x in v[2]) or (v[1] == 'total_weight' and has(v, call))
    return False


def m09(rep):
    R1, R2, R3, R4 = 'membership handed out is free and the community\'s own', 'membership taken back is held by the account', 'rank moves one step', 'event tells what happened'
    for w, c, good, bad in each(rep):
        for pa in good:
            ms = pa.effects('member')
            if c.name not in ('add_member', 'remove_member', 'promote', 'demote'):
                for e in ms:
                    rep.bad(R1, e[-1], '%s changes memberships' % c.name)
                continue
            if pa.effects('failed'):
                rep.bad(R4, c.where, '%s goes through although a step failed' % c.name)
                continue
            me = [a for o, a in pa.auth() if o == 'MemberMgmtOrigin']
            evs = pa.effects('event')
            if not rep.check(len(ms) == 1 and bool(me), R1, c.where, '%s makes %d changes of memberships' % (c.name, len(ms))):
                continue
            me, e = me[0], ms[0]
            rep.check(len(evs) == 1, R4, c.where, '%s emits %d events' % (c.name, len(evs)))
            ev = evs[0][1] if evs else UNIT
            d = dict(ev[3]) if ev[0] == 'adt' else {}
            if c.name == 'add_member':
                who = app('lookup', c.args['who'])
                free = [app('MemberMgmt::user_memberships', account_of(me), x) for x in (NONE, some(me))]
                free += [app('MemberMgmt::' + k, account_of(me)) for k in ('user_memberships', 'memberships')]
                cand = [('fld', ('elem', t, I(i)), '1') for t in free for i in range(2)]
                rep.check(e[1] == 'assign' and pa.same(e[2], me) and any(pa.same(e[3], x) for x in cand), R1, e[-1], 'the membership handed out is not a free one of the community')
                rep.check(pa.same(e[4], who), R1, e[-1], 'the membership is handed to another account')
                rep.check(ev[2] == 'MemberAdded' and pa.same(d.get('who'), who) and pa.same(d.get('membership_id'), e[3]), R4, evs[0][-1], 'the event does not tell the member added')
            elif c.name == 'remove_member':
                who = app('lookup', c.args['who'])
                m = c.args['membership_id']
                rep.check(e[1] == 'release' and pa.same(e[2], me) and pa.same(e[3], m), R2, e[-1], 'another membership is taken back')
                com = membership(pa, who, m)
                rep.check(com is not None and pa.same(com, me), R2, e[-1], 'a membership is taken back that the account does not hold', 'membership not checked against its holder')
                rep.check(ev[2] == 'MemberRemoved' and pa.same(d.get('who'), who) and pa.same(d.get('membership_id'), m), R4, evs[0][-1], 'the event does not tell the member removed')
            else:
                m = c.args['membership_id']
                r = app('MemberMgmt::rank_of', me, m)
                now = ('pay', r, 'Some', '0')
                want = app(c.name + '_by', now, one())
                rep.check(pa.f.decide_is(r, 'Some') is True and e[1] == 'set_rank' and pa.same(e[2], me) and pa.same(e[3], m) and is_step(pa, e[4], want), R3, e[-1],
                          '%s does not move the rank of the membership by one step' % c.name)
                rep.check(ev[2] == 'MembershipRankUpdated' and pa.same(d.get('membership_id'), m) and pa.same(d.get('rank'), e[4]), R4, evs[0][-1], 'the event of %s does not tell the rank now in force' % c.name,
                          'event of %s tells another rank' % c.name)
    return 'Membership operations and events on every way through every call.'


def one():
    return I(1)


def is_step(pa, v, want):
    if pa.same(v, want):
        return True
    return v[:2] == want[:2] and pa.same(v[2][0], want[2][0]) and v[2][1] == I(1)


def m10(rep):
    R1, R2 = 'community origin becomes its own plurality', 'plurality becomes the community with the same index and part'
    w = World(rep)
    # origin -> junction
    d = w.type('origin::RawOrigin')
    ro = ('t', '::'.join(d.path), (('param', 'T'),))
    sub = w.type('origin::Subset')
    found = None
    for im in w.p.impls():
        if im.trait_name == 'TryFrom' and im.trait_args and im.trait_args[0][:2] == ro[:2] and 'try_from' in im.fns:
            found = im
    if found is None:
        raise P.SourceError(d.mod.file, 0, 'no conversion of a community origin')
    fn, im = found.fns['try_from'], found
    where = at(im, fn)
    o = sym('origin')
    w.I.note_type(o, ro)
    org = ('adt', ro[1], None, (('community_id', ('fld', o, 'community_id')), ('subset', ('fld', o, 'subset'))))
    w.I.note_type(('fld', o, 'subset'), ('t', 'Option', (('t', '::'.join(sub.path), (('param', 'T'),)),)))
    kinds = set()
    for r in run_fn(w, fn, im, im.self_ty, [org]):
        if r[0] == 'panic':
            rep.bad(R1, r[1][1], 'the conversion can panic')
            continue
        for good, x, s in w.I.std.cases(w.I.rv(r[1], r[2]), 'Result', r[2]):
            for s1 in [y for s0 in enum_cases(w, ('fld', o, 'subset'), 'Option', ('Some', 'None'), s) for y in ([s0] if s0.facts.variant(('fld', o, 'subset')) == 'None' else enum_cases(w, ('pay', ('fld', o, 'subset'), 'Some', '0'), '::'.join(sub.path), [v['id'] for v in sub.node['variants']], s0))]:
                f = s1.facts
                so = ('fld', o, 'subset')
                ss = ('pay', so, 'Some', '0')
                k = 'whole' if f.variant(so) == 'None' else f.variant(ss)
                if not good:
                    rep.check(k not in ('whole', 'Members', 'Fraction'), R1, where, 'the voice of a community (%s) cannot be sent' % k)
                    continue
                kinds.add(k)
                j = strip(w.I.deep(x, s1))
                if not rep.check(is_adt(j, 'Plurality'), R1, where, 'a community origin does not become a plurality'):
                    continue
                fl = dict(j[3])
                rep.check(is_adt(fl['id'], 'Index') and f.decide_eq(dict(fl['id'][3])['0'], ('fld', o, 'community_id')) is True, R1, where, 'the plurality is not the community\'s index')
                pt = fl['part']
                pf = dict(pt[3]) if pt[0] == 'adt' else {}
                if k == 'whole':
                    good2 = is_adt(pt, 'Voice')
                elif k == 'Members':
                    good2 = is_adt(pt, 'Members') and f.decide_eq(pf['count'], ('pay', ss, 'Members', 'count')) is True
                elif k == 'Member':
                    good2 = is_adt(pt, 'Members') and f.decide_eq(pf['count'], I(1)) is True
                elif k == 'Fraction':
                    good2 = is_adt(pt, 'Fraction') and f.decide_eq(pf['nom'], app('parts', ('pay', ss, 'Fraction', '0'))) is True and accuracy(pf['denom'])
                else:
                    good2 = False
                rep.check(good2, R1, where, 'the part of the community (%s) is not the one it speaks for' % k)
    rep.check({'whole', 'Members', 'Fraction'} <= kinds, R1, where, 'not every part of a community can be sent')
    # junction -> origin
    found = None
    for im in w.p.find_impls(ro, 'TryFrom'):
        if 'try_from' in im.fns:
            found = im
    if found is None:
        raise P.SourceError(d.mod.file, 0, 'no conversion of a plurality')
    fn, im = found.fns['try_from'], found
    where = at(im, fn)
    j = sym('junction')
    w.I.note_type(j, ('t', 'Junction', ()))
    seen = set()
    for r in run_fn(w, fn, im, ro, [j]):
        if r[0] == 'panic':
            rep.bad(R2, r[1][1], 'the conversion can panic')
            continue
        for good, x, s in w.I.std.cases(w.I.rv(r[1], r[2]), 'Result', r[2]):
            f = s.facts
            pid, ppt = ('pay', j, 'Plurality', 'id'), ('pay', j, 'Plurality', 'part')
            k = f.variant(ppt) if f.variant(j) == 'Plurality' and f.variant(pid) == 'Index' else None
            if not good:
                rep.check(k not in ('Voice', 'Members', 'Fraction'), R2, where, 'a plurality (%s) is refused' % k)
                continue
            if not rep.check(k is not None, R2, where, 'something that is not a plurality of an index becomes a community'):
                continue
            seen.add(k)
            rep.check(f.decide_eq(strip(w.I.deep(w.field(x, 'community_id', s), s)), ('pay', pid, 'Index', '0')) is True, R2, where, 'the community is not the plurality\'s index')
            sb = strip(w.I.deep(w.field(x, 'subset', s), s))
            if k == 'Voice':
                g2 = is_adt(sb, 'None')
            elif k == 'Members':
                g2 = is_adt(sb, 'Some') and is_adt(fields(sb)['0'], 'Members') and f.decide_eq(fields(fields(sb)['0'])['count'], ('pay', ppt, 'Members', 'count')) is True
            elif k == 'Fraction':
                want = app('ratio', ('pay', ppt, 'Fraction', 'nom'), ('pay', ppt, 'Fraction', 'denom'))
                g2 = is_adt(sb, 'Some') and is_adt(fields(sb)['0'], 'Fraction') and f.decide_eq(fields(fields(sb)['0'])['0'], want) is True
            else:
                g2 = False
            rep.check(g2, R2, where, 'the part of the plurality (%s) is not kept' % k)
    rep.check({'Voice', 'Members', 'Fraction'} <= seen, R2, where, 'not every part of a plurality is understood')
    # origin -> location
    found = [im for im in w.p.find_impls(ro, 'TryConvert') if 'try_convert' in im.fns]
    if found:
        im = found[0]
        fn = im.fns['try_convert']
        o = sym('origin')
        n = 0
        for r in run_fn(w, fn, im, ro, [o]):
            if r[0] == 'panic':
                rep.bad(R1, r[1][1], 'the conversion can panic')
                continue
            for good, x, s in w.I.std.cases(w.I.rv(r[1], r[2]), 'Result', r[2]):
                if good:
                    n += 1
                    t = app('origin as community', o)
                    x = strip(w.I.deep(x, s))
                    cid = ('fld', ('pay', t, 'Ok', '0'), 'community_id')
                    rep.check(s.facts.decide_is(t, 'Ok') is True and find_index(x, s.facts, cid), R1, at(im, fn), 'the location of a community origin is not its plurality')
        rep.check(n > 0, R1, at(im, fn), 'no community origin becomes a location')
    w.done()
    return 'Every way through the conversions between community origins and pluralities, for every part and every junction.'


def find_index(x, f, cid):
    if isinstance(x, tuple):
        if x[:1] == ('adt',) and x[2] == 'Index':
            return f.decide_eq(dict(x[3])['0'], cid) is True
        return any(find_index(y, f, cid) for y in x if isinstance(y, tuple))
    return False


def accuracy(t):
    return t == I(1000000)


def m11(rep):
    R1, R2, R3 = 'decision method stored as given', 'asset created without privileges', 'nothing else changes'
    n = 0
    for w, c, good, bad in each(rep, {'set_decision_method'}):
        if c.name != 'set_decision_method':
            for pa in good:
                for e in pa.effects('asset'):
                    rep.bad(R2, e[-1], '%s creates an asset' % c.name)
                for k, (v, where) in pa.of('CommunityDecisionMethod').items():
                    rep.bad(R1, where, '%s changes a decision method' % c.name)
            continue
        cid, dm = c.args['community_id'], c.args['decision_method']
        for pa in good:
            n += 1
            ws = pa.of('CommunityDecisionMethod')
            rep.check(len(ws) == 1 and all(pa.same(k[0], cid) and v is not None and pa.same(v, dm) for k, (v, _) in ws.items()), R1, c.where,
                      'the method given is not the one in force afterwards')
            for e in pa.eff:
                if e[0] == 'asset':
                    a = e[1]
                    own = pa.f.variant(dm) == 'CommunityAsset'
                    rep.check(own and pa.same(a[0], ('pay', dm, 'CommunityAsset', '0')), R2, e[-1], 'an asset other than the one named is created')
                    rep.check(pa.same(a[1], app('account of', app('const', ('s', 'PalletId')))), R2, e[-1], 'the asset is not owned by the account of the pallet')
                    rep.check(a[2] == ('bool', False) or pa.f.decide(a[2]) is False, R2, e[-1], 'the asset keeps accounts alive by itself')
                    rep.check(pa.same(a[3], ('pay', dm, 'CommunityAsset', '1')), R2, e[-1], 'the minimum balance of the asset is not the minimum vote')
                elif e[0] == 'write':
                    rep.check(e[1] == 'CommunityDecisionMethod', R3, e[-1], 'setting a decision method changes %s' % e[1])
                elif e[0] in ('fund', 'member', 'dispatch', 'tally', 'freeze', 'inc_providers', 'poll', 'ext'):
                    rep.bad(R3, e[-1], 'setting a decision method has another effect (%s)' % e[0])
            if pa.f.variant(dm) == 'CommunityAsset':
                rep.check(any(e[0] == 'asset' or (e[0] == 'failed' and e[1] == 'create asset') or exists(pa, dm) for e in pa.eff), R2, c.where, 'the asset named is not created')
    rep.check(n > 0, R1, c.where, 'no decision method can be set')
    return 'Stored method, creation of the asset and other effects of every way of setting a decision method.'


def exists(pa, dm):
    """the way was taken because the asset exists already"""
    return any(v and t[0] == 'app' and t[1].endswith('asset_exists') for t, v in pa.f.log)


EVENTS = {'create': ('CommunityCreated', {'id': 'community_id', 'origin': 'admin_origin'}), 'set_admin_origin': ('AdminOriginSet', {'id': '@', 'origin': 'admin_origin'}),
          'set_decision_method': ('DecisionMethodSet', {'id': 'community_id'}), 'vote': ('VoteCasted', {'who': '@', 'poll_index': 'poll_index', 'vote': 'vote'}),
          'remove_vote': ('VoteRemoved', {'who': '@', 'poll_index': 'poll_index'}), 'add_member': ('MemberAdded', {}), 'remove_member': ('MemberRemoved', {'membership_id': 'membership_id'}),
          'promote': ('MembershipRankUpdated', {'membership_id': 'membership_id'}), 'demote': ('MembershipRankUpdated', {'membership_id': 'membership_id'})}


def m12(rep):
    R1, R2 = 'failed step fails the call', 'one event telling what was done'
    for w, c, good, bad in each(rep):
        for pa in good:
            fs = [e for e in pa.effects('failed') if not (c.name == 'set_decision_method' and e[1] == 'create asset')]
            for e in fs:
                rep.bad(R1, e[-1], '%s succeeds although %s failed' % (c.name, e[1]), '%s succeeds although %s failed' % (c.name, e[1]))
            if not fs:
                rep.ok(R1, c.where)
            if fs or c.name not in EVENTS:
                continue
            kind_, parts = EVENTS[c.name]
            evs = pa.effects('event')
            if not rep.check(len(evs) == 1, R2, evs[1][-1] if len(evs) > 1 else c.where, '%s succeeds with %d events' % (c.name, len(evs))):
                continue
            ev = evs[0][1]
            if not rep.check(is_adt(ev, kind_), R2, evs[0][-1], '%s does not emit %s' % (c.name, kind_)):
                continue
            d = dict(ev[3])
            me = [a for o, a in pa.auth() if o == CALLS[c.name]]
            for k, a in parts.items():
                want = me[0] if a == '@' and me else c.args.get(a)
                rep.check(k in d and want is not None and pa.same(d[k], want), R2, evs[0][-1], 'the event of %s tells another %s' % (c.name, k))
    rep.assumptions.append('a call that returns an error has all its effects undone (storage layer of the dispatch)')
    return 'Every failing outcome of every fallible step on every way through the calls reaches the caller as an error, except the creation of an asset that may exist; every success carries one matching event.'


def due(w, c, f, me, caller):
    """[facts that entitle a caller to a call]"""
    a = c.args
    T = lambda *x: [(y, True) for y in x]
    some = lambda x: ('is', x, 'Some')
    sto = lambda n, *k: ('sto', n, k)
    if c.name == 'create':
        return [[(some(sto('Info', a['community_id'])), False), (some(sto('CommunityIdFor', a['admin_origin'])), False)]]
    if c.name == 'set_admin_origin':
        cell = sto('CommunityIdFor', app('caller', c.argv[0]))
        return [T(some(cell), ('eq', ('pay', cell, 'Some', '0'), me)) + [(some(sto('CommunityIdFor', a['admin_origin'])), False)]]
    if c.name == 'add_member':
        return [T(app('has', app('MemberMgmt::user_memberships', account_of(me), NONE)))]
    if c.name == 'remove_member':
        t = app('MemberMgmt::check_membership', app('lookup', a['who']), a['membership_id'])
        return [T(some(t), ('eq', ('pay', t, 'Some', '0'), me))]
    if c.name in ('promote', 'demote'):
        return [T(some(app('MemberMgmt::rank_of', me, a['membership_id'])))]
    if c.name == 'set_decision_method':
        return [T(('eq', me, a['community_id']))]
    if c.name == 'unlock':
        return [[(app('ongoing', a['poll_index']), False), (some(sto('CommunityVoteLocks', me, a['poll_index'])), True)]]
    if c.name in ('vote', 'remove_vote'):
        p, m = a['poll_index'], a['membership_id']
        t = app('MemberMgmt::check_membership', me, m)
        com = ('pay', t, 'Some', '0')
        base = T(some(t), app('ongoing', p), ('eq', com, app('class', p)))
        if c.name == 'remove_vote':
            return [base + T(some(sto('CommunityVotes', p, m)))]
        v, dm = a['vote'], sto('CommunityDecisionMethod', com)
        u32 = ('ty', ('t', 'u32', ()))
        wt = lambda i, k: ('lt', I(0), app('saturated', ('pay', v, k, i), u32))
        return [base + T(('is', v, 'Standard'), ('is', dm, 'Membership')), base + T(('is', v, 'Standard'), ('is', dm, 'Rank')),
                base + T(('is', v, 'NativeBalance'), ('is', dm, 'NativeToken'), wt('1', 'NativeBalance')),
                base + T(('is', v, 'AssetBalance'), ('is', dm, 'CommunityAsset'), wt('2', 'AssetBalance'),
                         ('eq', ('pay', v, 'AssetBalance', '1'), ('pay', dm, 'CommunityAsset', '0'))) +
                [(('lt', ('pay', v, 'AssetBalance', '2'), ('pay', dm, 'CommunityAsset', '1')), False)]]
    return [[]]


def m13(rep):
    R1, R2 = 'a call that is due fails only with one of its steps', 'no call panics'
    for w, c, good, bad in each(rep):
        if c.name not in CALLS:
            continue
        auths = [a for pa in good for o, a in pa.auth() if o == CALLS[c.name]]
        if not rep.check(bool(auths), R1, c.where, '%s never succeeds' % c.name):
            continue
        me = auths[0]
        for o in bad:
            st = o[2]
            if any(e[0] == 'failed' for e in st.eff):
                continue
            rep.check(o[0] != 'panic', R2, c.where, '%s can panic' % c.name)
            what = fields(o[1]).get('0') if o[0] != 'panic' and is_adt(o[1], 'Err') else None
            what = what[2] if what and what[0] == 'adt' else 'an error'
            for case in due(w, c, st.facts, me, c.argv[0]):
                f = st.facts
                for x, v in case:
                    f = f and f.assume(x, v)
                rep.check(not f or not f.consistent(), R1, c.where, '%s fails with %s for a caller entitled to it' % (c.name, what), '%s refused with %s' % (c.name, what))
    return 'Every failing way through every call without a failed step contradicts the conditions that entitle the caller to the call.'


RULES = {'M01': m01, 'M02': m02, 'M03': m03, 'M04': m04, 'M05': m05, 'M06': m06, 'M07': m07, 'M08': m08, 'M09': m09, 'M10': m10, 'M11': m11, 'M12': m12, 'M13': m13}

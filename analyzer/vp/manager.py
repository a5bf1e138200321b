"""Rules for the communities manager pallet (G01-G02)."""
from fractions import Fraction
from .terms import *
from . import prog as P
from . import frame
from .frame import FrameModel, Path, strip
from .interp import State, V

CRATE = 'pallet_communities_manager'
LIMIT = 1024


class ManagerModel(FrameModel):
    limit = None        # no membership may be minted when set

    def sys_call(self, crate, m, args, n, env, st, want):
        I_ = self.I
        if crate == 'pallet_communities':
            def g(vs, s):
                vs = tuple(strip(I_.deep(x, s)) for x in vs)
                if m == 'community_account':
                    return V(app('community account', *vs), s)
                return self.fallible('communities::' + m, s, n, ok(UNIT), ('communities', m, vs, I_.where(n)))
            return I_.many(args, env, st, None, g)
        return super().sys_call(crate, m, args, n, env, st, want)

    def cfg_call(self, name, m, args, n, env, st, want):
        I_ = self.I
        kind = {'CreateCollection': 'collection', 'Tracks': 'track', 'RankedCollective': 'collective', 'CreateMemberships': 'item'}.get(name)
        if kind:
            def g(vs, s):
                vs = tuple(strip(I_.deep(x, s)) for x in vs)
                if kind == 'item' and self.limit is not None:
                    self.limit.append(I_.where(n))
                    return []
                return self.fallible('%s::%s' % (name, m), s, n, ok(UNIT), (kind, m, vs, I_.where(n)))
            return I_.many(args, env, st, None, g)
        return super().cfg_call(name, m, args, n, env, st, want)

    def auth_type(self, origin, who):
        if origin == 'RegisterOrigin':
            self.I.note_type(who, ('t', 'Option', (('inf',),)))

    def free_call(self, f, args, n, env, st, want):
        I_ = self.I
        ids = [x['id'] for x in f['segs']]
        if ids[-1] == 'str_array' and len(args) == 1:
            return I_.many(args, env, st, None, lambda vs, s: V(app('str_array', strip(I_.deep(vs[0], s))), s))
        if len(ids) >= 2 and ids[-1] == 'new' and len(args) == 1:
            d, k, ext = self.p.resolve(env.mod, tuple(ids[:-1]))
            if d is None and ext and tuple(ext[-2:]) in (('pallet_communities', 'Origin'), ('origin', 'RawOrigin'), ('pallet_communities', 'RawOrigin')):
                return I_.many(args, env, st, None, lambda vs, s: V(app('community origin', strip(I_.deep(vs[0], s))), s))
        if len(ids) >= 2 and ids[-1] in ('from_percent', 'from_parts', 'from_rational', 'one', 'zero'):
            return I_.many(args, env, st, None, lambda vs, s: V(app(ids[-1], *[strip(I_.deep(x, s)) for x in vs]), s))
        return super().free_call(f, args, n, env, st, want)

    def method(self, ref, v, m, args, n, env, st, want, targs):
        I_ = self.I
        if m in ('caller', 'into_caller') and not args:
            return V(app('caller', strip(I_.deep(v, st))), st)
        if m == 'increment' and not args:
            t = app('increment', strip(I_.deep(v, st)))
            I_.note_type(t, ('t', 'Option', (('proj', ('param', 'T'), 'Config', 'MembershipId'),)))
            return V(t, st)
        return super().method(ref, v, m, args, n, env, st, want, targs)


class World(frame.World):
    given = {}

    def __init__(self, rep):
        super().__init__(rep, CRATE, ManagerModel, {CRATE: ['default', 'std']})
        names = {c.name for c in self.calls}
        for n in ('register', 'create_memberships'):
            if n not in names:
                raise P.SourceError(self.crate.root.file, 0, 'call %s is missing' % n)

    def run_with(self, call, given):
        """(successful paths, failing outcomes) with some arguments fixed"""
        I_ = self.I
        args = []
        for q in call.fn['params']:
            nm = q['pat']['id'] if q['pat']['k'] == 'PatIdent' else 'arg%d' % len(args)
            v = given.get(nm) or sym(nm, self.p.ty(q['ty'], call.im.mod, call.im.gen, call.im.self_ty))
            call.args[nm] = v
            args.append(v)
        call.argv = args
        good, bad = [], []
        for o in I_.run(call.fn, call.im.mod, call.im.self_ty, args, State(), dict(call.im.gen), call.im):
            self.rep.paths += 1
            if o[0] == 'panic':
                bad.append(o)
                continue
            r = I_.rv(o[1], o[2])
            for b, s in I_.test_variant(r, 'Result', 'Ok', o[2]):
                (good if b else bad).append(self.path(call, s) if b else ('err', r, s))
        return good, bad


EFFECTS = ('communities', 'collection', 'track', 'collective', 'item', 'event', 'write', 'ext', 'fund')


def signed(pa, v, who):
    return is_adt(v, 'Signed') and pa.same(dict(v[3])['0'], who)


def g01(rep):
    R1, R2, R3 = 'every part of a community is set up, for that community', 'a failing step fails the registration', 'registration authority and deposit'
    w = World(rep)
    for c in w.calls:
        if c.name != 'register':
            continue
        good, bad = w.run(c)
        a = c.args
        seen = set()
        for pa in good:
            rep.check(not pa.effects('failed'), R2, pa.where('failed'), 'the registration succeeds although a step failed')
            dep = [x for o, x in pa.auth() if o == 'RegisterOrigin']
            if not rep.check(bool(dep), R3, c.where, 'a community is registered without authority'):
                continue
            first = next((e for e in pa.eff if e[0] in EFFECTS or e[0] == 'auth'), None)
            rep.check(first is not None and first[0] == 'auth', R3, c.where, 'the registration acts before its caller is authenticated')
            cid = a['community_id']
            acc = app('community account', cid)
            admin = app('lookup', a['first_admin'])

            def one(kind, m, n=1):
                es = [e for e in pa.effects(kind) if e[1] == m]
                rep.check(len(es) == n, R1, c.where, 'registering a community does %s %d times' % (m, len(es)))
                return es[0] if es else None
            e = one('communities', 'register')
            if e:
                rep.check(signed(pa, e[2][0], admin), R1, e[-1], 'the administrator is not the signed account requested')
                rep.check(pa.same(e[2][1], cid), R1, e[-1], 'the community is not registered under the requested identifier')
                rep.check(pa.same(e[2][2], dep[0]), R3, e[-1], 'the deposit its origin owes is not charged')
            dm = a['maybe_decision_method']
            has = pa.f.decide_is(dm, 'Some')
            sets = [x for x in pa.effects('communities') if x[1] == 'set_decision_method']
            if has is True:
                rep.check(len(sets) == 1 and signed(pa, sets[0][2][0], admin) and pa.same(sets[0][2][1], cid) and pa.same(sets[0][2][2], ('pay', dm, 'Some', '0')), R1, c.where, 'the requested decision method is not set')
                seen.add('method')
            elif has is False:
                rep.check(not sets, R1, c.where, 'a decision method is set that was not requested')
            else:
                rep.bad(R1, c.where, 'the requested decision method is not considered')
            e = one('collection', 'create_collection_with_id')
            if e:
                rep.check(pa.same(e[2][0], cid) and pa.same(e[2][1], acc) and pa.same(e[2][2], acc), R1, e[-1], 'the collection of memberships is not the community\'s own')
                cfg = strip(e[2][3]) if len(e[2]) > 3 else UNIT
                ms = dict(cfg[3]).get('max_supply') if cfg[0] == 'adt' else None
                rep.check(ms is None or is_adt(ms, 'None') or pa.f.decide_is(ms, 'None') is True, R1, e[-1], 'the collection of memberships is limited')
            e = one('track', 'insert')
            if e:
                rep.check(pa.same(e[2][0], cid), R1, e[-1], 'the track is not the community\'s own')
                rep.check(pa.same(e[2][2], app('caller', app('community origin', cid))), R1, e[-1], 'the track does not act with the community\'s origin')
                ti = a['maybe_track_info']
                has = pa.f.decide_is(ti, 'Some')
                if has is True:
                    rep.check(pa.same(e[2][1], ('pay', ti, 'Some', '0')), R1, e[-1], 'the requested track parameters are not used')
                    seen.add('track')
                elif has is False:
                    t = e[2][1]
                    default = t[0] == 'adt' and t[1].split('::')[-1] == 'TrackInfo' and mentions(dict(t[3]).get('name', UNIT), a['name'])
                    rep.check(default, R1, e[-1], 'the default track is not used or does not carry the community\'s name')
                    if default:
                        default_track(rep, R1, e[-1], dict(t[3]))
                else:
                    rep.bad(R1, e[-1], 'the requested track parameters are not considered')
            e = one('collective', 'induct')
            if e:
                rep.check(pa.same(e[2][0], acc), R1, e[-1], 'another account joins the collective')
            evs = pa.effects('event')
            rep.check(len(evs) == 1 and is_adt(evs[0][1], 'CommunityRegistered') and pa.same(dict(evs[0][1][3])['id'], cid), R1, c.where, 'the registration is not announced')
            rest = [x for x in pa.eff if x[0] in ('write', 'ext', 'item', 'fund') or (x[0], x[1]) in () or (x[0] == 'communities' and x[1] not in ('register', 'set_decision_method'))
                    or (x[0] == 'collective' and x[1] != 'induct') or (x[0] == 'track' and x[1] != 'insert') or (x[0] == 'collection' and x[1] != 'create_collection_with_id')]
            for x in rest:
                rep.bad(R1, x[-1], 'the registration also does %s' % x[1])
        rep.check(bool(good), R1, c.where, 'no community can be registered')
        rep.check(seen == {'method', 'track'}, R1, c.where, 'requested parameters are never used')
    w.done()
    rep.assumptions.append('calls are transactional: a failing call undoes its effects')
    return 'All effects on every successful way through registering, against what the registration of that community consists of.'


def g03(rep):
    R1, R2 = 'default track decides as documented', 'a registration that is due fails only with one of its steps'
    w = World(rep)
    c = next(c for c in w.calls if c.name == 'register')
    good, bad = w.run(c)
    ti = c.args['maybe_track_info']
    n = 0
    for pa in good:
        if pa.f.decide_is(ti, 'Some') is not False:
            continue
        for e in pa.effects('track'):
            t = strip(e[2][1])
            if t[0] != 'adt':
                rep.bad(R1, e[-1], 'the default track is not known')
                continue
            n += 1
            f = dict(t[3])
            for k, v, what in (('max_deciding', 1, 'decides more than one referendum at a time, or none'), ('decision_deposit', 0, 'asks for a deposit'),
                               ('prepare_period', 1, 'prepares for another time'), ('decision_period', 255, 'decides for another time'),
                               ('confirm_period', 1, 'confirms for another time'), ('min_enactment_period', 1, 'enacts after another time')):
                rep.check(f.get(k) is not None and pa.same(f[k], I(v)), R1, e[-1], 'the default track %s' % what)
            for k, lo, hi in (('min_approval', (1, 2), (1, 1)), ('min_support', (0, 1), (1, 2))):
                cv = f.get(k)
                g = dict(cv[3]) if is_adt(cv, 'LinearDecreasing') else {}
                for part, want in (('length', (1, 1)), ('floor', lo), ('ceil', hi)):
                    rep.check(part in g and fraction(g[part]) == Fraction(*want), R1, e[-1], 'the %s of the %s of the default track is not %s' % (part, k, Fraction(*want)))
    rep.check(n > 0, R1, c.where, 'no default track is set up')
    for o in bad:
        if o[0] == 'panic':
            rep.bad(R2, c.where, 'a registration can panic')
            continue
        if any(e[0] == 'failed' for e in o[2].eff):
            continue
        f = o[2].facts.assume(('utf8', c.args['name']), True)
        rep.check(not f or not f.consistent(), R2, c.where, 'a registration with a valid name fails without a failed step')
    w.done()
    return 'Every field of the track set up when none is requested; every failing way of registering without a failed step is one with an invalid name.'


def fraction(t):
    """the part of the unit a Perbill expression stands for, or None"""
    if t[0] != 'app' or not all(x[0] == 'int' for x in t[2]):
        return None
    a = [x[1] for x in t[2]]
    if t[1] in ('one', 'zero'):
        return Fraction(1 if t[1] == 'one' else 0)
    if t[1] == 'from_percent' and a:
        return min(Fraction(a[0], 100), Fraction(1))
    if t[1] == 'from_parts' and a:
        return min(Fraction(a[0], 10 ** 9), Fraction(1))
    if t[1] == 'from_rational' and len(a) == 2 and a[1]:
        return min(Fraction(a[0], a[1]), Fraction(1))
    return None


def mentions(t, x):
    return t == x or (isinstance(t, tuple) and any(mentions(y, x) for y in t if isinstance(y, tuple)))


def default_track(rep, rule, where, f):
    """a track that can decide at all: somebody can be deciding, and the thresholds are within the unit"""
    md = f.get('max_deciding')
    rep.check(md is not None and (md[0] != 'int' or md[1] >= 1), rule, where, 'the default track never decides anything')
    dp = f.get('decision_period')
    rep.check(dp is not None and dp != I(0), rule, where, 'the default track leaves no time to decide')


def g02(rep):
    R1, R2, R3, R4 = 'membership-creating authority', 'at most 1024 at a time', 'consecutive identifiers, manager\'s collection and owner, price', 'announced count is the number minted'
    w = World(rep)
    c = next(c for c in w.calls if c.name == 'create_memberships')
    for other in w.calls:
        if other.name == 'create_memberships':
            continue
        good, bad = w.run(other)
        for pa in good:
            for e in pa.effects('item'):
                rep.bad(R1, e[-1], '%s mints memberships' % other.name)
    start, price = None, None
    most = 16 if P.THOROUGH else 4
    for k in range(most + 1):
        good, bad = w.run_with(c, {'amount': I(k)})
        for pa in good:
            start, price = c.args['starting_at'], c.args['price']
            rep.check(not pa.effects('failed'), R4, pa.where('failed'), 'memberships are announced although a step failed')
            seen = False
            for e in pa.eff:
                if e[0] == 'auth' and e[1] == 'CreateMembershipsOrigin' and e[2][2][1] == c.argv[0]:
                    seen = True
                elif e[0] in EFFECTS:
                    rep.check(seen, R1, e[-1], 'memberships are created without authority')
            items = pa.effects('item')
            mints = [e for e in items if e[1] in ('mint_into',)]
            prices = [e for e in items if e[1] == 'set_price']
            for e in items:
                if e[1] not in ('mint_into', 'set_price'):
                    rep.bad(R3, e[-1], 'memberships are changed by %s' % e[1])
            coll, own = app('const', ('s', 'MembershipsManagerCollectionId')), app('const', ('s', 'MembershipsManagerOwner'))
            cur = start
            for i, e in enumerate(mints):
                a = e[2]
                rep.check(pa.same(a[1], cur), R3, e[-1], 'the identifiers minted are not consecutive from the requested one')
                rep.check(pa.same(a[0], coll) and pa.same(a[2], own), R3, e[-1], 'a membership is minted elsewhere or for somebody else')
                rep.check(len(a) < 5 or pa.f.decide(a[4]) is True, R3, e[-1], 'the deposit for a membership is not the collection owner\'s')
                ps = [x for x in prices if pa.same(x[2][1], a[1])]
                rep.check(len(ps) == 1 and pa.same(ps[0][2][0], coll) and pa.same(ps[0][2][2], own) and is_adt(ps[0][2][3], 'Some') and pa.same(fields(ps[0][2][3])['0'], price) and is_adt(ps[0][2][4], 'None'),
                          R3, e[-1], 'a membership is not offered to everybody at the requested price')
                nxt = app('increment', cur)
                cur = ('pay', nxt, 'Some', '0')
            rep.check(len(prices) == len(mints), R3, c.where, 'another membership is offered')
            if len(mints) != k:
                last = cur[1] if mints else None
                rep.check(0 < len(mints) < k and pa.f.decide_is(last, 'Some') is False, R3, c.where, 'fewer or more memberships than requested are minted')
            evs = pa.effects('event')
            if rep.check(len(evs) == 1 and is_adt(evs[0][1], 'MembershipsCreated'), R4, c.where, 'the memberships created are not announced'):
                d = dict(evs[0][1][3])
                rep.check(pa.same(d['starting_at'], start), R4, evs[0][-1], 'the first identifier announced is not the requested one')
                rep.check(pa.same(d['amount'], I(len(mints))), R4, evs[0][-1], 'the count announced is not the number minted', 'count announced is not the number minted')
        rep.check(bool(good), R3, c.where, 'no membership can be created')
        for o in bad:
            if o[0] == 'panic':
                rep.bad(R4, o[1][1], 'creating memberships can panic: %s' % o[1][0])
    # above the limit nothing is minted
    w.model.limit = []
    for k in sorted(set(list(range(1025, 1050)) + [1 << i for i in range(11, 16)] + [(1 << i) + 1 for i in range(10, 16)] + [(1 << i) - 1 for i in range(11, 17)] + list(range(1500, 65536, 997)))):
        w.model.limit.clear()
        good, bad = w.run_with(c, {'amount': I(k)})
        rep.check(not w.model.limit and not good, R2, w.model.limit[0] if w.model.limit else c.where, 'more than %d memberships can be created at a time' % LIMIT)
    # up to the limit the first mint is reached
    for k in (1, 2, 512, LIMIT - 1, LIMIT):
        w.model.limit.clear()
        good, bad = w.run_with(c, {'amount': I(k)})
        refused = [o for o in bad if o[0] == 'panic' or not any(e[0] == 'failed' for e in o[2].eff)]
        rep.check(bool(w.model.limit) and not refused, R2, c.where, '%d memberships cannot be created at a time' % k, 'amounts up to the limit refused')
    w.done()
    rep.assumptions.append('calls are transactional: a failing call undoes its effects')
    return 'All effects on every way through creating up to %d memberships, with the end of the identifier range at any of them; amounts above the limit never reach the first mint.' % most


RULES = {'G01': g01, 'G02': g02, 'G03': g03}

"""Rules for the payments pallet (P01-P10)."""
from .terms import *
from . import prog as P
from . import frame
from .frame import FrameModel, Path, Call, strip
from .interp import State, V

CRATE = 'pallet_payments'
STATES = ('Created', 'NeedsReview', 'RefundRequested', 'PaymentRequested', 'Finished')
# numbers of sender and beneficiary fees of the payments analysed
SHAPES = [(0, 0), (1, 1), (2, 1), (1, 2), (3, 0), (0, 3)]
if P.THOROUGH:
    SHAPES = SHAPES + [(2, 2), (3, 1), (1, 3), (4, 0), (0, 4)]
ENTRIES = 5 if P.THOROUGH else 3


class PayModel(FrameModel):
    shape = (1, 1)

    def short(self, name):
        return name.split('::')[-1]

    # ---- stored payments
    def fees(self, root):
        """a fee table of the shape under analysis whose entries are unknown"""
        d = self.fee_def
        fs = []
        for f in d.node['fields']['fields']:
            base = ('fld', root, f['id'])
            k = {'sender_pays': self.shape[0], 'beneficiary_pays': self.shape[1]}.get(f['id'])
            if k is None:
                fs.append((f['id'], base))
                continue
            items = []
            for i in range(k):
                e = ('elem', base, I(i))
                x = ('tup', (('fld', e, '0'), ('fld', e, '1'), ('fld', e, '2')))
                self.I.note_type(x[1][0], ('proj', ('param', 'T'), None, 'AccountId'))
                self.I.note_type(x[1][2], ('t', 'bool', ()))
                items.append(x)
            fs.append((f['id'], ('arr', tuple(items))))
        return ('adt', '::'.join(d.path), None, tuple(fs))

    def record(self, term):
        d = self.rec_def
        ty = ('t', '::'.join(d.path), (('param', 'T'),))
        g = self.I.gen_of(d, ty[2])
        fs = []
        for f in d.node['fields']['fields']:
            x = ('fld', term, f['id'])
            t = self.p.ty(f['ty'], d.mod, g, ty)
            if f['id'] == 'fees':
                fs.append((f['id'], self.fees(x)))
            else:
                self.I.note_type(x, t)
                fs.append((f['id'], x))
        return ('adt', ty[1], None, tuple(fs))

    def initial(self, S, keys, term, st):
        if S.name == 'Payment':
            return self.record(term)
        if S.name == 'PaymentParties':
            return ('tup', (('fld', term, '0'), ('fld', term, '1')))
        return term

    def rec_term(self, keys):
        return ('pay', ('sto', 'Payment', tuple(keys)), 'Some', '0')

    def parties_term(self, pid):
        return ('pay', ('sto', 'PaymentParties', (pid,)), 'Some', '0')

    def present(self, S, keys, c, st):
        """stored payments and the index of parties describe each other (kept by P08)"""
        if S.name == 'Payment':
            s, pid = keys
            pp = self.parties_term(pid)
            facts = [('is', ('sto', 'PaymentParties', (pid,)), 'Some'), ('eq', ('fld', pp, '0'), s),
                     ('eq', ('fld', pp, '1'), ('fld', ('pay', c, 'Some', '0'), 'beneficiary'))]
        elif S.name == 'PaymentParties':
            pid = keys[0]
            pp = ('pay', c, 'Some', '0')
            k = (('fld', pp, '0'), pid)
            facts = [('is', ('sto', 'Payment', k), 'Some'),
                     ('eq', ('fld', pp, '1'), ('fld', self.rec_term(k), 'beneficiary'))]
            for n in (('sto', 'Payment', k),):
                self.I.note_type(n, ('t', 'Option', (('t', '::'.join(self.rec_def.path), (('param', 'T'),)),)))
        else:
            return [st]
        f = st.facts
        for x in facts:
            f = f and f.assume(x, True)
        return [st.with_facts(f)] if f else []

    # ---- calls through the configuration
    def cfg_call(self, name, m, args, n, env, st, want):
        I_ = self.I
        d = lambda x, s: strip(I_.deep(x, s))
        if name == 'Assets':
            return self.fund_call(name, m, args, n, env, st, want, True)
        if name == 'Scheduler':
            def g(vs, s):
                vs = [d(x, s) for x in vs]
                if m == 'schedule_named' and len(vs) == 6:
                    return self.fallible('Scheduler::' + m, s, n, ok(('ret', I_.fresh(), 'address', ())), ('sched', vs, I_.where(n)))
                if m == 'cancel_named':
                    return self.fallible('Scheduler::' + m, s, n, ok(), ('unsched', vs[0], I_.where(n)))
                if m in ('next_dispatch_time',):
                    return V(app('Scheduler::' + m, *vs), s)
                return self.fallible('Scheduler::' + m, s, n, ok(('ret', I_.fresh(), 'address', ())), ('othersched', m, tuple(vs), I_.where(n)))
            return I_.many(args, env, st, None, g)
        if name == 'Preimages' and m in ('bound', 'note'):
            return I_.many(args, env, st, None, lambda vs, s: self.fallible('Preimages::' + m, s, n, ok(app('bound', d(vs[0], s)))))
        if name == 'Preimages' and m in ('drop', 'unnote', 'unrequest', 'request'):
            return I_.many(args, env, st, None, lambda vs, s: V(UNIT, s))
        if name == 'FeeHandler' and m == 'apply_fees':
            return I_.many(args, env, st, None, lambda vs, s: V(self.fees(app('fees', *[d(x, s) for x in vs])), s))
        if name == 'PaymentId' and m == 'next':
            def g(vs, s):
                return self.fallible('PaymentId::next', s, n, some(app('next id', *[d(x, s) for x in vs])), None, NONE)
            return I_.many(args, env, st, None, g)
        return super().cfg_call(name, m, args, n, env, st, want)


class PayPath(Path):
    def states(self, t):
        """possible variants of a state value"""
        if t[0] == 'adt':
            return {t[2]}
        v = self.f.variant(t)
        if v:
            return {v}
        e = self.f.var.get(self.f.canon(t))
        return set(self.w.states) - (set(e[1]) if e else set())

    def old_states(self, keys):
        c = ('sto', 'Payment', keys)
        p = self.f.decide_is(c, 'Some')
        if p is False:
            return {'none'}
        s = self.states(('fld', ('pay', c, 'Some', '0'), 'state'))
        return s if p else s | {'none'}

    def subject(self):
        """(keys, old states, new state set or {'removed'}, old record term, new record) of the payment acted on; None if none"""
        ws = self.of('Payment')
        if len(ws) != 1:
            return None
        (keys, (v, where)), = ws.items()
        old = self.old_states(keys)
        new = {'removed'} if v is None else self.states(self.w.field(v, 'state', self.st))
        return keys, old, new, ('pay', ('sto', 'Payment', keys), 'Some', '0'), v, where


class World(frame.World):
    def __init__(self, rep, shape):
        self.shape = shape
        super().__init__(rep, CRATE, PayModel, {CRATE: ['default', 'std']})
        self.model.shape = shape
        self.rec_def = self.type('PaymentDetail')
        self.fee_def = self.type('Fees')
        self.model.rec_def, self.model.fee_def = self.rec_def, self.fee_def
        self.states = [v['id'] for v in self.type('PaymentState').node['variants']]
        self.need('Payment', 'PaymentParties')

    def path(self, call, st):
        return PayPath(self, call, st)

    # ---- amounts
    def rec_values(self, v, st):
        """(asset, amount, beneficiary, incentive, sender fees, beneficiary fees)"""
        f = lambda n: self.field(v, n, st)
        fees = f('fees')
        lst = lambda n: [x[1] for x in self.I.rv(self.field(fees, n, st), st)[1]]
        return f('asset'), f('amount'), f('beneficiary'), f('incentive_amount'), lst('sender_pays'), lst('beneficiary_pays')


def ledger(path, facts):
    """net movements of funds: {(asset, account, bucket): amount}; other operations are returned apart"""
    L, other = {}, []

    def add(asset, who, bucket, x, sign=1):
        k = (facts.canon(asset), facts.canon(who), facts.canon(bucket))
        L[k] = ladd(L.get(k, I(0)), x, sign)
    for e in path.eff:
        if e[0] != 'fund':
            continue
        op = e[1]
        if op == 'transfer':
            _, _, a, s, d, x, w = e
            add(a, s, 'free', x, -1)
            add(a, d, 'free', x)
        elif op == 'hold':
            _, _, a, r, who, x, w = e
            add(a, who, 'free', x, -1)
            add(a, who, ('held', r), x)
        elif op == 'release':
            _, _, a, r, who, x, w = e
            add(a, who, 'free', x)
            add(a, who, ('held', r), x, -1)
        elif op == 'transfer_and_hold':
            _, _, a, r, s, d, x, w = e
            add(a, s, 'free', x, -1)
            add(a, d, ('held', r), x)
        elif op == 'move_held':
            _, _, a, r, s, d, x, w = e
            add(a, s, ('held', r), x, -1)
            add(a, d, ('held', r), x)
        elif op == 'release_to':
            _, _, a, r, s, d, x, w = e
            add(a, s, ('held', r), x, -1)
            add(a, d, 'free', x)
        else:
            other.append(e)
    return L, other


def diff(L, E, facts):
    """entries in which two ledgers differ"""
    out = []
    for k in sorted(set(L) | set(E), key=repr):
        d = facts.canon(lsub(L.get(k, I(0)), E.get(k, I(0))))
        if d != I(0) and facts.decide_eq(d, I(0)) is not True:
            out.append((k, L.get(k, I(0)), E.get(k, I(0))))
    return out


def show(t, depth=0):
    """a value in words"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == 'int':
        return str(t[1])
    if k == 'sym':
        return t[1]
    if k == 'fld':
        return show(t[1], depth + 1) + '.' + t[2]
    if k == 'pay':
        return show(t[1], depth + 1)
    if k == 'elem':
        return '%s[%s]' % (show(t[1], depth + 1), show(t[2]))
    if k == 'sto':
        return '%s(%s)' % (t[1], ', '.join(show(x, depth + 1) for x in t[2]))
    if k == 'app':
        if t[1] == 'auth':
            return 'caller'
        return '%s(%s)' % (t[1], ', '.join(show(x, depth + 1) for x in t[2]) if depth < 4 else '..')
    if k == 's':
        return t[1]
    if k == 'lin':
        s = ' + '.join(('%s' if c == 1 else '%d*%%s' % c) % show(a, depth + 1) for a, c in t[1])
        return s + (' + %d' % t[2] if t[2] else '')
    if k == 'adt':
        return '%s%s' % (t[1].split('::')[-1], '::' + t[2] if t[2] else '')
    if k == 'tup':
        return '(%s)' % ', '.join(show(x, depth + 1) for x in t[1])
    return k


def expected(w, pa, keys, old, new, rec, st, facts, reason, share=None, resolver=None, wins=None):
    """net movement of funds a step of the life cycle stands for"""
    E = {}
    asset, amount, ben, inc, sf, bf = w.rec_values(rec, st)
    S, Bn = keys[0], ben
    H = ('held', reason)

    def add(who, bucket, x, sign=1):
        k = (facts.canon(asset), facts.canon(who), facts.canon(bucket))
        E[k] = ladd(E.get(k, I(0)), x, sign)
    tot = lambda fs: lsum([x[1] for x in fs])
    if new == 'Created':
        add(S, 'free', ladd(amount, ladd(inc, tot(sf))), -1)
        add(S, H, ladd(inc, tot(sf)))
        add(Bn, H, amount)
    elif (old, new) == ('Created', 'Finished') or (old, new) == ('PaymentRequested', 'Finished'):
        if old == 'Created':
            add(S, H, ladd(inc, tot(sf)), -1)
            add(S, 'free', ladd(inc, tot(sf)))
            add(Bn, H, amount, -1)
            add(Bn, 'free', amount)
        else:
            add(S, 'free', amount, -1)
            add(Bn, 'free', amount)
        for payer, fs in ((S, sf), (Bn, bf)):
            for acc, x, flag in fs:
                add(payer, 'free', x, -1)
                add(acc, 'free', x)
    elif new == 'removed':
        add(S, H, ladd(inc, tot(sf)), -1)
        add(S, 'free', ladd(ladd(inc, tot(sf)), amount))
        add(Bn, H, amount, -1)
    elif new == 'NeedsReview':
        add(Bn, 'free', inc, -1)
        add(Bn, H, inc)
    elif (old, new) == ('NeedsReview', 'Finished'):
        add(S, H, ladd(inc, tot(sf)), -1)
        add(S, 'free', ladd(inc, tot(sf)))
        add(Bn, H, ladd(inc, amount), -1)
        add(Bn, 'free', ladd(inc, amount))
        for payer, fs in ((S, sf), (Bn, bf)):
            for acc, x, flag in fs:
                if facts.decide(flag) is True:
                    add(payer, 'free', x, -1)
                    add(acc, 'free', x)
        if wins == 'Sender':
            add(S, 'free', share)
            add(Bn, 'free', share, -1)
            add(Bn, 'free', inc, -1)
        else:
            y = lsub(amount, share)
            add(S, 'free', y)
            add(Bn, 'free', y, -1)
            add(S, 'free', inc, -1)
        add(resolver, 'free', inc)
    return E


STEPS = {
    'pay': ({'none', 'PaymentRequested'}, 'Created'),
    'release': ({'Created'}, 'Finished'),
    'request_refund': ({'Created'}, 'RefundRequested'),
    'accept_and_pay': ({'PaymentRequested'}, 'Finished'),
    'cancel': ({'Created', 'RefundRequested'}, 'removed'),
    'dispute_refund': ({'RefundRequested'}, 'NeedsReview'),
    'request_payment': ({'none', 'PaymentRequested'}, 'PaymentRequested'),
    'resolve_dispute': ({'NeedsReview'}, 'Finished'),
}
ACTS = {'pay': 'paid', 'release': 'released', 'request_refund': 'asked back', 'accept_and_pay': 'accepted', 'cancel': 'cancelled',
        'dispute_refund': 'disputed', 'request_payment': 'requested', 'resolve_dispute': 'resolved'}
ORIGIN = {
    'pay': ('SenderOrigin', 'sender'), 'release': ('SenderOrigin', 'sender'), 'request_refund': ('SenderOrigin', 'sender'),
    'accept_and_pay': ('SenderOrigin', 'sender'), 'cancel': ('BeneficiaryOrigin', 'beneficiary'),
    'dispute_refund': ('BeneficiaryOrigin', 'beneficiary'), 'request_payment': ('BeneficiaryOrigin', 'beneficiary'),
    'resolve_dispute': ('DisputeResolver', None),
}


def each(rep, shapes=None, only=None):
    """(world, call, successful paths, failing outcomes) for every shape of fee table"""
    for sh in shapes or SHAPES:
        w = World(rep, sh)
        names = {c.name for c in w.calls}
        for n in STEPS:
            if n not in names:
                raise P.SourceError(w.crate.root.file, 0, 'call %s is missing' % n)
        for c in w.calls:
            if only and c.name not in only and c.name in STEPS:
                continue
            good, bad = w.run(c)
            yield w, c, good, bad
        w.done()


def changes(pa):
    return [e for e in pa.eff if e[0] in ('write', 'fund', 'event', 'sched', 'unsched', 'othersched', 'ext')]


def hooks_quiet(rep, rule, w):
    """hooks run without any caller: they may not touch payments or funds"""
    for f, im in w.hooks:
        st = State()
        args = [sym(q['pat'].get('id', 'a') if not q.get('self') else 'self') for q in f['params']]
        for o in w.I.run(f, im.mod, im.self_ty, args, st, dict(im.gen), im):
            if o[0] == 'panic':
                continue
            es = [e for e in o[2].eff if e[0] in ('write', 'fund', 'sched', 'unsched')]
            for e in es:
                rep.bad(rule, e[-1], 'the hook %s changes payments or funds without an authenticated caller' % f['id'])


def p01(rep):
    r1, r2 = 'caller authenticated before any effect', 'caller is the party entitled to the call'
    n = 0
    for w, c, good, bad in each(rep, [(1, 1)]):
        hooks_quiet(rep, r1, w)
        for pa in good + [PayPath(w, c, o[2]) for o in bad if o[0] == 'err']:
            seen = False
            for e in pa.eff:
                if e[0] == 'auth':
                    if e[2][2][1] == c.argv[0]:
                        seen = True
                elif e[0] in ('write', 'fund', 'event', 'sched', 'unsched', 'othersched') and not seen:
                    rep.bad(r1, e[-1], '%s has an effect before its caller is authenticated' % c.name)
            if seen:
                rep.ok(r1, c.where)
        for pa in good:
            if c.name not in ORIGIN:
                rep.check(not changes(pa) or pa.auth(), r1, c.where, 'call %s changes state without authenticating its caller' % c.name)
                continue
            org, role = ORIGIN[c.name]
            auth = [a for o, a in pa.auth() if o == org and a[2][1] == c.argv[0]]
            if not auth:
                rep.bad(r2, c.where, 'a way through %s succeeds without the caller passing %s' % (c.name, org))
                continue
            if role is None:
                rep.ok(r2, c.where)
                continue
            subj = pa.of('Payment')
            if not subj and changes(pa):
                rep.bad(r2, pa.where('write', 'fund'), '%s changes something but no payment of the caller' % c.name)
            for keys, (v, where) in subj.items():
                if role == 'sender':
                    party = [keys[0]]
                else:
                    party = []
                    if v is not None:
                        party.append(w.field(v, 'beneficiary', pa.st))
                    if v is None or c.name != 'request_payment':
                        party.append(('fld', ('pay', ('sto', 'Payment', keys), 'Some', '0'), 'beneficiary'))
                rep.check(all(any(pa.same(a, x) for a in auth) for x in party), r2, where,
                          '%s can act on a payment whose %s is not the caller' % (c.name, role))
                if 'payment_id' in c.args:
                    rep.check(pa.same(keys[1], c.args['payment_id']), r2, where, '%s acts on another payment than the one named' % c.name)
            for keys, (v, where) in pa.of('PaymentParties').items():
                ok_ = any(pa.same(keys[0], k[1]) for k in subj)
                rep.check(ok_, r2, where, '%s changes the index entry of another payment' % c.name)
    rep.assumptions.append('a payment in storage and its index entry name the same parties (established by P08)')
    return 'Every way through every call of the payments pallet: origin check before the first effect, and the caller equal to the party of the payment written.'


def p02(rep):
    r1, r2 = 'call applies only in the states it is meant for', 'call leaves the payment in its state'
    for w, c, good, bad in each(rep, [(1, 1)]):
        for pa in good:
            ws = pa.of('Payment')
            if c.name not in STEPS:
                for keys, (v, where) in ws.items():
                    old = pa.old_states(keys)
                    new = {'removed'} if v is None else pa.states(w.field(v, 'state', pa.st))
                    for o in old:
                        for n_ in new:
                            rep.check(n_ == o or any(o in a and n_ == b for a, b in STEPS.values()), r1, where,
                                      'call %s takes a payment from %s to %s' % (c.name, o, n_))
                continue
            allowed, final = STEPS[c.name]
            if len(ws) != 1:
                rep.bad(r2, c.where, 'a way through %s succeeds having changed %d payments instead of one' % (c.name, len(ws)))
                continue
            keys, old, new, _, v, where = pa.subject()
            extra = old - allowed
            rep.check(not extra, r1, where, '%s goes through for a payment that is %s' % (c.name, ' or '.join(sorted(extra))),
                      '%s accepted while %s' % (c.name, ','.join(sorted(extra))))
            rep.check(new == {final}, r2, where, '%s leaves the payment %s instead of %s' % (c.name, ' or '.join(sorted(new)), final))
    hooks_quiet(rep, r2, w)
    return 'State of the payment before and after every successful way through every call, against the life cycle.'


def reason_of(rep, w):
    """the reason under which paying holds funds"""
    c = [x for x in w.calls if x.name == 'pay'][0]
    rs = set()
    for pa in w.run(c)[0]:
        for e in pa.effects('fund'):
            if e[1] in ('hold', 'transfer_and_hold'):
                rs.add(strip(e[3]))
    return sorted(rs, key=repr)[0] if rs else None


def steps(rep, w, c, pa):
    """[(old, new, keys, record, where)] of a path"""
    out = []
    for keys, (v, where) in pa.of('Payment').items():
        old = pa.old_states(keys)
        new = {'removed'} if v is None else pa.states(w.field(v, 'state', pa.st))
        rec = v if v is not None else w.model.record(('pay', ('sto', 'Payment', keys), 'Some', '0'))
        for o in sorted(old):
            for n_ in sorted(new):
                out.append((o, n_, keys, rec, where))
    return out


def flag_cases(w, pa, rec):
    """states in which every fee is known to be mandatory or not"""
    _, _, _, _, sf, bf = w.rec_values(rec, pa.st)
    cur = [pa.st]
    for acc, x, flag in sf + bf:
        cur = [s2 for s in cur for b, s2 in w.I.branch(s, flag)]
    return cur


def compare(rep, rule, w, c, pa, which, select):
    """the movements of a path against the step of the life cycle; select(old, new) -> checked here"""
    reason = w.reason
    st = steps(rep, w, c, pa)
    L0, other = ledger(pa, pa.f)
    if not st:
        if select(None, None):
            ds = diff(L0, {}, pa.f)
            for k, a, b in ds:
                if which(k):
                    rep.bad(rule, pa.where('fund'), '%s moves funds of %s without changing a payment' % (c.name, show(k[1])))
            for e in other:
                rep.bad(rule, e[-1], '%s uses the fund operation %s' % (c.name, e[1]))
        return
    if len({x[2] for x in st}) > 1:
        rep.bad(rule, c.where, '%s changes several payments at once' % c.name)
        return
    for o, n_, keys, rec, where in st:
        if not select(o, n_):
            continue
        for e in other:
            rep.bad(rule, e[-1], '%s uses the fund operation %s' % (c.name, e[1]))
        dispute = (o, n_) == ('NeedsReview', 'Finished')
        for s in (flag_cases(w, pa, rec) if dispute else [pa.st]):
            f = s.facts
            L, _ = ledger(pa, f)
            best = None
            if dispute:
                dr = next((v for v in c.argv if w.I.typeof(v) and 'DisputeResult' in str(w.I.typeof(v))), None)
                amount = w.rec_values(rec, s)[1]
                res = [a for og, a in pa.auth()]
                pct = w.field(dr, 'percent_beneficiary', s) if dr else None
                if dr is None or not res:
                    rep.bad(rule, where, '%s resolves a dispute without a resolver or a decision' % c.name)
                    continue
                cands = [app(m, pct, amount) for m in ('mul_floor', 'mul_ceil')] + [app('mul', *sorted((pct, amount), key=repr))]
                for wins_, s1 in [(b, s2) for b, s2 in w.I.test_variant(w.field(dr, 'in_favor_of', s), w.role, 'Sender', s)]:
                    f1 = s1.facts
                    L1, _ = ledger(pa, f1)
                    best = None
                    for sh in cands:
                        E = expected(w, pa, keys, o, n_, rec, s1, f1, reason, sh, res[0], 'Sender' if wins_ else 'Beneficiary')
                        ds = [x for x in diff(L1, E, f1) if which(x[0])]
                        if best is None or len(ds) < len(best):
                            best = ds
                    report(rep, rule, c, where, best, o, n_)
            else:
                E = expected(w, pa, keys, o, n_, rec, s, f, reason)
                report(rep, rule, c, where, [x for x in diff(L, E, f) if which(x[0])], o, n_)


def report(rep, rule, c, where, ds, o, n_):
    if not ds:
        rep.ok(rule, where)
    for k, a, b in ds[:3]:
        what = 'free balance' if k[2] == 'free' else 'balance on hold'
        rep.bad(rule, where, '%s (%s -> %s): %s of %s changes by %s instead of %s' % (c.name, o, n_, what, show(k[1]), show(a), show(b)),
                '%s %s->%s %s of %s' % (c.name, o, n_, what, show(k[1])))


def prepare(rep, w):
    w.reason = reason_of(rep, w)
    w.role = '::'.join(w.type('Role').path)
    return w


def funds(rep, rule, which, select, only=None, shapes=None):
    last = None
    for w, c, good, bad in each(rep, shapes, only):
        if w is not last:
            prepare(rep, w)
            last = w
        if w.reason is None:
            rep.bad(rule, c.where, 'paying holds nothing')
            return
        for pa in good:
            compare(rep, rule, w, c, pa, which, select)
    rep.assumptions.append('sums of balances do not overflow the balance type (they are bounded by the total issuance)')


def p03(rep):
    funds(rep, 'held amount follows the life cycle', lambda k: k[2] != 'free', lambda o, n_: True)
    funds(rep, 'opening and disputing move nothing else', lambda k: True,
          lambda o, n_: n_ in ('Created', 'NeedsReview', 'RefundRequested', 'PaymentRequested') or o is None,
          {'pay', 'dispute_refund', 'request_refund', 'request_payment'}, [(1, 1), (2, 1)])
    return ('For every successful way through every call, the change of the balances on hold equals the difference between what the payment\'s state before '
            'and after stands for; fee tables of %s (sender, beneficiary) entries with arbitrary recipients and amounts.' % SHAPES)


def p04(rep):
    funds(rep, 'completed payment moves the amount and each fee once', lambda k: True,
          lambda o, n_: n_ == 'Finished' and o != 'NeedsReview', {'release', 'accept_and_pay'})
    return 'Net change of every balance touched by every way of completing a payment, fee tables of %s entries.' % SHAPES


def p05(rep):
    funds(rep, 'cancelled payment gives everything back', lambda k: True, lambda o, n_: n_ == 'removed', {'cancel'})
    r = 'cancelled payment leaves no record'
    for w, c, good, bad in each(rep, [(1, 1)], {'cancel'}):
        if c.name != 'cancel':
            continue
        for pa in good:
            ws, ps = pa.of('Payment'), pa.of('PaymentParties')
            rep.check(len(ws) == 1 and all(v[0] is None for v in ws.values()), r, pa.where('write'), 'a cancelled payment stays in storage')
            rep.check(len(ps) == 1 and all(v[0] is None for v in ps.values()) and all(any(pa.same(k[0], q[1]) for q in ws) for k in ps),
                      r, pa.where('write'), 'the index entry of a cancelled payment stays in storage')
    return 'Net change of every balance and the records left by every way of cancelling, fee tables of %s entries.' % SHAPES


def p06(rep):
    funds(rep, 'resolved dispute splits the amount', lambda k: True, lambda o, n_: (o, n_) == ('NeedsReview', 'Finished'), {'resolve_dispute'})
    return 'Net change of every balance touched by every way of resolving a dispute, for both decisions, any share, fee tables of %s entries with any mix of mandatory and optional fees.' % SHAPES


def has(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(has(y, x) for y in t if isinstance(y, tuple))


def carries(t, x):
    """t contains x itself, not only something looked up under x"""
    if t == x:
        return True
    if not isinstance(t, tuple) or t[:1] in (('fld',), ('pay',), ('sto',), ('elem',), ('ret',)):
        return False
    return any(carries(y, x) for y in t if isinstance(y, tuple))


def uncanon(t, f):
    return f.canon(t)


def p07(rep):
    r = {k: k for k in ('refund is scheduled at the recorded deadline', 'deadline lies the configured time ahead', 'scheduled call cancels this payment with the beneficiary\'s authority',
                        'dispute only before the deadline', 'dispute removes the scheduled cancellation')}
    R1, R2, R3, R4, R5 = r
    names = []
    now = app('frame_system::block_number')
    for w, c, good, bad in each(rep, [(1, 1)]):
        for pa in good:
            sch, un, oth = pa.effects('sched'), pa.effects('unsched'), pa.effects('othersched')
            for e in oth:
                rep.bad(R1, e[-1], '%s uses the scheduler operation %s' % (c.name, e[1]))
            if c.name == 'request_refund':
                subj = pa.subject()
                if not rep.check(len(sch) == 1 and not un and subj is not None, R1, c.where, 'asking for a refund schedules %d cancellations' % len(sch)):
                    continue
                keys, old, new, rec, v, where = subj
                name, when, period, prio, origin, call = sch[0][1]
                at = sch[0][-1]
                state = w.field(v, 'state', pa.st)
                block = w.I.payload(state, 'RefundRequested', 'cancel_block', pa.st) if is_adt(state, 'RefundRequested') else None
                if not rep.check(block is not None, R1, where, 'the deadline is not recorded'):
                    continue
                rep.check(is_adt(when, 'At') and pa.same(fields(when)['0'], block), R1, at, 'the cancellation is not scheduled at the recorded deadline')
                # calls with a priority above 63 wait for room in the block
                late = prio[1] > 63 if prio[0] == 'int' else 'LOWEST_PRIORITY' in repr(prio)
                rep.check(not late, R1, at, 'the cancellation has a priority with which it can be put off')
                rep.check(is_adt(period, 'None'), R1, at, 'the cancellation is scheduled to repeat')
                evs = [e[1] for e in pa.effects('event')]
                ann = [dict(e[3]).get('expiry') for e in evs if is_adt(e, 'PaymentCreatorRequestedRefund')]
                rep.check(len(ann) == 1 and ann[0] is not None and pa.same(ann[0], block), R1, pa.where('event'), 'the announced deadline is not the recorded one')
                rep.check(pa.same(block, ladd(now, app('const', ('s', 'CancelBufferBlockLength')))), R2, where,
                          'the deadline is %s instead of the configured number of blocks after the current one' % show(block))
                ben = w.field(w.model.record(rec), 'beneficiary', pa.st)
                rep.check(is_adt(origin, 'Signed') and pa.same(fields(origin)['0'], ben), R3, at, 'the scheduled cancellation does not run with the beneficiary\'s authority')
                while call[0] == 'app' and call[1] == 'bound':
                    call = call[2][0]
                rep.check(call[0] == 'adt' and call[2] == 'cancel' and all(pa.same(x, keys[1]) for x in dict(call[3]).values()) and call[3], R3, at,
                          'the scheduled call is not the cancellation of this payment')
                rep.check(carries(pa.f.canon(name), pa.f.canon(keys[1])), R5, at, 'the name of the scheduled cancellation does not depend on the payment')
                names.append((norm_name(pa.f.canon(name), pa.f.canon(keys[1])), at))
            elif c.name == 'dispute_refund':
                subj = pa.subject()
                if subj is None:
                    rep.bad(R4, c.where, 'a dispute goes through without changing one payment')
                    continue
                keys, old, new, rec, v, where = subj
                block = ('pay', ('fld', rec, 'state'), 'RefundRequested', 'cancel_block')
                rep.check(pa.f.decide(('lt', now, block)) is True, R4, where, 'a dispute is accepted at or after the deadline')
                if rep.check(len(un) == 1 and not sch, R5, c.where, 'a dispute removes %d scheduled cancellations' % len(un)):
                    names.append((norm_name(pa.f.canon(un[0][1]), pa.f.canon(keys[1])), un[0][-1]))
            else:
                subj = pa.subject()
                for e in sch:
                    rep.bad(R1, e[-1], '%s schedules a call' % c.name)
                for e in un:
                    ended = subj is not None and subj[2] <= {'removed', 'Finished', 'NeedsReview'}
                    rep.check(ended, R5, e[-1], '%s removes a scheduled cancellation of a payment that is not over' % c.name)
                    if ended:
                        names.append((norm_name(pa.f.canon(e[1]), pa.f.canon(subj[0][1])), e[-1]))
    if names:
        for nm, at in names:
            rep.check(nm == names[0][0], R5, at, 'the scheduled cancellation is removed under another name than it was scheduled under')
    return 'Arguments of every scheduling operation on every way through the calls, compared with the recorded deadline, the stored payment and each other.'


def norm_name(t, pid):
    """a schedule name with the payment identifier abstracted and hash functions by their last name"""
    if t == pid:
        return ('payment id',)
    if isinstance(t, tuple):
        if t and t[0] == 'app' and isinstance(t[1], str):
            return ('app', t[1].split('::')[-1], tuple(norm_name(x, pid) for x in t[2]))
        return tuple(norm_name(x, pid) if isinstance(x, tuple) else x for x in t)
    return t


def p08(rep):
    R1, R2, R3, R4 = ('payment and index entry are recorded together', 'record carries what was asked for', 'identifier in use is refused', 'only the state of a record changes')
    for w, c, good, bad in each(rep, [(1, 1), (2, 0)]):
        for pa in good:
            ws, ps = pa.of('Payment'), pa.of('PaymentParties')
            for keys, (v, where) in ws.items():
                cell = ('sto', 'Payment', keys)
                known = pa.f.decide_is(cell, 'Some')
                rec = ('pay', cell, 'Some', '0')
                old = pa.old_states(keys)
                mine = [(k, x) for k, x in ps.items() if pa.same(k[0], keys[1])]
                if v is None:
                    rep.check(mine and all(x[0] is None for k, x in mine), R1, where, '%s removes a payment but not its index entry' % c.name)
                    continue
                create = c.name in ('pay', 'request_payment') or known is not True
                if not create:
                    rep.check(not mine, R1, where, '%s changes the index entry of a payment that stays' % c.name)
                    before = w.model.record(rec)
                    for fn, x in before[3]:
                        if fn == 'state':
                            continue
                        rep.check(pa.same(w.field(v, fn, pa.st), x), R4, where, '%s changes the field %s of a payment' % (c.name, fn))
                    continue
                ben = w.field(v, 'beneficiary', pa.st)
                rep.check(len(mine) == 1 and mine[0][1][0] is not None and pa.same(mine[0][1][0], ('tup', (keys[0], ben))), R1, where,
                          'the index entry does not name the sender and beneficiary of the payment')
                # identifier in use
                pc = ('sto', 'PaymentParties', (keys[1],))
                pp = ('pay', pc, 'Some', '0')
                free = pa.f.decide_is(pc, 'Some') is False
                same = pa.same(('fld', pp, '0'), keys[0]) and pa.same(('fld', pp, '1'), ben)
                rep.check(free or same, R3, where, 'an identifier in use by other parties is taken over', 'identifier in use by other parties taken over')
                rep.check(old <= {'none', 'PaymentRequested'}, R3, where, 'a payment in progress is overwritten')
                if c.name not in ('pay', 'request_payment'):
                    continue
                rep.check(pa.same(keys[1], app('next id', keys[0], ben)), R1, where, 'the identifier is not the one generated for the two parties')
                # what was asked for
                g = lambda n: w.field(v, n, pa.st)
                asset, amount = c.args.get('asset', c.argv[2]), c.args.get('amount', c.argv[3])
                rep.check(pa.same(g('asset'), asset), R2, where, 'the recorded asset is not the requested one')
                rep.check(pa.same(g('amount'), amount), R2, where, 'the recorded amount is not the requested one')
                other = app('lookup', c.argv[1])
                caller = [a for o, a in pa.auth()]
                if c.name == 'pay':
                    rep.check(pa.same(ben, other), R2, where, 'the recorded beneficiary is not the one named')
                    rep.check(any(pa.same(keys[0], a) for a in caller), R2, where, 'the recorded sender is not the caller')
                else:
                    rep.check(pa.same(keys[0], other), R2, where, 'the recorded sender is not the one named')
                    rep.check(any(pa.same(ben, a) for a in caller), R2, where, 'the recorded beneficiary is not the caller')
                pct = app('const', ('s', 'IncentivePercentage'))
                shares = [app(m, pct, amount) for m in ('mul_floor', 'mul_ceil')] + [app('mul', *sorted((pct, amount), key=repr))]
                rep.check(any(pa.same(g('incentive_amount'), x) for x in shares), R2, where, 'the incentive is not the configured share of the amount')
                fees = g('fees')
                remark = c.argv[4] if c.name == 'pay' else NONE
                src = fee_source(fees)
                rep.check(src is not None and all(pa.same(a, b) for a, b in zip(src, (asset, keys[0], ben, amount))) and opt_same(pa, src[4], remark), R2, where,
                          'the recorded fees are not the ones the fee handler sets for this payment')
                rep.check(whole_fees(w, fees, pa.st), R2, where, 'the recorded fees differ from what the fee handler set')
            for keys, (v, where) in ps.items():
                if not any(pa.same(keys[0], k[1]) for k in ws):
                    rep.bad(R1, where, '%s changes the index entry of a payment without changing the payment' % c.name)
    return ('Records written by every way through every call: payment and index entry together, each field against the call\'s arguments, the configuration and the '
            'fee handler, and fields other than the state unchanged afterwards. The index of parties and the payments are assumed to agree before the call and shown to agree after it.')


def opt_same(pa, a, b):
    if pa.same(a, b):
        return True
    if a[0] == 'adt' and a[2] == 'Some' and pa.f.variant(b) == 'Some':
        return pa.same(fields(a)['0'], ('pay', b, 'Some', '0'))
    return a[0] == 'adt' and a[2] == 'None' and pa.f.variant(b) == 'None'


def fee_source(fees):
    """arguments of the fee handler whose result this table is"""
    found = []

    def go(t):
        if isinstance(t, tuple) and t:
            if t[0] == 'app' and t[1] == 'fees':
                found.append(t[2])
                return
            for x in t:
                go(x)
    go(fees)
    return found[0] if found and all(x == found[0] for x in found) and len(found[0]) == 5 else None


def whole_fees(w, fees, st):
    src = fee_source(fees)
    return src is not None and fees == w.model.fees(app('fees', *src))


EVENTS = {'pay': {'Created': 'PaymentCreated'}, 'release': 'PaymentReleased', 'request_refund': 'PaymentCreatorRequestedRefund',
          'accept_and_pay': 'PaymentRequestCompleted', 'dispute_refund': 'PaymentRefundDisputed', 'request_payment': 'PaymentRequestCreated',
          'resolve_dispute': 'PaymentDisputeResolved'}


def p09(rep):
    R1, R2, R3 = 'failed step fails the call', 'one event of the call\'s kind', 'event names the payment'
    for w, c, good, bad in each(rep, [(1, 1), (2, 0), (0, 2)]):
        for pa in good:
            fs = pa.effects('failed')
            for e in fs:
                rep.bad(R1, e[-1], '%s succeeds although %s failed' % (c.name, e[1]), '%s succeeds although %s failed' % (c.name, e[1]))
            if not fs:
                rep.ok(R1, c.where)
            for e in pa.effects('ext'):
                t = w.I.typeof(('ret',))
            if fs or c.name not in STEPS:
                continue
            evs = pa.effects('event')
            if not rep.check(len(evs) == 1, R2, evs[1][-1] if len(evs) > 1 else c.where, '%s succeeds with %d events' % (c.name, len(evs))):
                continue
            ev = evs[0][1]
            if c.name == 'pay':
                want = {'PaymentCreated'}
            elif c.name == 'cancel':
                subj = pa.subject()
                want = set()
                for o in (subj[1] if subj else ()):
                    want.add({'Created': 'PaymentCancelled', 'RefundRequested': 'PaymentRefunded'}.get(o, '?'))
            else:
                want = {EVENTS[c.name]}
            kind = ev[2] if ev[0] == 'adt' else '?'
            rep.check(want == {kind}, R2, evs[0][-1], '%s emits %s instead of %s' % (c.name, kind, ' or '.join(sorted(want))))
            subj = pa.subject()
            if subj is None:
                rep.bad(R3, c.where, '%s succeeds without acting on one payment' % c.name)
                continue
            d = dict(ev[3]) if ev[0] == 'adt' else {}
            rep.check('payment_id' in d and pa.same(d['payment_id'], subj[0][1]), R3, evs[0][-1], 'the event of %s does not carry the identifier of the payment' % c.name)
            if kind == 'PaymentCreated':
                for k, a in (('asset', 'asset'), ('amount', 'amount'), ('remark', 'remark')):
                    if k in d and a in c.args:
                        rep.check(pa.same(d[k], c.args[a]) or opt_same(pa, d[k], c.args[a]), R3, evs[0][-1], 'the event of pay does not carry the %s' % k)
            if kind == 'PaymentCreatorRequestedRefund':
                st_ = w.field(subj[4], 'state', pa.st)
                block = w.I.payload(st_, 'RefundRequested', 'cancel_block', pa.st)
                rep.check('expiry' in d and pa.same(d['expiry'], block), R3, evs[0][-1], 'the event does not carry the recorded deadline')
    rep.assumptions.append('a call that returns an error has all its effects undone (storage layer of the dispatch)')
    return 'Every failing outcome of every fallible step on every way through the calls reaches the caller as an error; every success carries one matching event.'


def p10(rep):
    R1, R2, R3 = 'totals add up', 'mandatory and optional fees are told apart', 'per-recipient list carries the same money'
    for k in range(ENTRIES + 1):
        w = World(rep, (k, k))
        fees = w.model.fees(sym('payment fees'))
        role = w.type('Role')
        rn = '::'.join(role.path)
        ty = ('t', '::'.join(w.fee_def.path), (('param', 'T'),))
        fn = None
        for im in w.p.find_impls(ty):
            for f in im.fns.values():
                ps = [q for q in f['params'] if not q.get('self')]
                if len(ps) == 2 and len(f['params']) == 3 and w.p.ty(ps[0]['ty'], im.mod, im.gen, ty)[:2] == ('t', rn) and w.p.ty(ps[1]['ty'], im.mod, im.gen, ty) == ('t', 'bool', ()):
                    if fn is None or f['id'] == 'summary_for':
                        fn, fim = f, im
        if fn is None:
            raise P.SourceError(w.fee_def.mod.file, 0, 'no summary of the fees for a role')
        where = '%s:%s (%s)' % (fim.mod.file, fn['l'], fn['id'])
        for rl, fld in (('Sender', 'sender_pays'), ('Beneficiary', 'beneficiary_pays')):
            mine = [x[1] for x in dict(fees[3])[fld][1]]
            for disp in (False, True):
                outs = w.I.run(fn, fim.mod, ty, [fees, ('adt', rn, rl, ()), B(disp)], State(), dict(fim.gen), fim)
                for o in outs:
                    rep.paths += 1
                    if o[0] == 'panic':
                        rep.bad(R1, o[1][1], 'the fee summary can panic: %s' % o[1][0])
                        continue
                    for good, val, s in w.I.std.cases(w.I.rv(o[1], o[2]), 'Result', o[2]):
                        if not good:
                            rep.bad(R1, where, 'the fee summary fails')
                            continue
                        val = strip(w.I.deep(val, s))
                        cur = [s]
                        for acc, x, flag in mine:
                            cur = [s2 for s1 in cur for b, s2 in w.I.branch(s1, flag)]
                        for s1 in cur:
                            p10_case(rep, w, where, val, mine, disp, s1, (R1, R2, R3), rl)
        w.done()
    return 'Summary of fee tables with up to %d entries, any recipients (equal or not), any amounts and flags, for both parties, in and out of a dispute.' % ENTRIES


def p10_case(rep, w, where, val, mine, disp, s, R, rl):
    f = s.facts
    R1, R2, R3 = R
    lst, charge, ret = val[1] if val[0] == 'tup' and len(val[1]) == 3 else (None, None, None)
    if lst is None or lst[0] not in ('arr', 'iter'):
        rep.bad(R1, where, 'the fee summary is not a list with two totals')
        return
    tot = lsum([x[1] for x in mine])
    zero = lambda t: f.decide_eq(f.canon(t), I(0)) is True
    rep.check(zero(lsub(ladd(charge, ret), tot)), R1, where, 'the totals for the %s do not add up to all fees (%s)' % (rl, 'dispute' if disp else 'no dispute'))
    mand = lsum([x[1] for x in mine if f.decide(x[2]) is True])
    want = mand if disp else tot
    rep.check(zero(lsub(charge, want)), R2, where, 'the total to be charged to the %s is not %s' % (rl, 'the mandatory fees' if disp else 'all fees'))
    A, E = {}, {}

    def put(D, e):
        flag = f.decide(e[2])
        k = (f.canon(e[0]), flag if flag is not None else f.canon(e[2]))
        if not disp:
            k = (k[0],)
        D[k] = ladd(D.get(k, I(0)), e[1])
    for e in lst[1]:
        e = strip(w.I.deep(e, s))
        if e[0] != 'tup':
            e = ('tup', tuple(w.field(e, str(i), s) for i in range(3)))
        put(A, e[1])
    for e in mine:
        put(E, e)
    bad = [k for k in set(A) | set(E) if not zero(lsub(A.get(k, I(0)), E.get(k, I(0))))]
    rep.check(not bad, R3, where, 'the per-recipient list for the %s does not carry the fees of each recipient (%s)' % (rl, 'dispute: mandatory and optional fees of one recipient are mixed up' if disp else 'no dispute'))


def p11(rep):
    r1, r2, r3 = 'new payments and fees keep the payer\'s account open', 'payouts may use up the payer\'s account', 'frozen funds are left alone'
    for w, c, good, bad in each(rep, [(1, 1), (2, 1)]):
        for pa in good:
            steps_ = steps(rep, w, c, pa)
            res = [a for og, a in pa.auth()]
            for e in pa.eff:
                if e[0] != 'mode':
                    continue
                op, where, (keep, fort) = e[1], e[-1], e[-3:-1]
                src, dst = (e[3], e[4]) if op == 'transfer' else (e[4], e[5])
                if fort is not None:
                    rep.check(is_adt(fort, 'Polite'), r3, where, '%s may take funds that are frozen for another purpose' % c.name)
                for o, n_, keys, rec, _ in steps_:
                    if o == n_:
                        continue
                    ben = w.rec_values(rec, pa.st)[2]
                    pays_out = any(pa.same(dst, x) for x in [keys[0], ben] + res)
                    if n_ in ('Created', 'NeedsReview') or not pays_out:
                        rep.check(is_adt(keep, 'Preserve'), r1, where, '%s can close the account %s %s' % (
                            c.name, show(src), 'paying a fee' if not pays_out else 'locking the amount'))
                    else:
                        rep.check(is_adt(keep, 'Expendable'), r2, where, '%s fails when the payout to %s uses up the account %s' % (c.name, show(dst), show(src)))
    return 'How every transfer on every successful way through every call treats the account it leaves: kept open for new payments and fees, expendable for payouts.'


def entitled(w, c, who, state):
    """facts that entitle a caller to a call on a payment in the given state"""
    org, role = ORIGIN[c.name]
    fs = []
    if 'payment_id' in c.args:
        pid = c.args['payment_id']
        pp = w.model.parties_term(pid)
        S = ('fld', pp, '0')
        keys = (S, pid)
        fs.append((('is', ('sto', 'PaymentParties', (pid,)), 'Some'), True))
        if role:
            fs.append((('eq', ('fld', pp, '0' if role == 'sender' else '1'), who), True))
        if role == 'sender':
            keys = (who, pid)
        rec = w.model.rec_term(keys)
        fs += [(('is', ('sto', 'Payment', keys), 'Some'), True), (('eq', ('fld', rec, 'beneficiary'), ('fld', pp, '1')), True),
               (('is', ('fld', rec, 'state'), state), True)]
        if c.name == 'dispute_refund':
            fs.append((('lt', app('frame_system::block_number'), ('pay', ('fld', rec, 'state'), 'RefundRequested', 'cancel_block')), True))
    else:
        other = app('lookup', strip(c.args['beneficiary' if role == 'sender' else 'sender']))
        S, B = (who, other) if role == 'sender' else (other, who)
        pid = app('next id', S, B)
        fs += [(('is', ('sto', 'PaymentParties', (pid,)), 'Some'), False), (('is', ('sto', 'Payment', (S, pid)), 'Some'), False)]
    return fs


def p12(rep):
    r1, r2 = 'a call that is due fails only with one of its steps', 'no call panics'
    for w, c, good, bad in each(rep, [(1, 1)]):
        if c.name not in STEPS:
            continue
        for o in bad:
            st = o[2]
            if any(e[0] == 'failed' for e in st.eff):
                continue
            at = st.eff[-1][-1] if st.eff else c.where
            rep.check(o[0] != 'panic', r2, at, '%s can panic' % c.name)
            auth = [e[2] for e in st.eff if e[0] == 'auth']
            what = fields(o[1]).get('0') if o[0] != 'panic' and is_adt(o[1], 'Err') else None
            what = what[2] if what and what[0] == 'adt' else 'an error'
            if not rep.check(auth, r1, c.where, '%s fails with %s before its caller is known' % (c.name, what)):
                continue
            if any(k[0] == 'overflow' and v for k, v in getattr(st.facts, 'lits', {}).items() if isinstance(k, tuple)):
                rep.ok(r1, at)
                continue
            for s in sorted(STEPS[c.name][0] - ({'PaymentRequested'} if 'none' in STEPS[c.name][0] else set())):
                f = st.facts
                for x, v in entitled(w, c, auth[0], s):
                    f = f and f.assume(x, v)
                rep.check(not f or not f.consistent(), r1, c.where, '%s fails with %s for a caller entitled to it while the payment is %s' % (c.name, what, {'none': 'new'}.get(s, s)),
                          '%s refused with %s while %s' % (c.name, what, s))
    rep.assumptions.append('a payment in storage and its index entry name the same parties (established by P08)')
    return 'Every failing way through every call without a failed step contradicts the conditions that entitle the caller to the call.'


RULES = {'P12': p12, 'P11': p11, 'P01': p01, 'P02': p02, 'P03': p03, 'P04': p04, 'P05': p05, 'P06': p06, 'P07': p07, 'P08': p08, 'P09': p09, 'P10': p10}

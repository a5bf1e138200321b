"""Rules for how the chain is run (R17-R23): passkey registration, the collective's terms, the interfaces nodes use, deposits, the rhythm
of blocks and sessions, the room in a block, and the genesis of local networks."""
from fractions import Fraction
from .terms import *
from . import prog as P
from .frame import strip
from .interp import Interp, State, V, Env, Unsupported
from . import runtime as R
from .runtime import World, RtModel, SpecModel, RT, ACC, show, last, fmt, adts_with, text_of, plain, admitted, parts, block_time

EXT = {'NORMAL_DISPATCH_RATIO': Fraction(3, 4), 'AVERAGE_ON_INITIALIZE_RATIO': Fraction(1, 20)}
SECOND = 10 ** 12


def whole(w, t):
    v = w.value(t) if t is not None else None
    return v[1] if v is not None and v[0] == 'int' else None


# ------------------------------------------------------------------ R17
def r17(rep):
    for paseo in (False, True):
        w = World(rep, paseo=paseo)
        R_ = 'registering a passkey account costs the deposit'
        ed, _ = w.setting('pallet_balances', 'ExistentialDeposit')
        ed = w.value(ed)
        t, where = w.setting('pallet_pass', 'RegisterOrigin')
        who = sym('who', ACC)
        seen = set()
        for cls, o in w.principals().items():
            for a, v, s in w.admit(t, o, [sym('user', ('t', 'HashedUserId', ()))], State()):
                rep.paths += 1
                if not a:
                    continue
                seen.add(cls)
                v = strip(w.I.deep(v, s))
                if cls in ('root', 'community'):
                    rep.check(v == NONE, R_, where, 'a %s origin pays for registering a passkey account' % cls, 'free ' + cls)
                elif cls == 'signed':
                    free = v == NONE and any(s.facts.decide_eq(who, x) is True for x in list(s.facts.eqs) + list(s.facts.eqs.values()) if x[0] == 'app' and x[1] == 'sub account')
                    rep.check(free or v == some(app('pay', who, ed, app('account of', ('s', 'Treasury')))), R_, where, 'an account registers a passkey account for %s' % fmt(v), 'price')
                else:
                    rep.check(False, R_, where, 'a %s origin may register passkey accounts' % cls, 'register ' + cls)
        for cls in ('root', 'signed', 'community'):
            rep.check(cls in seen, R_, where, 'no %s origin can register passkey accounts' % cls, 'never ' + cls)
        R_ = 'sessions end'
        t, where = w.setting('pallet_pass', 'MaxSessionDuration')
        n = whole(w, t)
        rep.check(n is not None and n * block_time(w) == 15 * 60 * 1000, R_, where, 'a session lasts up to %s blocks of %d ms' % (n, block_time(w)), 'session')
        t, where = w.setting('pallet_pass', 'Scheduler')
        rep.check(last(t) == 'Scheduler' and t[1] in w.aliases, R_, where, 'the end of sessions is scheduled by %s' % show(t), 'scheduler')
        w.done()
    return ('Evaluates, for both networks, the configured registration origin on every class of caller together with the deposit it asks for, and the longest session against the block time.')


# ------------------------------------------------------------------ R18
TRACKS = {'root': (10, Fraction(9, 10), Fraction(0)), 'referendumcanceller': (1, Fraction(9, 10), Fraction(0)), 'referendumkiller': (1, Fraction(9, 10), Fraction(0)),
          'creatememberships': (1, Fraction(1, 2), Fraction(1, 2))}


def fraction(v):
    """a ratio or fixed-point number as a fraction"""
    if v[0] == 'int':
        return Fraction(v[1])
    if v[0] == 'app' and all(x[0] == 'int' for x in v[2]):
        n = v[1].split('::')[-1]
        ns = [x[1] for x in v[2]]
        if n in ('ratio', 'from_rational', 'saturating_from_rational') and len(ns) == 2 and ns[1]:
            return Fraction(*ns)
        if n in ('from_u32', 'from_integer', 'saturating_from_integer') and len(ns) == 1:
            return Fraction(ns[0])
    return None


def straight(v):
    """(from, to) of a curve falling in a straight line over the whole time, or None"""
    if v[0] == 'adt' and v[2] == 'LinearDecreasing':
        f = {k: fraction(x) for k, x in v[3]}
        return (f.get('ceil'), f.get('floor')) if f.get('length') == 1 else None
    if v[0] == 'app' and v[1].split('::')[-1] == 'make_linear' and len(v[2]) == 4:
        a = [fraction(x) for x in v[2]]
        return (a[3], a[2]) if a[1] and a[0] == a[1] else None
    return None


def r18(rep):
    for paseo in (False, True):
        w = World(rep, paseo=paseo)
        unit = 10 ** (10 if paseo else 12)
        ms = block_time(w)
        minute, day = 60_000 // ms, 86_400_000 // ms
        R_ = 'tracks of the collective'
        t, where = w.setting('pallet_referenda', 'Tracks', 'Instance1')
        outs, tw = w.run(t, 'tracks', [])
        seen = set()
        for o in outs:
            if o[0] != 'v':
                continue
            for x in adts_with(strip(w.I.deep(o[1], o[2])), {'id', 'info'}):
                info = dict(x[3])['info']
                if info[0] != 'adt':
                    rep.check(False, R_, tw, 'the terms of track %s cannot be read' % fmt(dict(x[3])['id']), 'unread')
                    continue
                f = dict(info[3])
                name = plain(text_of(f.get('name')) or '')
                if name not in TRACKS:
                    rep.check(False, R_, tw, 'there is a track named "%s"' % text_of(f.get('name')), 'unknown track')
                    continue
                seen.add(name)
                dep, app_, sup = TRACKS[name]
                say = lambda k, want: rep.check(f.get(k) == I(want), R_, tw, '%s of the track "%s" is %s, not %d' % (k.replace('_', ' '), text_of(f['name']), fmt(f.get(k, UNIT)), want), '%s %s' % (k, name))
                say('max_deciding', 1)
                say('decision_deposit', dep * unit)
                say('prepare_period', 15 * minute)
                say('decision_period', 4 * day)
                say('confirm_period', 15 * minute)
                say('min_enactment_period', 1)
                for k, low in (('min_approval', app_), ('min_support', sup)):
                    rep.check(straight(f.get(k, UNIT)) == (1, low), R_, tw, 'the %s of the track "%s" does not fall in a straight line from all to %s' % (k.split('_')[1], text_of(f['name']), low), '%s %s' % (k, name))
        for n in TRACKS:
            rep.check(n in seen, R_, tw, 'the track "%s" is missing' % n, 'missing ' + n)
        R_ = 'who votes and proposes'
        t, where = w.setting('pallet_ranked_collective', 'MinRankOfClass', 'Instance1')
        outs, fw = w.run(t, 'convert', [sym('track', ('t', 'u16', ()))])
        for o in outs:
            v = strip(w.I.deep(o[1], o[2])) if o[0] == 'v' else UNIT
            rep.check(v == I(1), R_, where, 'members vote from rank %s on' % fmt(v), 'rank')
        t, where = w.setting('pallet_ranked_collective', 'VoteWeight', 'Instance1')
        rep.check(t is not None and last(t) == 'Linear' and w.p.def_of(t[1]) is None, R_, where, 'votes weigh by %s' % show(t), 'weight')
        t, where = w.setting('pallet_ranked_collective', 'Polls', 'Instance1')
        q = w.aliases.get(t[1]) if t is not None and t[0] == 't' else None
        rep.check(q is not None and q.crate == 'pallet_referenda' and q.inst == 'Instance1', R_, where, 'the collective votes in %s' % show(t), 'polls')
        t, where = w.setting('pallet_referenda', 'Tally', 'Instance1')
        rep.check(t is not None and last(t) in ('Tally', 'TallyOf') and any(last(x) == 'Instance1' for x in t[2]) and 'ranked_collective' in t[1], R_, where, 'votes of the collective are counted in %s' % show(t), 'tally')
        t, where = w.setting('pallet_referenda', 'SubmitOrigin', 'Instance1')
        got = {}
        for cls, v, r in admitted(w, t, where, [sym('track origin', ('t', R.OC, ()))]):
            got[cls] = v
        rep.check(set(got) == {'signed'} and got['signed'] == sym('who', ACC), R_, where, 'proposals are submitted by %s' % (', '.join(sorted(got)) or 'nobody'), 'submit')
        t, where = w.setting('pallet_referenda', 'SubmissionDeposit', 'Instance1')
        rep.check(whole(w, t) == unit, R_, where, 'submitting costs a deposit of %s' % whole(w, t), 'submission deposit')
        t, where = w.setting('pallet_referenda', 'UndecidingTimeout', 'Instance1')
        rep.check(whole(w, t) == 2 * day, R_, where, 'an undecided proposal times out after %s blocks' % whole(w, t), 'timeout')
        R_ = 'lost deposits'
        for inst in ('Instance1', 'Instance2'):
            t, where = w.setting('pallet_referenda', 'Slash', inst)
            q = w.aliases.get(t[1]) if t is not None and t[0] == 't' else None
            rep.check(q is not None and q.crate == 'pallet_treasury', R_, where, 'deposits of killed referenda go to %s' % show(t), 'slash ' + inst)
        w.done()
    return ('Interprets the table of tracks of the collective for both networks and compares every parameter of every track with the published terms in blocks of the runtime\'s block time; evaluates '
            'the rank and weight settings of the collective, the submit origin on every class of caller, the deposit, the timeout and the receiver of lost deposits.')


# ------------------------------------------------------------------ R19
class ApiModel(RtModel):
    """the interfaces of the runtime: the executive and the pallets answer opaquely"""

    def rt_call(self, q, m, args, n, env, st, want):
        I_ = self.I
        if q.crate == 'pallet_assets' and m == 'account_balances' and len(args) == 1:
            # an account with two assets
            def g(vs, s):
                who = strip(I_.deep(vs[0], s))
                rows = []
                for i in (0, 1):
                    a, b = app('asset', who, I(i)), app('balance', who, I(i))
                    I_.note_type(a, ('t', 'FungibleAssetLocation', ()))
                    I_.note_type(b, ('t', 'u128', ()))
                    rows.append(('tup', (a, b)))
                return V(('arr', tuple(rows)), s)
            return I_.many(args, env, st, None, g)
        if q.crate == 'pallet_balances' and m in ('free_balance', 'balance', 'total_balance'):
            def g(vs, s):
                x = app('Balances::' + m, *[strip(I_.deep(v, s)) for v in vs])
                I_.note_type(x, ('t', 'u128', ()))
                return V(x, s)
            return I_.many(args, env, st, None, g)
        return super().rt_call(q, m, args, n, env, st, want)

    def call_path(self, f, args, n, env, st, want):
        if f['segs'][-1]['id'] in ('convert', 'convert_balance') and self.p.resolve(env.mod, tuple(x['id'] for x in f['segs']), 'values')[0] is None:
            I_ = self.I
            name = f['segs'][-1]['id']
            return I_.many(args, env, st, None, lambda vs, s: self.fallible(name, s, n, ok(app(name, *[strip(I_.deep(x, s)) for x in vs])), None, err(app('no conversion'))))
        return super().call_path(f, args, n, env, st, want)


def api_impls(w):
    """the implementations of the interfaces the runtime offers to nodes"""
    out = {}
    for m in w.crate.modules:
        for it in m.macros:
            if it['m']['name'] != 'impl_runtime_apis':
                continue
            if 'items' not in it['m']:
                raise P.SourceError(m.file, it['l'], 'the interfaces of the runtime cannot be parsed')
            for x in it['m']['items']:
                if x['k'] == 'Impl' and P.cfg_ok(x.get('attrs'), w.crate.cfg):
                    im = P.Impl(x, m, w.crate.cfg)
                    im.gen = {}
                    im.self_ty, im.trait_args = ('t', RT, ()), []
                    out[im.trait['segs'][-1]['id']] = im
    return out


# interface, function -> (names of what answers, order of the arguments)
ANSWERS = {('AuraApi', 'authorities'): ({'Authorities::get', 'Aura::authorities', 'authorities'}, ()),
           ('AuraUnincludedSegmentApi', 'can_build_upon'): ({'can_build_upon'}, (0, 1)),
           ('Core', 'execute_block'): ({'execute_block'}, (0,)), ('Core', 'initialize_block'): ({'initialize_block'}, (0,)),
           ('BlockBuilder', 'apply_extrinsic'): ({'apply_extrinsic'}, (0,)), ('BlockBuilder', 'finalize_block'): ({'finalize_block'}, ()),
           ('BlockBuilder', 'inherent_extrinsics'): ({'create_extrinsics'}, (0,)), ('BlockBuilder', 'check_inherents'): ({'check_extrinsics'}, (1, 0)),
           ('OffchainWorkerApi', 'offchain_worker'): ({'offchain_worker'}, (0,)),
           ('SessionKeys', 'generate_session_keys'): ({'SessionKeys::generate'}, (0,)), ('SessionKeys', 'decode_session_keys'): ({'SessionKeys::decode_into_raw_public_keys'}, (0,)),
           ('AccountNonceApi', 'account_nonce'): ({'System::account_nonce'}, (0,)),
           ('TransactionPaymentApi', 'query_info'): ({'TransactionPayment::query_info'}, (0, 1)), ('TransactionPaymentApi', 'query_fee_details'): ({'TransactionPayment::query_fee_details'}, (0, 1)),
           ('TransactionPaymentApi', 'query_weight_to_fee'): ({'TransactionPayment::weight_to_fee'}, (0,)), ('TransactionPaymentApi', 'query_length_to_fee'): ({'TransactionPayment::length_to_fee'}, (0,)),
           ('TransactionPaymentCallApi', 'query_call_info'): ({'TransactionPayment::query_call_info'}, (0, 1)),
           ('TransactionPaymentCallApi', 'query_call_fee_details'): ({'TransactionPayment::query_call_fee_details'}, (0, 1)),
           ('TransactionPaymentCallApi', 'query_weight_to_fee'): ({'TransactionPayment::weight_to_fee'}, (0,)), ('TransactionPaymentCallApi', 'query_length_to_fee'): ({'TransactionPayment::length_to_fee'}, (0,)),
           ('CollectCollationInfo', 'collect_collation_info'): ({'ParachainSystem::collect_collation_info'}, (0,))}


def unwrap(v):
    """a value without the conversions around it"""
    while True:
        if v[0] == 'conv':
            v = v[2]
        elif v[0] == 'app' and v[1] in ('into', 'into_inner', 'to_vec', 'clone') and len(v[2]) == 1:
            v = v[2][0]
        else:
            return v


def numbers(v):
    return {k: x[1] for k, x in v[3] if x[0] == 'int'} if v is not None and v[0] == 'adt' else None


def r19(rep):
    w = World(rep, model=ApiModel)
    apis = api_impls(w)
    if not apis:
        raise P.SourceError(w.crate.root.file, 0, 'no interfaces of the runtime found')

    def run(trait, fn):
        im = apis.get(trait)
        if im is None or fn not in im.fns:
            raise P.SourceError(w.crate.root.file, 0, 'the interface %s::%s is missing' % (trait, fn))
        f = im.fns[fn]
        args = [sym('argument %d' % i, w.p.ty(q['ty'], im.mod, {}, im.self_ty)) for i, q in enumerate(f['params'])]
        outs = w.I.run(f, im.mod, im.self_ty, args, State(), {}, im)
        rep.paths += len(outs)
        return outs, args, '%s:%s (%s)' % (im.mod.file, f['l'], fn)
    R_ = 'an interface answers what its part of the runtime answers'
    for (trait, fn), (names, order) in ANSWERS.items():
        outs, args, fw = run(trait, fn)
        for o in outs:
            if o[0] == 'panic':
                rep.check(False, R_, fw, '%s may panic' % fn, 'panic ' + fn)
                continue
            v = unwrap(strip(w.I.deep(o[1], o[2])))
            say = v[0] == 'app' and any(v[1] == n or v[1].endswith('::' + n) for n in names)
            rep.check(say, R_, fw, '%s answers %s' % (fn, fmt(v)), 'answer %s %s' % (trait, fn))
            if say:
                rep.check([unwrap(x) for x in v[2]] == [args[i] for i in order], R_, fw, '%s answers for other arguments than the given ones' % fn, 'arguments %s %s' % (trait, fn))
    R_ = 'nodes are told the rhythm and version in force'
    outs, args, fw = run('AuraApi', 'slot_duration')
    for o in outs:
        v = unwrap(strip(w.I.deep(o[1], o[2]))) if o[0] == 'v' else UNIT
        rep.check(v[0] == 'app' and v[1].split('::')[-1] == 'from_millis' and v[2] == (I(block_time(w)),), R_, fw, 'the slot duration told to nodes is %s, blocks are authored every %d ms' % (fmt(v), block_time(w)), 'slot')
    t, where = w.setting('frame_system', 'Version')
    mine = numbers(w.value(t))
    outs, args, fw = run('Core', 'version')
    for o in outs:
        v = numbers(unwrap(strip(w.I.deep(o[1], o[2])))) if o[0] == 'v' else None
        rep.check(v is not None and v == mine and 'spec_version' in v, R_, fw, 'the version told to nodes differs from the one transactions are checked against', 'version')
    R_ = 'calls the base filter refuses do not enter the pool'
    outs, args, fw = run('TaggedTransactionQueue', 'validate_transaction')
    seen = set()
    for o in outs:
        if o[0] == 'panic':
            rep.check(False, R_, fw, 'validating a transaction may panic', 'panic validate')
            continue
        v, s = unwrap(strip(w.I.deep(o[1], o[2]))), o[2]
        lets = [b for a, b in s.facts.lits.items() if a[0] == 'app' and a[1].endswith('BaseCallFilter::contains') and a[2] == (('fld', args[1], 'function'),)]
        let = lets[0] if lets else None
        seen.add(let)
        goes = v[0] == 'app' and v[1].endswith('validate_transaction')
        if let is None:
            rep.check(False, R_, fw, 'a transaction is judged without asking the base filter about its call', 'unasked')
        elif let:
            rep.check(goes and list(v[2]) == args, R_, fw, 'a transaction the base filter lets through is answered with %s' % fmt(v), 'let through')
        else:
            rep.check(v[0] == 'adt' and (v[1] == 'InvalidTransaction' or v[2] == 'Err'), R_, fw, 'a transaction the base filter refuses is answered with %s' % fmt(v), 'refused')
    R_ = 'the balances query lists what is positive'
    outs, args, fw = run('FungiblesApi', 'query_account_balances')
    n = 0
    who = args[0]
    for o in outs:
        if o[0] == 'panic':
            rep.check(False, R_, fw, 'the balances query may panic', 'panic balances')
            continue
        s = o[2]
        v = strip(w.I.deep(o[1], s))
        if v[0] == 'adt' and v[2] == 'Err':
            rep.check(bool([e for e in s.eff if e[0] == 'failed']), R_, fw, 'the balances query fails without a failing conversion', 'fails')
            continue
        n += 1
        native = set(R.all_apps(v, 'convert_balance'))
        has = [b for b in (s.facts.decide(('lt', I(0), app('Balances::' + k, who))) for k in ('free_balance', 'total_balance', 'balance')) if b is not None]
        rep.check(bool(has) and (len(native) == 1 if has[0] else not native), R_, fw, 'the native balance is %s' % ('listed though it is zero' if native else 'left out though it is positive'), 'native')
        for a in native:
            rep.check(a[2][0][0] == 'app' and a[2][0][1].startswith('Balances::') and a[2][0][2] == (who,), R_, fw, 'the native balance listed is %s' % fmt(a[2][0]), 'native amount')
        lists = set(R.all_apps(v, 'convert'))
        rep.check(len(lists) == 1, R_, fw, 'assets are listed %d times' % len(lists), 'assets')
        for a in lists:
            got = strip(w.I.deep(a[2][0], s))
            want = [('tup', (app('asset', who, I(i)), app('balance', who, I(i)))) for i in (0, 1) if s.facts.decide(('lt', I(0), app('balance', who, I(i)))) is True]
            known = all(s.facts.decide(('lt', I(0), app('balance', who, I(i)))) is not None for i in (0, 1))
            rep.check(known and got[0] in ('arr', 'iter') and [strip(x) for x in got[1]] == want, R_, fw, 'the assets listed are not those with a positive balance', 'asset list')
    rep.check(n > 0, R_, fw, 'the balances query never succeeds', 'never')
    rep.extra['interface functions'] = len(ANSWERS) + 4
    w.done()
    return ('Parses the implementations of the interfaces offered to nodes and interprets each function for arbitrary arguments: the answer must be what the responsible part of the runtime gives for the '
            'same arguments in the right order. The transaction check is followed for calls the base filter lets through and refuses, the balances query for an account with two assets.')


# ------------------------------------------------------------------ R20
def dep(cents, millis, items, size):
    return items * 20 * cents + size * millis


# pallet, instance, setting, items, bytes
DEPOSITS = [('pallet_multisig', None, 'DepositBase', 1, 88), ('pallet_multisig', None, 'DepositFactor', 0, 32),
            ('pallet_proxy', None, 'ProxyDepositBase', 1, 40), ('pallet_proxy', None, 'ProxyDepositFactor', 0, 33),
            ('pallet_proxy', None, 'AnnouncementDepositBase', 1, 48), ('pallet_proxy', None, 'AnnouncementDepositFactor', 0, 66),
            ('pallet_assets', 'Instance1', 'AssetAccountDeposit', 1, 16), ('pallet_assets', 'Instance1', 'MetadataDepositBase', 1, 68), ('pallet_assets', 'Instance1', 'MetadataDepositPerByte', 0, 1),
            ('pallet_nfts', 'Instance2', 'MetadataDepositBase', 1, 68), ('pallet_nfts', 'Instance2', 'AttributeDepositBase', 1, 0), ('pallet_nfts', 'Instance2', 'DepositPerByte', 0, 1),
            ('pallet_contracts', None, 'DepositPerItem', 1, 0), ('pallet_contracts', None, 'DepositPerByte', 0, 1)]


def r20(rep):
    for paseo in (False, True):
        net = 'the test network' if paseo else 'the main network'
        w = World(rep, paseo=paseo)
        unit = 10 ** (10 if paseo else 12)
        cent = unit // 100 if paseo else unit // 30 // 100
        milli = cent // 1000
        R_ = 'the price of storage'
        for name, want in (('UNITS', unit), ('CENTS', cent), ('MILLICENTS', milli)):
            d, k, e = w.p.resolve(w.crate.root, ('constants', 'currency', name), 'values')
            v = w.eval_const(d) if d is not None else UNIT
            rep.check(v == I(want), R_, '%s:%s (%s)' % (d.mod.file, d.node['l'], name) if d else w.crate.root.file, '%s on %s are %s, not %d' % (name, net, fmt(v), want), '%s %s' % (name, paseo))
        t, where = w.setting('pallet_balances', 'ExistentialDeposit')
        rep.check(whole(w, t) == cent // 10, R_, where, 'the least balance of an account on %s is %s, not a tenth of a cent' % (net, whole(w, t)), 'existential %s' % paseo)
        for crate, inst, name, want in (('pallet_assets', 'Instance1', 'AssetDeposit', unit // 10), ('pallet_nfts', 'Instance2', 'CollectionDeposit', 0), ('pallet_nfts', 'Instance2', 'ItemDeposit', 0),
                                        ('pallet_referenda', 'Instance2', 'SubmissionDeposit', 0)):
            t, where = w.setting(crate, name, inst)
            got = 0 if t == ('t', '()', ()) or t[0] == 'tup' and not t[1] else whole(w, t)
            rep.check(got == want, R_, where, '%s of %s on %s is %s, not %d' % (name, crate, net, got, want), '%s %s %s' % (crate, name, paseo))
        t, where = w.setting('pallet_assets', 'ApprovalDeposit', 'Instance1')
        rep.check(whole(w, t) == cent // 10, R_, where, 'an approval on %s takes a deposit of %s' % (net, whole(w, t)), 'approval %s' % paseo)
        for crate, inst, name, items, size in DEPOSITS:
            t, where = w.setting(crate, name, inst)
            got, want = whole(w, t), dep(cent, milli, items, size)
            rep.check(got == want, R_, where, '%s of %s on %s is %s, not %d (%d items and %d bytes)' % (name, crate, net, got, want, items, size), '%s %s %s' % (crate, name, paseo))
        t, where = w.setting('pallet_preimage', 'Consideration')
        price = [x for x in R.adts(t) if last(x) == 'LinearStoragePrice']
        rep.check(last(t) == 'HoldConsideration' and len(price) == 1, R_, where, 'preimages are charged by %s' % show(t), 'preimage')
        for x in price:
            rep.check(whole(w, x[2][0]) == dep(cent, milli, 2, 64), R_, where, 'a preimage on %s takes %s at least' % (net, whole(w, x[2][0])), 'preimage base %s' % paseo)
            rep.check(whole(w, x[2][1]) == dep(cent, milli, 0, 1), R_, where, 'each byte of a preimage on %s takes %s' % (net, whole(w, x[2][1])), 'preimage byte %s' % paseo)
        t, where = w.setting('pallet_transaction_payment', 'LengthToFee')
        rep.check(last(t) == 'ConstantMultiplier' and whole(w, t[2][1]) == 10 * milli, R_, where, 'each byte of a transaction on %s costs %s' % (net, whole(w, t[2][1]) if t[2] else show(t)), 'byte fee %s' % paseo)
        w.done()
    return ('Evaluates, for both networks, the currency units and every deposit setting of the configuration to a number and compares it with the price of the items and bytes the setting stands for.')


# ------------------------------------------------------------------ R21
def r21(rep):
    w = World(rep)
    ms = block_time(w)
    R_ = 'the rhythm of blocks'
    t, where = w.setting('pallet_aura', 'SlotDuration')
    rep.check(ms == 6000, R_, where, 'blocks are authored every %d ms' % ms, 'slot')
    t, where = w.setting('pallet_aura', 'AllowMultipleBlocksPerSlot')
    rep.check(t is not None and t[0] == 't' and w.value(t) == TRUE, R_, where, 'a slot that already has a block stops the chain', 'one per slot')
    t, where = w.setting('cumulus_pallet_parachain_system', 'ConsensusHook')
    good = last(t) == 'FixedVelocityConsensusHook' and w.p.def_of(t[1]) is None and len(t[2]) == 4
    rep.check(good, R_, where, 'blocks are accepted by %s' % show(t), 'hook')
    if good:
        relay, vel, cap = (w.const_arg(x) for x in t[2][1:])
        for what, got, want in (('relay slot', relay, ms), ('blocks per relay slot', vel, 1), ('blocks not yet included', cap, 3)):
            rep.check(got == I(want), R_, where, 'the consensus hook allows %s %s, not %d' % (what, fmt(got or UNIT), want), what)
    t, where = w.setting('pallet_timestamp', 'OnTimestampSet')
    q = w.aliases.get(t[1]) if t[0] == 't' else None
    rep.check(q is not None and q.crate == 'pallet_aura', R_, where, 'the timestamp is checked by %s' % show(t), 'timestamp')
    t, where = w.setting('pallet_timestamp', 'MinimumPeriod')
    rep.check(whole(w, t) is not None and whole(w, t) * 2 <= ms, R_, where, 'two blocks must lie %s ms apart' % whole(w, t), 'minimum period')
    for name in ('DAYS', 'HOURS', 'MINUTES'):
        d, k, e = w.p.resolve(w.crate.root, (name,), 'values')
        v = w.eval_const(d) if d is not None else I(R.EXT_CONSTS.get((e[0], e[-1]), 0)) if e else UNIT
        want = {'DAYS': 86400, 'HOURS': 3600, 'MINUTES': 60}[name] * 1000 // ms
        rep.check(v == I(want), R_, w.crate.root.file, '%s are counted as %s blocks, not %d' % (name.lower(), fmt(v), want), name)
    R_ = 'sessions'
    seen = []
    for name in ('ShouldEndSession', 'NextSessionRotation'):
        t, where = w.setting('pallet_session', name)
        good = last(t) == 'PeriodicSessions' and w.p.def_of(t[1]) is None and len(t[2]) == 2
        rep.check(good, R_, where, '%s is %s' % (name, show(t)), name)
        if good:
            seen.append((whole(w, t[2][0]), whole(w, t[2][1])))
            rep.check(seen[-1][0] is not None and seen[-1][0] * ms == 6 * 3600 * 1000, R_, where, 'a session lasts %s blocks' % seen[-1][0], 'length ' + name)
    rep.check(len(set(seen)) == 1, R_, where, 'sessions end every %s blocks (offset %s) but are announced every %s (offset %s)' % ((seen + [(None, None)] * 2)[0] + (seen + [(None, None)] * 2)[1]), 'announced')
    t, where = w.setting('pallet_collator_selection', 'KickThreshold')
    rep.check(bool(seen) and whole(w, t) == seen[0][0], R_, where, 'a collator is dropped after %s blocks without authoring, a session lasts %s' % (whole(w, t), seen[0][0] if seen else None), 'kick')
    for crate, name, want in (('pallet_session', 'SessionManager', 'pallet_collator_selection'), ('pallet_collator_selection', 'ValidatorRegistration', 'pallet_session')):
        t, where = w.setting(crate, name)
        q = w.aliases.get(t[1]) if t[0] == 't' else None
        rep.check(q is not None and q.crate == want, R_, where, '%s is %s' % (name, show(t)), name)
    t, where = w.setting('pallet_authorship', 'EventHandler')
    rep.check(any(x[0] == 't' and x[1] in w.aliases and w.aliases[x[1]].crate == 'pallet_collator_selection' for x in parts(t)), R_, where, 'authoring a block is not noted by the selection of collators', 'noted')
    ids = {}
    for crate, name in (('pallet_session', 'ValidatorIdOf'), ('pallet_collator_selection', 'ValidatorIdOf')):
        t, where = w.setting(crate, name)
        ids[crate] = t
    rep.check(len(set(ids.values())) == 1, R_, where, 'collators and session validators are named differently', 'names')
    t, where = w.setting('pallet_collator_selection', 'MinEligibleCollators')
    rep.check((whole(w, t) or 0) >= 1, R_, where, 'the chain may be left without collators', 'least')
    w.done()
    return ('Evaluates the settings of authorship, timestamps, the consensus hook, sessions and the selection of collators to numbers and compares them with each other and with the block time.')


# ------------------------------------------------------------------ R22
class RoomModel(RtModel):
    """the builder of block limits as a list of the limits of each class"""

    def path(self, n, env, st):
        if 'qself' not in n and n['segs'][-1]['id'] in EXT and self.p.resolve(env.mod, tuple(x['id'] for x in n['segs']), 'values')[0] is None:
            f = EXT[n['segs'][-1]['id']]
            return V(app('ratio', I(f.numerator), I(f.denominator)), st)
        return super().path(n, env, st)

    def method(self, ref, v, m, args, n, env, st, want, targs):
        I_ = self.I
        if m == 'for_class' and len(args) == 2:
            def g(vs, s):
                cls = strip(I_.deep(vs[0], s))
                rec = ('adt', 'WeightsPerClass', None, tuple((k, app('default', ('s', k))) for k in ('base_extrinsic', 'max_extrinsic', 'max_total', 'reserved')))
                a, s = I_.alloc(rec, s)
                out = []
                for o in I_.apply(vs[1], [('ref', a, ())], s, n):
                    if o[0] == 'v':
                        out.append(('v', app('class limits', v, cls, strip(I_.deep(o[2].store[a], o[2]))), o[2]))
                    else:
                        out.append(o)
                return out
            return I_.many(args, env, st, None, g)
        return super().method(ref, v, m, args, n, env, st, want, targs)


def limits(v):
    """{class: {setting: value}} of a builder of block limits"""
    out = {}
    while v[0] == 'app' and v[2]:
        if v[1] == 'class limits':
            cls = v[2][1]
            names = [cls[2]] if cls[0] == 'adt' else ['Normal', 'Operational', 'Mandatory'] if cls[0] == 'app' and cls[1].endswith('DispatchClass::all') else [x[2] for x in cls[1] if x[0] == 'adt'] if cls[0] == 'arr' else None
            if names is None:
                return None
            for n in names:
                for k, x in v[2][2][3]:
                    if x[0] != 'app' or x[1] != 'default':
                        out.setdefault(n, {}).setdefault(k, x)
        elif v[1] in ('avg_block_initialization', 'base_block'):
            out.setdefault('', {}).setdefault(v[1], v[2][1])
        v = v[2][0]
    return out


def weigh(v):
    """(time, share of the relay chain's proof limit) of a weight, or None"""
    if v is None:
        return None
    if v[0] == 'adt' and v[2] == 'Some':
        return weigh(v[3][0][1])
    if v[0] == 'lin':
        acc = (Fraction(v[2]), Fraction(v[2]))
        if v[2]:
            return None
        for t, k in v[1]:
            x = weigh(t)
            if x is None:
                return None
            acc = tuple(a + k * b for a, b in zip(acc, x))
        return acc
    if v[0] == 'fld' and v[2] == 'max_block':
        ls = limits(v[1])
        ws = [weigh(x['max_total']) for x in (ls or {}).values() if 'max_total' in x]
        return max(ws) if ws and None not in ws else None
    if v[0] != 'app':
        return None
    n = v[1].split('::')[-1]
    if n == 'from_parts' and len(v[2]) == 2:
        a, b = amount(v[2][0]), amount(v[2][1])
        return (a[0], b[1]) if a is not None and b is not None and not a[1] and not b[0] else None
    if n in ('mul', 'mul_floor') and len(v[2]) == 2:
        for r, x in (v[2], v[2][::-1]):
            f, g = fraction(r), weigh(x)
            if f is not None and g is not None:
                return tuple(f * y for y in g)
        return None
    if n in ('div', 'saturating_div') and len(v[2]) == 2 and v[2][1][0] == 'int' and v[2][1][1]:
        g = weigh(v[2][0])
        return tuple(x / v[2][1][1] for x in g) if g is not None else None
    if n in ('saturating_mul',) and len(v[2]) == 2 and v[2][1][0] == 'int':
        g = weigh(v[2][0])
        return tuple(x * v[2][1][1] for x in g) if g is not None else None
    if n in ('add', 'sub', 'saturating_add', 'saturating_sub') and len(v[2]) == 2:
        a, b = weigh(v[2][0]), weigh(v[2][1])
        if a is None or b is None:
            return None
        return tuple(x + y if n.endswith('add') else x - y for x, y in zip(a, b))
    return None


def amount(v):
    """(picoseconds, share of the proof limit) of one part of a weight"""
    if v[0] == 'int':
        return (Fraction(v[1]), Fraction(0))
    if v[0] == 'fn' and v[1] == 'ext':
        n = v[2].split('::')[-1]
        k = {'WEIGHT_REF_TIME_PER_SECOND': SECOND, 'WEIGHT_REF_TIME_PER_MILLIS': SECOND // 1000, 'WEIGHT_REF_TIME_PER_MICROS': 10 ** 6, 'WEIGHT_REF_TIME_PER_NANOS': 1000}.get(n)
        return (Fraction(k), Fraction(0)) if k else (Fraction(0), Fraction(1)) if n == 'MAX_POV_SIZE' else None
    if v[0] == 'lin' and not v[2] and len(v[1]) == 1:
        a = amount(v[1][0][0])
        return tuple(x * v[1][0][1] for x in a) if a is not None else None
    if v[0] == 'app' and v[1].split('::')[-1] in ('trunc', 'cast', 'into', 'from') and v[2]:
        return amount(v[2][0])
    if v[0] == 'conv':
        return amount(v[2])
    if v[0] == 'app' and v[1].split('::')[-1] in ('saturating_mul', 'mul') and len(v[2]) == 2:
        for a, b in (v[2], v[2][::-1]):
            if b[0] == 'int':
                x = amount(a)
                return tuple(y * b[1] for y in x) if x is not None else None
    return None


def r22(rep):
    w = World(rep, model=RoomModel)
    R_ = 'the room in a block'
    t, where = w.setting('frame_system', 'BlockWeights')
    ls = limits(w.value(t) or UNIT)
    if not ls:
        raise P.SourceError(where.split(':')[0], 0, 'the limits of blocks cannot be evaluated')
    full = (Fraction(2 * SECOND), Fraction(1))
    share = lambda f: tuple(f * x for x in full)
    say = lambda what, v, want, wh: rep.check(weigh(v) == want, R_, wh, '%s is %s of time and %s of the proof limit, not %s and %s' % ((what,) + (tuple(map(str, weigh(v))) if weigh(v) else (fmt(v or UNIT), '?')) + tuple(map(str, want))), what)
    say('the limit of normal transactions', ls.get('Normal', {}).get('max_total'), share(Fraction(3, 4)), where)
    say('the limit of operational transactions', ls.get('Operational', {}).get('max_total'), full, where)
    say('the room reserved for operational transactions', ls.get('Operational', {}).get('reserved'), share(Fraction(1, 4)), where)
    rep.check('max_total' not in ls.get('Mandatory', {}), R_, where, 'mandatory extrinsics are limited', 'mandatory')
    rep.check('reserved' not in ls.get('Normal', {}), R_, where, 'normal transactions reserve room', 'normal reserve')
    for c in ('Normal', 'Operational', 'Mandatory'):
        rep.check('base_extrinsic' in ls.get(c, {}), R_, where, 'an extrinsic of class %s has no base weight' % c, 'base ' + c)
    t, where = w.setting('frame_system', 'BlockLength')
    v = w.value(t) or UNIT
    rep.check(v[0] == 'app' and v[1].endswith('max_with_normal_ratio') and v[2][0] == I(5 * 1024 * 1024) and fraction(v[2][1]) == Fraction(3, 4), R_, where, 'the length of a block is limited by %s' % fmt(v), 'length')
    for crate, name, f, what in (('cumulus_pallet_parachain_system', 'ReservedDmpWeight', Fraction(1, 4), 'the room for messages of the relay chain'),
                                 ('cumulus_pallet_parachain_system', 'ReservedXcmpWeight', Fraction(1, 4), 'the room for messages of other chains'),
                                 ('pallet_message_queue', 'ServiceWeight', Fraction(35, 100), 'the room for queued messages'),
                                 ('pallet_scheduler', 'MaximumWeight', Fraction(80, 100), 'the room for scheduled calls')):
        t, where = w.setting(crate, name)
        say(what, w.value(t), share(f), where)
    w.done()
    return ('Evaluates the builder of the block limits, interpreting the closures that set the limits of each class, and the settings that reserve room for messages and scheduled calls, as '
            'shares of two seconds and of the proof limit of the relay chain.')


# ------------------------------------------------------------------ R23
def camel(name):
    return name[:1].lower() + name[1:]


def seeds(v):
    """the texts a value is derived from"""
    t = R.text_of_value(v) if v[0] in ('seq', 'arr') else None
    if t:
        return {t}
    out = set()
    for x in v:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            out |= seeds(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple) and y:
                    out |= seeds(y)
    return out


def r23(rep):
    R_ = 'the genesis of local networks'
    for net, paseo, symbol in R.NETWORKS:
        w = World(rep, paseo=paseo)
        pallets = {camel(q.name) for q in w.pallets}
        t, _ = w.setting('pallet_balances', 'ExistentialDeposit')
        ed = whole(w, t)
        w.done()
        feats = ['paseo'] if paseo else []
        p = P.Program({R.SPEC: ['default'] + feats, R.CRATE: ['std'] + feats, 'runtime_constants': ['std'] + feats})
        crate = p.crates[R.SPEC]
        I_ = Interp(p, SpecModel())
        I_.model.I = I_
        ds = [x for m in crate.modules for x in m.values.values() if x.kind == 'fn' and x.path[-1] == 'chain_spec' and 'local' in x.path]
        rep.check(len(ds) == 1, R_, crate.root.file, 'no local specification for %s' % net, 'none ' + net)
        for d in ds:
            where = '%s:%s (%s, %s)' % (d.mod.file, d.node['l'], d.path[-1], net)
            found = 0
            outs = I_.run(d.node, d.mod, None, [])
            rep.paths += len(outs)
            for o in outs:
                if o[0] == 'panic':
                    continue
                v = I_.deep(o[1], o[2])
                for a in R.all_apps(v, 'with_genesis_config_patch'):
                    g = a[2][1]
                    if g[0] != 'adt' or g[1] != 'Json':
                        raise P.SourceError(d.mod.file, d.node['l'], 'the genesis of the local specification cannot be read')
                    found += 1
                    genesis(rep, R_, where, net, dict(g[3]), pallets, ed)
            rep.check(found > 0, R_, where, 'the local specification for %s has no genesis' % net, 'no genesis ' + net)
        rep.absorb(I_)
    return ('Interprets the functions that build the local specifications for both networks, with the accounts and keys as terms over the seeds they come from, and compares the parts of the genesis '
            'with each other, with the pallets of the runtime and with its existential deposit.')


def genesis(rep, R_, where, net, g, pallets, ed):
    say = lambda c, msg, key: rep.check(c, R_, where, msg, key + ' ' + net)
    part = lambda a, b: strip(dict(g[a][3]).get(b, UNIT)) if a in g and g[a][0] == 'adt' else UNIT
    for k in g:
        say(k in pallets, 'the genesis of %s configures %s, which is no pallet of the runtime' % (net, k), 'pallet ' + k)
    bal, inv, keys = part('balances', 'balances'), part('collatorSelection', 'invulnerables'), part('session', 'keys')
    for what, x in (('balances', bal), ('collators', inv), ('session keys', keys)):
        say(x[0] == 'arr' and len(x[1]) > 0, 'the genesis of %s has no %s' % (net, what), 'empty ' + what)
    rows = [x[1] for x in (bal[1] if bal[0] == 'arr' else ()) if x[0] == 'tup' and len(x[1]) == 2]
    say(bal[0] == 'arr' and len(rows) == len(bal[1]), 'the balances of %s are not pairs of account and amount' % net, 'pairs')
    owners = [r[0] for r in rows]
    say(len(set(owners)) == len(owners), 'an account of %s is endowed twice' % net, 'twice')
    say(all(r[1][0] == 'int' and r[1][1] >= ed for r in rows), 'an account of %s is endowed with less than the existential deposit' % net, 'too little')
    say(sum(r[1][1] for r in rows if r[1][0] == 'int') < 2 ** 64 * len(rows), 'the accounts of %s are endowed with too much' % net, 'too much')
    col = list(inv[1]) if inv[0] == 'arr' else []
    say(len(set(col)) == len(col), 'a collator of %s is listed twice' % net, 'collator twice')
    for c in col:
        say(c in owners, 'a collator of %s is not endowed' % net, 'collator poor')
    trip = [x[1] for x in (keys[1] if keys[0] == 'arr' else ()) if x[0] == 'tup' and len(x[1]) == 3]
    say(keys[0] == 'arr' and len(trip) == len(keys[1]), 'the session keys of %s are not triples of account, validator and keys' % net, 'triples')
    for acc, val, ks in trip:
        say(acc == val, 'the keys of an account of %s are registered for another validator' % net, 'validator')
        say(acc in col, 'keys of %s belong to no collator' % net, 'stranger')
        say(seeds(ks) == seeds(acc) and len(seeds(ks)) == 1, 'a collator of %s is registered with the keys of another (%s for %s)' % (net, ', '.join(sorted(seeds(ks))), ', '.join(sorted(seeds(acc)))), 'keys')
    for c in col:
        say(sum(1 for x in trip if x[0] == c) == 1, 'a collator of %s has no session keys or several' % net, 'no keys')
    bond = part('collatorSelection', 'candidacyBond')
    say(bond == I(16 * ed), 'the bond of candidates on %s is %s, not sixteen existential deposits' % (net, fmt(bond)), 'bond')
    ver = part('polkadotXcm', 'safeXcmVersion')
    good = ver[0] == 'adt' and ver[2] == 'Some' and (ver[3][0][1][0] == 'int' or ver[3][0][1][0] == 'fn' and ver[3][0][1][2].endswith('XCM_VERSION')) or ver[0] == 'int' or ver[0] == 'fn' and ver[2].endswith('XCM_VERSION')
    say(good, 'the genesis of %s names no version messages are safe in' % net, 'version')


RULES = {'R17': r17, 'R18': r18, 'R19': r19, 'R20': r20, 'R21': r21, 'R22': r22, 'R23': r23}

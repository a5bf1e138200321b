"""Rules for what the chain keeps room for, where funds and messages go, and what is open to everyone (R25-R29)."""
from .terms import *
from . import prog as P
from .frame import strip
from .interp import State
from . import runtime as R
from .runtime import World, ACC, show, last, fmt, parts, block_time
from .chain import whole

DAY = 86400 * 1000


def pallet_of(w, t):
    """crate of the pallet a type of the runtime stands for"""
    q = w.aliases.get(t[1]) if t is not None and t[0] == 't' else None
    return q.crate if q is not None else None


def ext(w, t, *names):
    return t is not None and t[0] == 't' and last(t) in names and w.p.def_of(t[1]) is None


# ------------------------------------------------------------------ R25
BOUNDS = [('pallet_balances', None, 'MaxLocks', 50), ('pallet_balances', None, 'MaxReserves', 50), ('pallet_balances', None, 'MaxFreezes', 256),
          ('pallet_assets', 'Instance1', 'StringLimit', 50), ('pallet_assets', 'Instance1', 'MaxHolds', 50), ('pallet_vesting', None, 'MAX_VESTING_SCHEDULES', 28),
          ('pallet_contracts', None, 'MaxCodeLen', 192 * 1024), ('pallet_contracts', None, 'MaxDelegateDependencies', 32), ('pallet_contracts', None, 'MaxStorageKeyLen', 128),
          ('pallet_referenda', 'Instance1', 'MaxQueued', 10), ('pallet_referenda', 'Instance2', 'MaxQueued', 100), ('pallet_referenda_tracks', 'Instance2', 'MaxTracks', 65536),
          ('pallet_payments', None, 'MaxRemarkLength', 50), ('pallet_payments', None, 'MaxDiscounts', 10), ('pallet_payments', None, 'MaxFees', 50),
          ('pallet_nfts', 'Instance2', 'StringLimit', 256), ('pallet_nfts', 'Instance2', 'KeyLimit', 64), ('pallet_nfts', 'Instance2', 'ValueLimit', 256),
          ('pallet_nfts', 'Instance2', 'ApprovalsLimit', 20), ('pallet_nfts', 'Instance2', 'ItemAttributesApprovalsLimit', 30), ('pallet_nfts', 'Instance2', 'MaxTips', 10),
          ('pallet_nfts', 'Instance2', 'MaxAttributesPerCall', 10), ('pallet_message_queue', None, 'HeapSize', 64 * 1024), ('pallet_aura', None, 'MaxAuthorities', 100000),
          ('cumulus_pallet_xcmp_queue', None, 'MaxActiveOutboundChannels', 128), ('cumulus_pallet_xcmp_queue', None, 'MaxPageSize', 103 * 1024),
          ('cumulus_pallet_xcmp_queue', None, 'MaxInboundSuspended', 1000), ('pallet_collator_selection', None, 'MaxCandidates', 1000), ('pallet_collator_selection', None, 'MaxInvulnerables', 100),
          ('pallet_treasury', None, 'MaxApprovals', 100), ('pallet_multisig', None, 'MaxSignatories', 100), ('pallet_proxy', None, 'MaxProxies', 32), ('pallet_proxy', None, 'MaxPending', 32),
          ('pallet_scheduler', None, 'MaxScheduledPerBlock', 50), ('pallet_xcm', None, 'MaxLockers', 8), ('xcm_executor', None, 'MaxAssetsIntoHolding', 64), ('frame_system', None, 'MaxConsumers', 16)]


def bound(w, crate, inst, name):
    """(number or None, place) of a setting that may be a type or a constant"""
    for c, i, im in w.configs:
        if c == crate and (inst is None or i == inst) and name in im.consts:
            n = im.consts[name]
            v = w.eval(n['e'], im.mod)
            return v[1] if v is not None and v[0] == 'int' else None, '%s:%s (%s)' % (im.mod.file, n['l'], name)
    if crate == 'xcm_executor':
        t, where = w.of(w.xcm_config(), name)
    else:
        t, where = w.setting(crate, name, inst)
    return whole(w, t), where


def r25(rep):
    w = World(rep)
    R_ = 'room for what is stored is never taken away'
    for crate, inst, name, least in BOUNDS:
        n, where = bound(w, crate, inst, name)
        rep.check(n is not None and n >= least, R_, where, '%s of %s is %s, stored data may need %d' % (name, crate, n, least), 'bound %s %s %s' % (crate, inst, name))
    rep.extra['bounds'] = len(BOUNDS)
    w.done()
    return 'Evaluates every setting that bounds something kept in storage (or carried in a signed call) and compares it with the published bound: it may grow, it must not shrink.'


# ------------------------------------------------------------------ R26
def r26(rep):
    for paseo in (False, True):
        w = World(rep, paseo=paseo)
        ms = block_time(w)
        R_ = 'the treasury keeps and pays what it holds'
        for name, days in (('SpendPeriod', 6), ('PayoutPeriod', 30)):
            t, where = w.setting('pallet_treasury', name)
            rep.check(whole(w, t) is not None and whole(w, t) * ms == days * DAY, R_, where, '%s of the treasury is %s blocks of %d ms, not %d days' % (name, whole(w, t), ms, days), name)
        t, where = w.setting('pallet_treasury', 'Burn')
        v = w.value(t) if t is not None and t[0] == 't' else None
        none = t == ('tup', ()) or v == I(0) or (v is not None and v[0] == 'app' and v[1] == 'ratio' and v[2][0] == I(0))
        rep.check(none, R_, where, 'unspent funds of the treasury are burnt (%s)' % show(t), 'burn')
        t, where = w.setting('pallet_treasury', 'SpendFunds')
        rep.check(t == ('tup', ()), R_, where, 'funds of the treasury are also spent by %s' % show(t), 'other spending')
        t, where = w.setting('pallet_treasury', 'Paymaster')
        good = ext(w, t, 'PayFromAccount') and len(t[2]) == 2 and pallet_of(w, t[2][0]) == 'pallet_balances' and w.value(t[2][1]) == app('account of', ('s', 'Treasury'))
        rep.check(good, R_, where, 'payouts are made by %s' % show(t), 'paymaster')
        t, where = w.setting('pallet_treasury', 'BalanceConverter')
        rep.check(ext(w, t, 'UnityAssetBalanceConversion'), R_, where, 'payouts are converted by %s' % show(t), 'converter')
        R_ = 'funds are in one currency'
        for crate in ('pallet_treasury', 'pallet_vesting', 'pallet_collator_selection', 'pallet_multisig', 'pallet_proxy', 'pallet_preimage', 'pallet_contracts', 'pallet_xcm'):
            t, where = w.setting(crate, 'Currency')
            rep.check(pallet_of(w, t) == 'pallet_balances', R_, where, '%s uses the currency %s' % (crate, show(t)), 'currency ' + crate)
        for inst, crate in (('Instance1', 'pallet_assets'), ('Instance2', 'pallet_nfts'), ('Instance1', 'pallet_referenda'), ('Instance2', 'pallet_referenda')):
            t, where = w.setting(crate, 'Currency', inst)
            rep.check(pallet_of(w, t) == 'pallet_balances', R_, where, '%s uses the currency %s' % (crate, show(t)), 'currency %s %s' % (crate, inst))
        for crate in ('pallet_payments', 'pallet_communities'):
            t, where = w.setting(crate, 'Assets')
            rep.check(pallet_of(w, t) == 'pallet_assets', R_, where, '%s keeps assets in %s' % (crate, show(t)), 'assets ' + crate)
        t, where = w.setting('pallet_communities', 'Balances')
        rep.check(pallet_of(w, t) == 'pallet_balances', R_, where, 'communities keep balances in %s' % show(t), 'balances communities')
        for crate, inst, name, want in (('pallet_balances', None, 'AccountStore', 'frame_system'), ('pallet_assets', 'Instance1', 'Freezer', 'pallet_assets_freezer')):
            t, where = w.setting(crate, name, inst)
            rep.check(pallet_of(w, t) == want, R_, where, '%s of %s is %s' % (name, crate, show(t)), '%s %s' % (crate, name))
        R_ = 'vested funds stay locked'
        t, where = w.setting('pallet_vesting', 'UnvestedFundsAllowedWithdrawReasons')
        v = w.value(t)
        names = reasons(v)
        rep.check(names is not None and names[0] == 'except' and {'TRANSFER', 'RESERVE'} <= names[1] or names is not None and names[0] == 'only' and not {'TRANSFER', 'RESERVE'} & names[1],
                  R_, where, 'funds that are not vested yet may be transferred or reserved', 'withdrawals')
        t, where = w.setting('pallet_vesting', 'MinVestedTransfer')
        c, where2 = w.setting('pallet_balances', 'ExistentialDeposit')
        n, ed = whole(w, t), whole(w, c)
        rep.check(n is not None and ed and n // ed == 1000, R_, where, 'the least vested transfer is %s, the least balance %s' % (n, ed), 'least')
        t, where = w.setting('pallet_vesting', 'BlockNumberProvider')
        rep.check(pallet_of(w, t) == 'frame_system', R_, where, 'vesting counts the blocks of %s' % show(t), 'blocks')
        w.done()
    return ('Evaluates the settings of the treasury, of vesting and of every pallet that moves funds, on both networks: periods against the block time, currencies and accounts against the pallets of the runtime.')


def reasons(v):
    """('except' | 'only', names) of a set of reasons to withdraw"""
    if v is None:
        return None
    if v[0] == 'app' and v[1].split('::')[-1] == 'except' and v[2]:
        r = reasons(v[2][-1])
        return ('except', r[1]) if r is not None and r[0] == 'only' else None
    if v[0] == 'app' and v[1].split('::')[-1] in ('|', 'union', 'bitor'):
        rs = [reasons(x) for x in v[2]]
        return ('only', frozenset().union(*[r[1] for r in rs])) if all(r is not None and r[0] == 'only' for r in rs) else None
    if v[0] == 'app' and v[1].split('::')[-1] in ('all', 'empty'):
        return ('except' if v[1].endswith('all') else 'only', frozenset())
    if v[0] == 'fn' and v[1] == 'assoc':
        return ('only', frozenset({v[3]}))
    if v[0] == 'app' and v[1].split('::')[-1].isupper():
        return ('only', frozenset({v[1].split('::')[-1]}))
    return None


# ------------------------------------------------------------------ R27
def r27(rep):
    w = World(rep)
    xc = w.xcm_config()
    R_ = 'assets of messages are booked in the right ledger'
    home, _ = w.setting('pallet_xcm', 'SovereignAccountOf')
    t, where = w.of(xc, 'AssetTransactor')
    native, others = 0, 0
    for x in parts(t):
        if ext(w, x, 'FungibleAdapter', 'CurrencyAdapter') and len(x[2]) > 3:
            native += 1
            rep.check(pallet_of(w, x[2][0]) == 'pallet_balances', R_, where, 'the native token of messages is kept in %s' % show(x[2][0]), 'native ledger')
            m = x[2][1]
            rep.check(ext(w, m, 'IsConcrete') and w.value(m[2][0]) == R.RELAY, R_, where, 'the native token is that of %s' % show(m), 'native location')
        elif ext(w, x, 'FungiblesAdapter') and len(x[2]) > 3:
            others += 1
            rep.check(pallet_of(w, x[2][0]) == 'pallet_assets', R_, where, 'assets of messages are kept in %s' % show(x[2][0]), 'asset ledger')
            m = x[2][1]
            aid, _ = w.setting('pallet_assets', 'AssetId', 'Instance1')
            good = ext(w, m, 'ConvertedConcreteId') and len(m[2]) == 4 and m[2][0] == aid and last(m[2][2]) == 'AsFungibleAssetLocation' and ext(w, m[2][3], 'JustTry')
            rep.check(good, R_, where, 'assets are identified by %s' % show(m), 'asset table')
        else:
            rep.check(False, R_, where, 'assets are also moved by %s' % show(x), 'transactor ' + show(x))
            continue
        rep.check(parts(x[2][2]) == parts(home), R_, where, 'the owner of assets is found otherwise than the account of a location', 'owner ' + last(x))
    rep.check(native == 1 and others == 1, R_, where, '%d parts book the native token and %d the other assets' % (native, others), 'parts')
    R_ = 'locations have accounts of their own'
    found = {last(x): x for x in parts(home) if w.p.def_of(x[1]) is None}
    for name in ('ParentIsPreset', 'SiblingParachainConvertsVia', 'AccountId32Aliases'):
        rep.check(name in found, R_, where, 'locations have no account by %s' % name, 'account ' + name)
    x = found.get('SiblingParachainConvertsVia')
    rep.check(x is not None and last(x[2][0]) == 'Sibling', R_, where, 'the account of a sibling chain is that of %s' % (show(x[2][0]) if x else None), 'sibling account')
    x = found.get('AccountId32Aliases')
    v = w.value(x[2][0]) if x is not None else None
    rep.check(v is not None and v in (some(('adt', 'NetworkId', 'Kusama', ())), NONE), R_, where, 'accounts of the network %s are accounts here' % fmt(v or UNIT), 'network')
    R_ = 'what a failing message did is undone and left assets can be claimed'
    t, where = w.of(xc, 'TransactionalProcessor')
    rep.check(ext(w, t, 'FrameTransactionalProcessor'), R_, where, 'instructions are undone by %s' % show(t), 'undone')
    for name in ('AssetTrap', 'AssetClaims', 'ResponseHandler', 'SubscriptionService'):
        t, where = w.of(xc, name)
        rep.check(pallet_of(w, t) == 'pallet_xcm', R_, where, '%s is %s' % (name, show(t)), name)
    w.done()
    return ('Resolves the configuration of the message executor: the parts that move assets, the ledgers they use, how they recognise the native token and other assets, how they find the owner, '
            'and what handles failures, trapped assets and responses.')


# ------------------------------------------------------------------ R28
def r28(rep):
    w = World(rep)
    xc = w.xcm_config()
    R_ = 'outgoing messages reach the relay chain and siblings'
    a, where = w.of(xc, 'XcmSender')
    b, where2 = w.setting('pallet_xcm', 'XcmRouter')
    for t, wh in ((a, where), (b, where2)):
        up = [x for x in parts(t) if ext(w, x, 'ParentAsUmp') and pallet_of(w, x[2][0]) == 'cumulus_pallet_parachain_system']
        side = [x for x in parts(t) if pallet_of(w, x) == 'cumulus_pallet_xcmp_queue']
        rep.check(len(up) == 1, R_, wh, 'messages to the relay chain have no way out', 'up')
        rep.check(len(side) == 1, R_, wh, 'messages to siblings have no way out', 'side')
        rep.check(len(parts(t)) == len(up) + len(side), R_, wh, 'messages are also sent by %s' % show(t), 'other ways')
    for name in ('OutboundXcmpMessageSource', 'XcmpMessageHandler'):
        t, where = w.setting('cumulus_pallet_parachain_system', name)
        rep.check(pallet_of(w, t) == 'cumulus_pallet_xcmp_queue', R_, where, '%s is %s' % (name, show(t)), name)
    R_ = 'incoming messages are queued and executed'
    t, where = w.setting('cumulus_pallet_parachain_system', 'DmpQueue')
    good = ext(w, t, 'EnqueueWithOrigin') and pallet_of(w, t[2][0]) == 'pallet_message_queue'
    rep.check(good, R_, where, 'messages of the relay chain go to %s' % show(t), 'down')
    if good:
        v = w.value(t[2][1])
        rep.check(v is not None and v[0] == 'adt' and v[2] == 'Parent', R_, where, 'messages of the relay chain are queued as from %s' % fmt(v or UNIT), 'down origin')
    t, where = w.setting('cumulus_pallet_xcmp_queue', 'XcmpQueue')
    rep.check(ext(w, t, 'TransformOrigin') and pallet_of(w, t[2][0]) == 'pallet_message_queue' and last(t[2][3]) == 'ParaIdToSibling', R_, where, 'messages of siblings go to %s' % show(t), 'side queue')
    t, where = w.setting('cumulus_pallet_xcmp_queue', 'ChannelInfo')
    rep.check(pallet_of(w, t) == 'cumulus_pallet_parachain_system', R_, where, 'channels are known to %s' % show(t), 'channels')
    for name in ('QueueChangeHandler', 'QueuePausedQuery'):
        t, where = w.setting('pallet_message_queue', name)
        rep.check(ext(w, t, 'NarrowOriginToSibling') and pallet_of(w, t[2][0]) == 'cumulus_pallet_xcmp_queue', R_, where, '%s is %s' % (name, show(t)), name)
    t, where = w.setting('pallet_message_queue', 'MessageProcessor')
    rep.check(ext(w, t, 'ProcessXcmMessage') and executor(w, t[2][1], xc), R_, where, 'queued messages are executed by %s' % show(t), 'processor')
    t, where = w.setting('cumulus_pallet_xcm', 'XcmExecutor')
    rep.check(executor(w, t, xc), R_, where, 'messages are executed by %s' % show(t), 'executor')
    R_ = 'a message may use what transactions may'
    t, where = w.of(xc, 'SafeCallFilter')
    rep.check(ext(w, t, 'Everything'), R_, where, 'calls of messages are limited by %s' % show(t), 'call filter')
    t, where = w.of(xc, 'CallDispatcher')
    rep.check(t[0] == 't' and last(t) == 'RuntimeCall', R_, where, 'calls of messages are dispatched by %s' % show(t), 'dispatcher')
    R_ = 'upgrades and blocks go through the relay chain'
    t, where = w.setting('frame_system', 'OnSetCode')
    rep.check(ext(w, t, 'ParachainSetCode'), R_, where, 'new code is set by %s' % show(t), 'upgrade')
    t, where = w.setting('cumulus_pallet_parachain_system', 'CheckAssociatedRelayNumber')
    rep.check(ext(w, t, 'RelayNumberMonotonicallyIncreases', 'RelayNumberStrictlyIncreases'), R_, where, 'the relay block is checked by %s' % show(t), 'relay number')
    t, where = w.setting('cumulus_pallet_parachain_system', 'SelfParaId')
    q = pallet_of(w, t) or (t[1].split('::')[0] if t[0] == 't' else None)
    rep.check(q in ('parachain_info', 'staging_parachain_info', 'ParachainInfo'), R_, where, 'the number of the chain is that of %s' % show(t), 'own number')
    d, k, e = w.p.resolve(w.crate.root, ('Executive',))
    if d is None or d.kind != 'type':
        raise P.SourceError(w.crate.root.file, 0, 'what executes blocks is not named')
    t = w.norm(w.full_in(d.node['ty'], d.mod))
    where = '%s:%s (Executive)' % (d.mod.file, d.node['l'])
    good = ext(w, t, 'Executive') and len(t[2]) >= 5
    rep.check(good, R_, where, 'blocks are executed by %s' % show(t), 'executive')
    if good:
        blk, _ = w.setting('frame_system', 'Block')
        rep.check(t[2][1] == blk, R_, where, 'other blocks are executed than configured', 'block')
        rep.check(last(t[2][4]) == 'AllPalletsWithSystem', R_, where, 'only %s take part in blocks' % show(t[2][4]), 'pallets')
    w.done()
    return ('Resolves routers, queues, the message processor, the executor and the executive through all aliases to the pallets and parts of the runtime they name.')


def executor(w, t, xc):
    return ext(w, t, 'XcmExecutor') and len(t[2]) == 1 and t[2][0] == xc[0]


# ------------------------------------------------------------------ R29
def r29(rep):
    w = World(rep)
    who = sym('who', ACC)
    com = sym('community', ('t', 'u16', ()))
    R_ = 'anyone can pay and be paid'
    for name, classes in (('SenderOrigin', ('signed', 'community')), ('BeneficiaryOrigin', ('signed',))):
        t, where = w.setting('pallet_payments', name)
        seen = {}
        for cls, o in w.principals().items():
            for a, v, s in w.admit(t, o, [], State()):
                rep.paths += 1
                if a:
                    v = strip(w.I.deep(v, s)) if v is not None else UNIT
                    if cls == 'signed':
                        rep.check(s.facts.decide_eq(v, who) is True, R_, where, 'a signed caller pays as %s' % fmt(v), 'self ' + name)
                    elif cls == 'community':
                        rep.check(v[0] == 'app' and com in flat_terms(v), R_, where, 'a community pays as %s' % fmt(v), 'community ' + name)
                    else:
                        rep.check(False, R_, where, 'a %s origin acts in payments as %s' % (cls, fmt(v)), 'other ' + name)
                seen.setdefault(cls, []).append(a)
        for cls in classes:
            rep.check(bool(seen.get(cls)) and (all(seen[cls]) if cls == 'signed' else any(seen[cls])), R_, where, 'a %s origin is refused in payments' % cls, 'never %s %s' % (name, cls))
    R_ = 'whoever pays may have messages executed, and send assets home'
    xc = w.xcm_config()
    t, where = w.of(xc, 'Barrier')
    paid = [x for x in barriers(w, t) if ext(w, x, *R.PAID) and x[2]]
    rep.check(any(ext(w, x[2][0], 'Everything') for x in paid), R_, where, 'a message that pays is not executed from everywhere', 'paid')
    t, where = w.setting('pallet_xcm', 'XcmReserveTransferFilter')
    rep.check(ext(w, t, 'Everything'), R_, where, 'transfers of assets to other chains are limited by %s' % show(t), 'reserve transfers')
    R_ = 'the base filter stops no calls'
    t, where = w.setting('frame_system', 'BaseCallFilter')
    if t is not None and not ext(w, t, 'Everything'):
        for q in w.pallets:
            outs, fw = w.run(t, 'contains', [R.call_value(w, q.name, '(any other call)')])
            rep.check(R.verdicts(w, outs) == {True}, R_, fw, 'calls of %s are refused' % q.name, 'base ' + q.name)
    else:
        rep.ok(R_, where)
    w.done()
    return ('Evaluates the origins of payments on every class of caller with the account each acts as, and resolves the filters on messages, transfers and calls.')


def barriers(w, t):
    for x in parts(t):
        if ext(w, x, 'WithComputedOrigin', 'TrailingSetTopicAsId'):
            yield from barriers(w, x[2][0])
        elif ext(w, x, 'DenyThenTry'):
            yield from barriers(w, x[2][1])
        else:
            yield x


def flat_terms(v):
    out = [v]
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple):
                out += flat_terms(x)
    return out


RULES = {'R25': r25, 'R26': r26, 'R27': r27, 'R28': r28, 'R29': r29}

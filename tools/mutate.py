#!/usr/bin/env python3
"""Small mechanical edits of the sources; lists the ones that compile and no check objects to.

usage: mutate.py GROUP [--out FILE] [--only REGEX]   (VP_J=n jobs)"""
import concurrent.futures, importlib.util, os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
P = ['P%02d' % i for i in range(1, 13)]
M = ['M%02d' % i for i in range(1, 14)]
R = ['R%02d' % i for i in range(1, 30)]
C = ['C%02d' % i for i in range(1, 11)]
GROUPS = {
    'payments': (['pallets/payments/src/lib.rs', 'pallets/payments/src/types.rs'], P + ['R01', 'R15'], 'mini'),
    'communities': (['pallets/communities/src/' + f for f in ('lib.rs', 'functions.rs', 'impls.rs', 'types.rs', 'origin.rs')], M + ['R01', 'R15'], 'mini'),
    'manager': (['pallets/communities-manager/src/lib.rs'], ['G01', 'G02', 'G03', 'R01', 'R15'], 'mini'),
    'common': (['common/src/payment_id.rs', 'common/src/multilocation_asset_id.rs', 'common/src/lib.rs'], C, 'common'),
    'runtime': (None, R + ['C08', 'G01', 'M08'], None),
}
SWAPS = [
    (r'==', ['!=']), (r'!=', ['==']), (r'>=', ['>', '<=']), (r'<=', ['<', '>=']), (r'(?<![-=<>])>(?![=>(\w:,)])', ['>=']), (r'&&', ['||']), (r'\|\|(?= )', ['&&']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'\bsaturating_add\b', ['saturating_sub']), (r'\bsaturating_sub\b', ['saturating_add']), (r'\bchecked_add\b', ['checked_sub']), (r'\bsaturating_mul\b', ['saturating_add']),
    (r'\.max\(', ['.min(']), (r'\.min\(', ['.max(']),
    (r'\bis_some\b', ['is_none']), (r'\bis_none\b', ['is_some']), (r'\bis_ok\b', ['is_err']), (r'\bis_err\b', ['is_ok']),
    (r'(?<=[ (]) ?\+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']), (r' % ', [' / ']),
    (r'\bExact\b', ['BestEffort']), (r'\bExpendable\b', ['Preserve']), (r'\bPreserve\b', ['Expendable']),
    (r'\bRole::Sender\b', ['Role::Beneficiary']), (r'\bRole::Beneficiary\b', ['Role::Sender']),
    (r'\bPaymentState::Created\b', ['PaymentState::NeedsReview', 'PaymentState::Finished']), (r'\bPaymentState::NeedsReview\b', ['PaymentState::Created']), (r'\bPaymentState::Finished\b', ['PaymentState::Created']),
    (r'\bPaymentState::PaymentRequested\b', ['PaymentState::Created']),
    (r'\bLockUpdateType::Add\b', ['LockUpdateType::Remove']), (r'\bLockUpdateType::Remove\b', ['LockUpdateType::Add']),
    (r'\bEvent::(?:<T>::)?Payment(\w+)\b', ['Event::PaymentReleased']),
    (r'\bsender\b', ['beneficiary']), (r'\bbeneficiary\b', ['sender']), (r'\bresolver\b', ['sender']),
    (r'\bayes\b', ['nays', 'bare_ayes']), (r'\bnays\b', ['ayes']), (r'\bbare_ayes\b', ['ayes']),
    (r'\bmul_floor\b', ['mul_ceil']), (r'\bto_le_bytes\b', ['to_be_bytes']), (r'\bfrom_le_bytes\b', ['from_be_bytes']),
    (r'\bpromote_by\b', ['demote_by']), (r'\bdemote_by\b', ['promote_by']),
    (r'\bcontains_key\b', []), (r'\binsert\b', []),
    (r'\bEnsureRoot\b', ['EnsureSigned']), (r'\bEnsureSigned\b', ['EnsureRoot']), (r'\bNever\b', ['EnsureRoot']), (r'\bEverything\b', ['Nothing']), (r'\bNothing\b', ['Everything']),
    (r'\bdepositor\b', ['depositee']), (r'\bdepositee\b', ['depositor']),
    (r'\bmandatory\b', []), (r'\bSome\(price\)', ['None']),
    (r'\bmembers_total\b', ['ranks_total']), (r'\branks_total\b', ['members_total']),
]
LIT = re.compile(r'(?<![\w.#])(\d[\d_]*)(u8|u16|u32|u64|u128)?\b(?!\.\d)')


def mask(t):
    """The text with comments and strings blanked out."""
    out = list(t)
    i, n = 0, len(t)
    while i < n:
        if t.startswith('//', i):
            j = t.find('\n', i)
            j = n if j < 0 else j
        elif t.startswith('/*', i):
            j = t.find('*/', i)
            j = n if j < 0 else j + 2
        elif t[i] == '"':
            j = i + 1
            while t[j] != '"':
                j += 2 if t[j] == '\\' else 1
            j += 1
        else:
            i += 1
            continue
        for k in range(i, j):
            if out[k] != '\n':
                out[k] = ' '
        i = j
    return ''.join(out)


def close(t, i):
    """End of the bracket opened at i."""
    d = 0
    for j in range(i, len(t)):
        if t[j] in '([{':
            d += 1
        elif t[j] in ')]}':
            d -= 1
            if d == 0:
                return j + 1
    return len(t)


def dead(m):
    """Spans that never are part of the product: tests, benchmarks, imports, attributes."""
    out = []
    for x in re.finditer(r'^\s*(?:pub )?use [^;]*;', m, re.M):
        out.append(x.span())
    for x in re.finditer(r'#!?\[', m):
        out.append((x.start(), close(m, x.end() - 1)))
    return out


def mutants(path, text):
    m = mask(text)
    # strings are blank in the mask, so features of cfg attributes are read from the text
    spans = [s for s in dead(m)]
    for x in re.finditer(r'#\[cfg\((?:test|[^\]]*runtime-benchmarks[^\]]*|[^\]]*try-runtime[^\]]*)\)\]', text):
        k = x.end()
        while k < len(m) and m[k] not in '{;,':
            k = close(m, k) if m[k] in '([' else k + 1
        spans.append((x.start(), close(m, k) if k < len(m) and m[k] == '{' else k + 1))
    skip = lambda i: any(a <= i < b for a, b in spans)

    def make(a, b, new):
        ln = text.count('\n', 0, a) + 1
        return ('%s:%d' % (path, ln), text[a:b], new, text[:a] + new + text[b:])
    for pat, news in SWAPS:
        for x in re.finditer(pat, m):
            if skip(x.start()):
                continue
            for n in news:
                if n != x.group(0):
                    yield make(x.start(), x.end(), n)
    for x in LIT.finditer(m):
        if not skip(x.start()):
            v = int(x.group(1).replace('_', ''))
            yield make(x.start(), x.end(), str(v + 1) + (x.group(2) or ''))
    # statements
    for x in re.finditer(r'(?<=[;{}])\s*\n([ \t]+)(?=[^\s])', m):
        a = x.end()
        if skip(a) or re.match(r'(pub|fn|type|impl|use|struct|enum|const|mod|where|trait|let|#|\}|for|if|match)\b|[#})]', m[a:]):
            continue
        k = a
        while k < len(m) and m[k] not in ';}':
            k = close(m, k) if m[k] in '([{' else k + 1
        if k < len(m) and m[k] == ';':
            yield make(a, k + 1, '')
            s = text[a:k + 1]
            if s.endswith('?;') and not s.startswith('return'):
                yield make(a, k + 1, 'let _ = ' + s[:-2] + ';')
    # results dropped in lets, fall-backs
    for x in re.finditer(r'\bif (let [^{]*?|[^{;]*?) \{', m):
        if not skip(x.start()) and not x.group(1).startswith('let'):
            a, b = x.span(1)
            yield make(a, b, '!(' + text[a:b] + ')')
            yield make(a, b, 'true')
            yield make(a, b, 'false')
    # match arms removed when there is a catch-all are left to the batteries; guards are dropped here
    for x in re.finditer(r' if ([^{}\n]*?) =>', m):
        if not skip(x.start()):
            yield make(x.start(), x.end(), ' =>')
    # arguments exchanged
    for x in re.finditer(r'\((&?\w+), (&?\w+)\)', m):
        if not skip(x.start()) and x.group(1) != x.group(2):
            yield make(x.start(), x.end(), '(%s, %s)' % (text[x.start(2):x.end(2)], text[x.start(1):x.end(1)]))


def main():
    g = sys.argv[1]
    fs, props, comp = GROUPS[g]
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    if fs is None:
        base = '/repo/runtime/kreivo/src'
        fs = [os.path.relpath(os.path.join(d, f), '/repo') for d, _, ff in os.walk(base) for f in ff if f.endswith('.rs') and 'weights' not in d and f not in ('tests.rs', 'constants.rs')] + [
            'runtime/kreivo/src/constants.rs', 'runtime/kreivo/src/weights/xcm/mod.rs'] + [os.path.relpath(os.path.join(d, f), '/repo') for d, _, ff in os.walk('/repo/chain-spec-generator/src') for f in ff]
        fs = [f for f in fs if os.path.exists('/repo/' + f)]
    cases = []
    for f in fs:
        cases += [(f,) + x for x in mutants(f, open('/repo/' + f).read())]
    if only:
        cases = [c for c in cases if re.search(only, c[1] + ' ' + c[2] + ' -> ' + c[3])]
    if '--list' in sys.argv:
        for c in cases:
            print(c[1], repr(c[2][:70]), '->', repr(c[3][:70]))
        print(len(cases))
        return
    tmp = tempfile.mkdtemp()
    subprocess.check_call(['git', 'clone', '-q', '/repo', os.path.join(tmp, '_base')])
    shutil.rmtree(os.path.join(tmp, '_base', '.git'))
    compile = None
    if comp == 'mini':
        import minicheck
        compile = minicheck.check
    elif comp:
        spec = importlib.util.spec_from_file_location('m', os.path.join(here, 'battery', comp + '.py'))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        compile = lambda d: mod.compile(d, None)

    def one(ic):
        i, (f, where, old, new, text) = ic
        d = os.path.join(tmp, 'm%d' % i)
        subprocess.check_call(['cp', '-r', os.path.join(tmp, '_base'), d])
        try:
            open(os.path.join(d, f), 'w').write(text)
            if compile and compile(d):
                return ic, 'nocompile', ''
            env = dict(os.environ, VERIF_REPO=d, PYTHONPATH=os.path.join(root, 'analyzer'), PYTHONDONTWRITEBYTECODE='1', VERIF_EVIDENCE=os.path.join(d, '.ev'))
            pr = subprocess.run([sys.executable, '-m', 'vp.run'] + props, capture_output=True, text=True, env=env, cwd=root, timeout=1800)
            fired = sorted({l.split('property=')[1].split()[0] for l in pr.stdout.splitlines() if l.startswith('VIOLATION')})
            if pr.stderr.strip():
                return ic, 'ERROR', pr.stderr[-300:]
            return ic, 'caught' if fired else 'SURVIVED', ' '.join(fired)
        finally:
            shutil.rmtree(d)
    out = open(sys.argv[sys.argv.index('--out') + 1], 'w') if '--out' in sys.argv else sys.stdout
    n = {}
    try:
        with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('VP_J', '8'))) as ex:
            for (i, (f, where, old, new, text)), st, msg in ex.map(one, enumerate(cases)):
                n[st] = n.get(st, 0) + 1
                if st != 'nocompile':
                    line = text.split('\n')[int(where.split(':')[1]) - 1].strip()[:110]
                    print('%-9s %s %r -> %r   | %s  %s' % (st, where, old[:60], new[:60], line, msg), file=out, flush=True)
    finally:
        shutil.rmtree(tmp)
    print(n, file=out)


main()

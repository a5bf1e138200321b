#!/usr/bin/env python3
"""Runs the checks on edited copies of /repo: refactorings must stay quiet, breaking edits must be caught.

usage: battery.py FILE.py [ID...]   (VP_J=n jobs; VP_PROPS="ID..." runs other checks on the refactorings)"""
import concurrent.futures, importlib.util, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)


def one(case, tmp, compile_cmd):
    d = os.path.join(tmp, case['id'])
    subprocess.check_call(['cp', '-r', os.path.join(tmp, '_base'), d])
    try:
        for path, old, new in case['edits']:
            p = os.path.join(d, path)
            if old == '$NEW':
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'w').write(new)
                continue
            t = open(p).read()
            if callable(old):
                t2 = old(t)
            elif old == '$END':
                t2 = t + new
            else:
                if t.count(old) < 1:
                    return case['id'], 'EDIT?', '%d matches of %r' % (t.count(old), old[:60])
                t2 = t.replace(old, new)
            open(p, 'w').write(t2)
        note = ''
        if compile_cmd:
            r = compile_cmd(d, case)
            if r:
                return case['id'], 'COMPILE', r
        env = dict(os.environ, VERIF_REPO=d, PYTHONPATH=os.path.join(root, 'analyzer'), PYTHONDONTWRITEBYTECODE='1', VERIF_EVIDENCE=os.path.join(d, '.ev'))
        props = case['props']
        if os.environ.get('VP_PROPS'):
            props = os.environ['VP_PROPS'].split()
        pr = subprocess.run([sys.executable, '-m', 'vp.run'] + props, capture_output=True, text=True, env=env, cwd=root, timeout=900)
        fired = sorted({l.split('property=')[1].split()[0] for l in pr.stdout.splitlines() if l.startswith('VIOLATION')})
        err = pr.stderr.strip()
        if err:
            return case['id'], 'ERROR', err[-900:]
        if case['expect'] == 'quiet':
            return case['id'], 'ok' if not fired else 'FALSE ALARM', ('' if not fired else pr.stdout[:900])
        want = case.get('fires')
        good = fired and (not want or set(want) <= set(fired))
        return case['id'], 'ok' if good else 'MISSED', ' '.join(fired)
    finally:
        shutil.rmtree(d)


def main():
    spec = importlib.util.spec_from_file_location('m', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = set(sys.argv[2:])
    tmp = tempfile.mkdtemp()
    subprocess.check_call(['git', 'clone', '-q', '/repo', os.path.join(tmp, '_base')])
    shutil.rmtree(os.path.join(tmp, '_base', '.git'))
    cases = [c for c in m.CASES if (not only or c['id'] in only) and (c['expect'] == 'quiet' or not os.environ.get('VP_PROPS'))]
    bad = 0
    try:
        with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('VP_J', '8'))) as ex:
            for cid, st, msg in ex.map(lambda c: one(c, tmp, getattr(m, 'compile', None) if os.environ.get('VP_COMPILE') else None), cases):
                if st != 'ok':
                    bad += 1
                    print('%-24s %s\n    %s' % (cid, st, msg.replace('\n', '\n    ')))
    finally:
        shutil.rmtree(tmp)
    print('%d cases, %d not as expected' % (len(cases), bad))


main()

#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the specifications in tools/seeds/*.py against /repo HEAD."""
import importlib.util, glob, json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(os.path.dirname(here), 'seeded')
only = set(sys.argv[1:])


def main():
    tmp = tempfile.mkdtemp()
    wt = os.path.join(tmp, 'wt')
    subprocess.check_call(['git', 'clone', '-q', '/repo', wt])
    try:
        for f in sorted(glob.glob(os.path.join(here, 'seeds', '*.py'))):
            spec = importlib.util.spec_from_file_location('m', f)
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            for s in m.SEEDS:
                if only and s['id'] not in only:
                    continue
                for path, old, new in s['edits']:
                    p = os.path.join(wt, path)
                    t = open(p).read()
                    if t.count(old) != 1:
                        sys.exit('%s: %d matches in %s' % (s['id'], t.count(old), path))
                    open(p, 'w').write(t.replace(old, new))
                diff = subprocess.check_output(['git', '-C', wt, 'diff'], text=True)
                subprocess.check_call(['git', '-C', wt, 'checkout', '-q', '--', '.'])
                d = os.path.join(out, s['id'])
                if os.path.isdir(d):
                    shutil.rmtree(d)
                os.makedirs(d)
                open(os.path.join(d, 'patch.diff'), 'w').write(diff)
                json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
                for name, text in s['files'].items():
                    q = os.path.join(d, name)
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    open(q, 'w').write(text)
                os.chmod(os.path.join(d, 'demo.sh'), 0o755)
                print(s['id'], s['property'])
    finally:
        shutil.rmtree(tmp)


main()

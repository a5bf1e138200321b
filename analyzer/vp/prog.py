"""The program: crates, modules, items, name resolution and types, for one build configuration."""
import json, os, subprocess, tomllib, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'      # deeper bounds
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
BIN = os.path.join(BUILD, 'release', 'frontend')


def build_frontend():
    src = os.path.join(VERIF, 'analyzer', 'frontend')
    newest = max(os.path.getmtime(os.path.join(src, 'src', f)) for f in os.listdir(os.path.join(src, 'src')))
    if os.path.exists(BIN) and os.path.getmtime(BIN) >= newest:
        return
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(BIN) and os.path.getmtime(BIN) >= newest:
            return
        env = dict(os.environ)
        for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTC_WORKSPACE_WRAPPER'):
            env.pop(k, None)
        subprocess.run(['cargo', 'build', '--offline', '--release', '--quiet', '--target-dir', BUILD],
                       cwd=src, env=env, check=True)


SKIP_DIRS = {'target', '.git', 'node_modules'}


def source_files():
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in SKIP_DIRS)
        for f in sorted(fs):
            if f.endswith('.rs'):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return out


_cache = {}


def parse_repo():
    if 'asts' not in _cache:
        build_frontend()
        files = source_files()
        r = subprocess.run([BIN, REPO] + files, stdout=subprocess.PIPE, check=True)
        _cache['asts'] = json.loads(r.stdout)
    return _cache['asts']


class SourceError(Exception):
    """the source does not parse, or something the analysis is anchored at is missing"""

    def __init__(self, file, line, msg):
        super().__init__('%s:%s: %s' % (file, line, msg))
        self.file, self.line, self.msg = file, line, msg


# ------------------------------------------------------------------ cfg
def cfg_eval(tt, cfg):
    """tt: token trees of the predicate list; cfg: set of features plus flags"""
    i = 0
    preds = []
    while i < len(tt):
        t = tt[i]
        if t == ',':
            i += 1
            continue
        if isinstance(t, str) and i + 1 < len(tt) and isinstance(tt[i + 1], dict):
            inner = split_commas(tt[i + 1]['t'])
            vals = [cfg_eval(x, cfg) for x in inner if x]
            preds.append(all(vals) if t == 'all' else any(vals) if t == 'any' else not vals[0])
            i += 2
        elif i + 2 < len(tt) and tt[i + 1] == '=':
            v = tt[i + 2].strip('"')
            if t == 'feature':
                preds.append(v in cfg)
            elif t == 'target_pointer_width':
                preds.append(v == '64')
            elif t == 'target_endian':
                preds.append(v == 'little')
            else:
                preds.append((t + '=' + v) in cfg)
            i += 3
        else:
            preds.append(('#' + t) in cfg or t == 'true' or (t == 'debug_assertions' and '#release' not in cfg))
            i += 1
    return all(preds)


def split_commas(tt):
    out, cur = [], []
    for t in tt:
        if t == ',':
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


def cfg_ok(attrs, cfg):
    for a in attrs or ():
        if a['path'] == 'cfg' and not cfg_eval(a['tt'], cfg):
            return False
    return True


def live_attrs(attrs, cfg):
    """attributes with cfg_attr resolved: list of (path, tt, args)"""
    out = []
    for a in attrs or ():
        if a['path'] == 'cfg_attr':
            parts = split_commas(a['tt'])
            if parts and cfg_eval(parts[0], cfg):
                for p in parts[1:]:
                    path = ''.join(x for x in p if isinstance(x, str))
                    g = [x for x in p if isinstance(x, dict)]
                    out.append((path, g[0]['t'] if g else [], None))
        else:
            out.append((a['path'], a['tt'], a.get('args')))
    return out


def derives(node, cfg):
    out = set()
    for p, tt, _ in live_attrs(node.get('attrs'), cfg):
        if p == 'derive':
            for d in split_commas(tt):
                out.add([x for x in d if isinstance(x, str)][-1])
        if p.split('::')[-1] in ('CloneNoBound', 'PartialEqNoBound'):
            out.add(p.split('::')[-1])
    return out


# ------------------------------------------------------------------ program
class Def:
    __slots__ = ('kind', 'path', 'node', 'mod', 'extra')

    def __init__(self, kind, path, node, mod, extra=None):
        self.kind, self.path, self.node, self.mod, self.extra = kind, path, node, mod, extra

    def __repr__(self):
        return 'Def(%s %s)' % (self.kind, self.path)


class Module:
    def __init__(self, crate, path, file, attrs=None):
        self.crate, self.path, self.file = crate, path, file
        self.types, self.values, self.uses, self.globs = {}, {}, {}, []
        self.macros = []
        self.attrs = attrs or []
        self.items = []

    def __repr__(self):
        return 'Module(%s)' % '::'.join(self.path)


class Impl:
    def __init__(self, node, mod, cfg):
        self.node, self.mod = node, mod
        self.trait = node['trait']
        self.trait_name = node['trait']['segs'][-1]['id'] if node['trait'] else None
        self.fns, self.types, self.consts = {}, {}, {}
        for i in node['items']:
            if not cfg_ok(i.get('attrs'), cfg):
                continue
            if i['k'] == 'Fn':
                self.fns[i['id']] = i
            elif i['k'] == 'Type':
                self.types[i['id']] = i
            elif i['k'] == 'Const':
                self.consts[i['id']] = i
        self.attrs = node['attrs']
        self.self_ty = None      # filled lazily
        self.trait_args = None

    def __repr__(self):
        return 'Impl(%s for %s @%s:%s)' % (self.trait_name, self.self_ty, self.mod.file, self.node['l'])


class Crate:
    def __init__(self, prog, name, dir, root, cfg):
        self.prog, self.name, self.dir, self.cfg = prog, name, dir, set(cfg)
        self.impls, self.modules = [], []
        self.items = {}
        self.root = Module(self, (name,), root)
        ast = prog.asts.get(root)
        if ast is None:
            raise SourceError(root, 0, 'file missing')
        if 'error' in ast:
            raise SourceError(root, ast.get('l', 0), 'does not parse: ' + ast['error'])
        self.modules.append(self.root)
        self.load(self.root, ast['items'], os.path.dirname(root), root)

    def load(self, mod, items, dir, file):
        for it in items:
            if not cfg_ok(it.get('attrs'), self.cfg):
                continue
            k = it['k']
            mod.items.append(it)
            path = mod.path + (it.get('id') or '?',)
            if k == 'Mod':
                sub = Module(self, path, file, it.get('attrs'))
                sub.node = it
                sub.parent = mod
                mod.types[it['id']] = Def('mod', path, it, sub)
                self.modules.append(sub)
                if it['items'] is not None:
                    self.load(sub, it['items'], os.path.join(dir, it['id']), file)
                else:
                    cands = [os.path.join(dir, it['id'] + '.rs'), os.path.join(dir, it['id'], 'mod.rs')]
                    for p, tt, _ in live_attrs(it.get('attrs'), self.cfg):
                        if p == 'path':
                            cands.insert(0, os.path.join(os.path.dirname(file), tt[0].strip('"')))
                    for c in cands:
                        if c in self.prog.asts:
                            a = self.prog.asts[c]
                            if 'error' in a:
                                raise SourceError(c, a.get('l', 0), 'does not parse: ' + a['error'])
                            sub.file = c
                            self.load(sub, a['items'], os.path.join(dir, it['id']), c)
                            break
                    else:
                        sub.missing = True
            elif k == 'Struct':
                d = Def('struct', path, it, mod)
                mod.types[it['id']] = d
                if it['fields']['style'] != 'named':
                    mod.values[it['id']] = d
            elif k == 'Enum':
                mod.types[it['id']] = Def('enum', path, it, mod)
            elif k == 'Trait':
                mod.types[it['id']] = Def('trait', path, it, mod)
            elif k == 'Type':
                mod.types[it['id']] = Def('type', path, it, mod)
            elif k == 'Fn':
                mod.values[it['id']] = Def('fn', path, it, mod)
            elif k == 'Const':
                mod.values[it['id']] = Def('const', path, it, mod)
            elif k == 'Use':
                for u in it['uses']:
                    if u.get('glob'):
                        mod.globs.append(tuple(u['path']))
                    else:
                        mod.uses[u['as']] = tuple(u['path'])
            elif k == 'Impl':
                self.impls.append(Impl(it, mod, self.cfg))
            elif k == 'MacroItem':
                m = it['m']
                mod.macros.append(it)
                if 'expanded' in m:
                    mod.items.pop()
                    self.load(mod, m['expanded'], dir, file)
                elif 'params' in m:
                    for p in m['params']:
                        if cfg_ok(p.get('attrs'), self.cfg):
                            d = Def('param', mod.path + (p['id'],), p, mod)
                            mod.types[p['id']] = d
                elif 'morphs' in m:
                    for p in m['morphs']:
                        mod.types[p['id']] = Def('morph', mod.path + (p['id'],), p, mod)

    def all_fns(self):
        for m in self.modules:
            for d in m.values.values():
                if d.kind == 'fn':
                    yield d.node, m, None
        for im in self.impls:
            for f in im.fns.values():
                yield f, im.mod, im


class Program:
    """crates: {crate name: features}"""
    full = False        # name types outside the program by their whole path

    def __init__(self, crates):
        self.asts = parse_repo()
        self.crates = {}
        self.manifests = {}
        for d in self.find_manifests():
            with open(os.path.join(REPO, d, 'Cargo.toml'), 'rb') as f:
                try:
                    t = tomllib.load(f)
                except tomllib.TOMLDecodeError:
                    continue
            if 'package' in t:
                lib = t.get('lib', {})
                n = lib.get('name', t['package']['name']).replace('-', '_')
                root = lib.get('path') or ('src/lib.rs' if os.path.exists(os.path.join(REPO, d, 'src/lib.rs')) else 'src/main.rs')
                self.manifests[n] = (d, t, os.path.normpath(os.path.join(d, root)))
        for n, feats in crates.items():
            if n not in self.manifests:
                raise SourceError('Cargo.toml', 0, 'crate %s not found' % n)
            d, t, root = self.manifests[n]
            self.crates[n] = Crate(self, n, d, root, closure_features(t, feats))
        self._impl_idx = None
        self._tymemo = {}
        self.const_args = []

    def find_manifests(self):
        out = []
        for d, ds, fs in os.walk(REPO):
            ds[:] = sorted(x for x in ds if x not in SKIP_DIRS)
            if 'Cargo.toml' in fs:
                out.append(os.path.relpath(d, REPO))
        return out

    # -------------------------------------------------------------- resolution
    def resolve(self, mod, segs, ns='types', seen=None):
        """segs: tuple of identifiers. -> (Def or None, consumed, external path)

        Def with how many segments it covers, or (None, 0, path) for something outside the program."""
        seen = seen or set()
        key = (mod.path, segs, ns)
        if key in seen or not segs:
            return None, 0, segs
        seen = seen | {key}
        first = segs[0]
        if first == 'crate' or first == '$crate':
            return self.in_mod(mod.crate.root, segs, 1, ns, seen)
        if first == 'self':
            return self.in_mod(mod, segs, 1, ns, seen)
        if first == 'super':
            m, i = mod, 0
            while i < len(segs) and segs[i] == 'super':
                m = self.parent(m)
                i += 1
            return self.in_mod(m, segs, i, ns, seen)
        r = self.lookup(mod, segs, 0, ns, seen)
        if r:
            return r
        if first in self.crates and len(segs) > 1:
            return self.in_mod(self.crates[first].root, segs, 1, ns, seen)
        return None, 0, segs

    def abs_path(self, mod, ids):
        d, n, ext = self.resolve(mod, tuple(ids))
        return tuple(d.path) + tuple(ids[n:]) if d is not None else tuple(ext or ids)

    def parent(self, m):
        if hasattr(m, 'parent'):
            return m.parent
        return m

    def in_mod(self, mod, segs, i, ns, seen):
        if i >= len(segs):
            return Def('mod', mod.path, None, mod), i, None
        r = self.lookup(mod, segs, i, ns, seen)
        return r or (None, 0, tuple(mod.path) + tuple(segs[i:]))

    def lookup(self, mod, segs, i, ns, seen):
        name = segs[i]
        last = i == len(segs) - 1
        tabs = (mod.values, mod.types) if (last and ns == 'values') else (mod.types, mod.values)
        for t in tabs:
            if name in t:
                d = t[name]
                if d.kind == 'mod':
                    if last:
                        return d, i + 1, None
                    return self.in_mod(d.mod, segs, i + 1, ns, seen)
                return d, i + 1, None
        if name in mod.uses:
            p = mod.uses[name]
            if not (p == (name,) and len(p) == 1):
                d, n, ext = self.resolve(mod, tuple(p) + tuple(segs[i + 1:]), ns, seen)
                if d is not None:
                    return d, i + 1 + (n - len(p)), None
                if last and ns == 'values':
                    # the import may be of a type only
                    v = self.glob_variant(mod, name, seen)
                    if v is not None:
                        return v, i + 1, None
                return None, 0, ext
        outside = None
        for g in mod.globs:
            gd, n, ext = self.resolve(mod, g, 'types', seen)
            if gd is None:
                continue
            if gd.kind == 'mod' and n == len(g):
                if (gd.mod.path, segs[i:], ns, 'g') in seen:
                    continue
                r = self.lookup(gd.mod, segs, i, ns, seen | {(gd.mod.path, segs[i:], ns, 'g')})
                if r and r[0] is not None:
                    return r
                outside = outside or r
            elif gd.kind == 'enum':
                for v in gd.node['variants']:
                    if v['id'] == name:
                        return Def('enum', gd.path, gd.node, gd.mod, extra=name), i + 1, None
        return outside

    def glob_variant(self, mod, name, seen=None):
        for g in mod.globs:
            gd, n, ext = self.resolve(mod, g, 'types', seen)
            if gd is not None and gd.kind == 'enum' and any(v['id'] == name for v in gd.node['variants']):
                return Def('enum', gd.path, gd.node, gd.mod, extra=name)
        return None

    # -------------------------------------------------------------- types
    def length(self, e, mod, gen):
        """length of an array type, '?' when not a plain number"""
        if e['k'] == 'Lit':
            return e.get('v')
        if e['k'] == 'Path' and 'qself' not in e:
            ids = tuple(x['id'] for x in e['segs'])
            g = gen.get(ids[0]) if len(ids) == 1 else None
            if g is not None:
                return g[1] if g[0] == 'const' else '?'
            d, k, _ = self.resolve(mod, ids, 'values')
            if d is not None and d.kind == 'const' and k == len(ids) and d.node.get('e') and d.node['e']['k'] == 'Lit':
                return d.node['e'].get('v')
        return '?'

    def ty(self, node, mod, gen=None, self_ty=None):
        """type term of a type node"""
        gen = gen or {}
        if node is None:
            return ('tup', ())
        k = node['k']
        if k == 'TyRef':
            return self.ty(node['ty'], mod, gen, self_ty)
        if k == 'TyPtr':
            return ('ptr', self.ty(node['ty'], mod, gen, self_ty))
        if k == 'TyTuple':
            return ('tup', tuple(self.ty(t, mod, gen, self_ty) for t in node['tys']))
        if k == 'TyArray':
            return ('arr', self.ty(node['ty'], mod, gen, self_ty), self.length(node['len'], mod, gen))
        if k == 'TySlice':
            return ('sl', self.ty(node['ty'], mod, gen, self_ty))
        if k == 'TyInfer':
            return ('inf',)
        if k == 'TyNever':
            return ('t', '!', ())
        if k in ('TyImpl', 'TyDyn'):
            return ('impl', tuple(b['segs'][-1]['id'] for b in node['bounds'] if b['k'] == 'Bound'))
        if k == 'TyPath':
            return self.path_ty(node, mod, gen, self_ty)
        if k == 'FnArgs':
            return ('fnargs',)
        if k == 'Lifetime':
            return ('life',)
        if k == 'ConstArg':
            e = node['e']
            if e['k'] == 'Lit':
                return ('const', str(e['v']))
            x = e
            while x['k'] == 'Block' and len(x.get('stmts') or ()) == 1 and x['stmts'][0]['k'] == 'ExprStmt':
                x = x['stmts'][0]['e']
            if x['k'] == 'Path' and len(x['segs']) == 1 and x['segs'][0]['id'] in gen:
                return gen[x['segs'][0]['id']]
            if self.full:
                self.const_args.append((e, mod))
                return ('cx', len(self.const_args) - 1)
            return ('const', '?')
        if k == 'AssocArg':
            return ('assoc', node['id'], self.ty(node['ty'], mod, gen, self_ty))
        return ('other', k)

    def path_ty(self, node, mod, gen, self_ty):
        segs = node['segs']
        ids = tuple(x['id'] for x in segs)
        args = lambda x: tuple(self.ty(a, mod, gen, self_ty) for a in (x['args'] or ()) if a['k'] != 'Lifetime')
        if 'qself' in node:
            q = self.ty(node['qself'], mod, gen, self_ty)
            pos = node['qpos']
            tr = None
            if pos > 0:
                tr = '::'.join(self.abs_path(mod, ids[:pos])) if self.full else ids[pos - 1]
            t = q
            for s in segs[pos:]:
                t = ('proj', t, tr, s['id'])
                tr = None
            return t
        if ids[0] == 'Self' and self_ty is not None:
            t = self_ty
            for s in segs[1:]:
                t = ('proj', t, None, s['id'])
            return t
        if ids[0] in gen:
            t = gen[ids[0]]
            for s in segs[1:]:
                t = ('proj', t, None, s['id'])
            return t
        d, n, ext = self.resolve(mod, ids)
        if d is None:
            # an external type: canonical name is its last identifier, unless it is an associated type
            last = segs[-1]
            if len(ids) >= 2 and ids[-2][:1].isupper() and not (ext and len(ext) > len(ids)):
                # e.g. Foo::Bar on an external type
                base = dict(node)
                base = {'k': 'TyPath', 'l': node['l'], 'segs': segs[:-1]}
                return ('proj', self.path_ty(base, mod, gen, self_ty), None, last['id'])
            name = '::'.join(ext or ids) if self.full else (ext or ids)[-1]
            return ('t', name, args(last))
        rest = segs[n:]
        here = segs[n - 1]
        a = args(here)
        if d.kind == 'type':
            ps = [p['id'] for p in d.node['generics']['params'] if p['k'] in ('TypeParam', 'ConstParam')]
            defs = {p['id']: p.get('default') for p in d.node['generics']['params'] if p['k'] == 'TypeParam'}
            if any(x[0] == 'pallet::storage' for x in live_attrs(d.node.get('attrs'), mod.crate.cfg)):
                t = ('t', '::'.join(d.path), a)
            else:
                g = {}
                for i, p in enumerate(ps):
                    if i < len(a):
                        g[p] = a[i]
                    elif defs.get(p):
                        g[p] = self.ty(defs[p], d.mod, g, None)
                    else:
                        g[p] = ('inf',)
                key = (d.path, tuple(sorted(g.items())))
                depth = getattr(self, '_depth', 0)
                if depth > 40:
                    return ('t', '::'.join(d.path), a)
                self._depth = depth + 1
                try:
                    t = self.ty(d.node['ty'], d.mod, g, None)
                finally:
                    self._depth = depth
        else:
            t = ('t', '::'.join(d.path), a)
        for s in rest:
            t = ('proj', t, None, s['id'])
        return t

    def def_of(self, tyname):
        """Def of a local type by canonical name"""
        parts = tyname.split('::')
        c = self.crates.get(parts[0])
        if not c:
            return None
        m = c.root
        for i, p in enumerate(parts[1:]):
            d = m.types.get(p) or m.values.get(p)
            if d is None:
                return None
            if d.kind == 'mod':
                m = d.mod
            elif i == len(parts) - 2:
                return d
            else:
                return None
        return None

    # -------------------------------------------------------------- impls
    def impls(self):
        if self._impl_idx is None:
            self._impl_idx = []
            for c in self.crates.values():
                for im in c.impls:
                    gen = {p['id']: ('param', p['id']) for p in im.node['generics']['params'] if p['k'] in ('TypeParam', 'ConstParam')}
                    im.gen = gen
                    im.self_ty = self.ty(im.node['self_ty'], im.mod, gen, None)
                    if im.trait:
                        im.trait_args = tuple(self.ty(a, im.mod, gen, im.self_ty)
                                              for a in (im.trait['segs'][-1]['args'] or ()) if a['k'] != 'Lifetime')
                    self._impl_idx.append(im)
        return self._impl_idx

    def find_impls(self, self_ty=None, trait=None, fn=None):
        for im in self.impls():
            if trait is not None and im.trait_name != trait:
                continue
            if fn is not None and fn not in im.fns:
                continue
            if self_ty is not None and not unify(im.self_ty, self_ty):
                continue
            yield im


def unify(p, t):
    """could pattern type p (with ('param', x)) be type t?"""
    if p[0] == 'param' or t[0] in ('param', 'inf') or p[0] == 'inf':
        return True
    if p[0] == 'proj' or t[0] == 'proj':
        return True
    if p[0] != t[0]:
        return False
    if p[0] == 't':
        if p[1] != t[1]:
            return False
        if not p[2] or not t[2]:
            return True
        pa = [x for x in p[2] if x[0] != 'life']
        ta = [x for x in t[2] if x[0] != 'life']
        return len(pa) == len(ta) and all(unify(a, b) for a, b in zip(pa, ta))
    if p[0] == 'tup':
        return len(p[1]) == len(t[1]) and all(unify(a, b) for a, b in zip(p[1], t[1]))
    if p[0] == 'arr':
        return unify(p[1], t[1]) and (p[2] == t[2] or '?' in (p[2], t[2]))
    if p[0] in ('sl', 'ptr'):
        return unify(p[1], t[1])
    return p == t


def closure_features(toml, feats):
    table = toml.get('features', {})
    out, todo = set(), list(feats)
    while todo:
        f = todo.pop()
        if f in out:
            continue
        out.add(f)
        if f.startswith('#'):
            continue
        todo += [x for x in table.get(f, []) if '/' not in x and not x.startswith('dep:')]
    return out

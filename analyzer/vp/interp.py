"""Path-sensitive abstract interpretation of function bodies.

The interpreter follows the data flow of a function over abstract values (terms.py), splitting where a branch cannot be
decided from the facts of the path, and following calls into the repository's own functions.  Nothing is executed: unknown
inputs are opaque atoms, loops over unknown sequences are summarised, and calls that leave the repository are effects.
"""
from .terms import *
from .facts import Facts, intish
from . import prog as P


class Unsupported(Exception):
    pass


class TooBig(Exception):
    pass


class State:
    __slots__ = ('store', 'facts', 'eff', 'glob')

    def __init__(self):
        self.store, self.facts, self.eff, self.glob = {}, Facts(), (), {}

    def copy(self):
        s = State()
        s.store, s.facts, s.eff, s.glob = dict(self.store), self.facts, self.eff, dict(self.glob)
        return s

    def with_facts(self, f):
        s = self.copy()
        s.facts = f
        return s

    def effect(self, e):
        s = self.copy()
        s.eff = self.eff + (e,)
        return s


class Env:
    __slots__ = ('vars', 'mod', 'self_ty', 'gen', 'ret', 'fn', 'closure_ret', 'tys')

    def __init__(self, mod, self_ty=None, gen=None, ret=None, fn=None):
        self.vars, self.mod, self.self_ty, self.gen, self.ret, self.fn = {}, mod, self_ty, gen or {}, ret, fn
        self.tys = {}

    def child(self):
        e = Env(self.mod, self.self_ty, self.gen, self.ret, self.fn)
        e.vars = dict(self.vars)
        e.tys = dict(self.tys)
        return e


def V(v, st):
    return [('v', v, st)]


class Interp:
    MAXPATHS = 200000 if P.THOROUGH else 20000

    def __init__(self, program, model=None):
        self.p = program
        self.n = 0
        self.closures = {}
        self.types = {}
        self.depth = 0
        self.stack = []
        self.stubs = {}          # functions taken as they are: id of the syntax -> name of the result
        self.unknowns = []
        self.obligations = 0
        self.fns_seen = set()
        self.calls_seen = 0
        self.model = model
        self.steps = 0
        if model:
            model.I = self
        from . import std
        self.std = std.Std(self)
        Facts.bits_of = staticmethod(self.atom_bits)
        Facts.variants_of = staticmethod(self.atom_variants)

    def atom_bits(self, a):
        t = self.typeof(a)
        from .std import WIDTH
        if t and t[0] == 't' and t[1] in WIDTH and t[1][0] == 'u':
            return WIDTH[t[1]]
        return None

    def atom_variants(self, x):
        t = self.typeof(x)
        return self.all_variants(t[1]) if t and t[0] == 't' else None

    # ---------------------------------------------------------------- helpers
    def fresh(self):
        self.n += 1
        return self.n

    def opaque(self, why, node=None):
        self.unknowns.append((why, self.where(node)))
        return ('opaque', self.fresh(), why)

    def where(self, node, env=None):
        f = self.stack[-1] if self.stack else None
        file = f[1] if f else '?'
        name = f[0] if f else '?'
        l = node.get('l') if isinstance(node, dict) else None
        return '%s:%s (%s)' % (file, l, name)

    def alloc(self, v, st):
        a = self.fresh()
        st = st.copy()
        st.store[a] = v
        return a, st

    def bind(self, outs, f):
        res = []
        for o in outs:
            if o[0] == 'v':
                res.extend(f(o[1], o[2]))
            else:
                res.append(o)
        if len(res) > self.MAXPATHS:
            raise TooBig('too many paths')
        return res

    def branch(self, st, cond):
        """[(truth, state)]"""
        cond = self.boolterm(cond, st)
        d = st.facts.decide(cond)
        if d is not None:
            return [(d, st)]
        out = []
        for b in (True, False):
            f = st.facts.assume(cond, b)
            if f is not None:
                out.append((b, st.with_facts(f)))
        return out

    def boolterm(self, v, st):
        v = self.rv(v, st)
        return v

    def panic(self, st, why, node):
        return ('panic', (why, self.where(node)), st)

    def require(self, st, cond, why, node):
        """obligation: cond must hold, otherwise the program panics. -> (ok states, panic outcomes)"""
        self.obligations += 1
        oks, bad = [], []
        for b, s in self.branch(st, cond):
            if b:
                oks.append(s)
            else:
                bad.append(self.panic(s, why, node))
        return oks, bad

    # ---------------------------------------------------------------- places
    def rv(self, v, st):
        """read through mutable references"""
        n = 0
        while v[0] == 'ref':
            v = self.read(v[1], v[2], st)
            n += 1
            if n > 20:
                raise Unsupported('reference cycle')
        return v

    def deep(self, v, st):
        """read through references everywhere inside v"""
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == 'ref':
            return self.deep(self.rv(v, st), st)
        if v[0] in ('int', 'bool', 'bits', 'clo', 'fn', 'sym', 'lin'):
            return v
        return tuple(self.deep(x, st) if isinstance(x, tuple) else x for x in v)

    def read(self, addr, proj, st):
        v = st.store.get(addr)
        if v is None:
            raise Unsupported('unknown cell')
        for s in proj:
            v = self.project(self.rv(v, st), s, st)
        return v

    def project(self, v, s, st):
        k = s[0]
        if k == 'f':
            return self.field(v, s[1], st)
        if k == 'v':
            return self.payload(v, s[1], s[2], st)
        if k == 'i':
            return self.std.index(v, s[1], st)
        if k == 'm':
            if v[0] == 'map' and s[1] < len(v[1]):
                return v[1][s[1]][1]
            return self.opaque('map entry')
        if k == 'sl':
            r = self.std.slice(v, s[1], s[2], st)
            return r if r is not None else self.opaque('slice')
        raise Unsupported(str(s))

    def field(self, v, name, st):
        v = self.rv(v, st)
        if v[0] == 'adt':
            d = dict(v[3])
            if name in d:
                return d[name]
            if v[1] in ('Pin', 'Box') and d:
                return self.field(list(d.values())[0], name, st)
        if v[0] == 'tup' and name.isdigit() and int(name) < len(v[1]):
            return v[1][int(name)]
        if v[0] == 'upd':
            d = dict(v[2])
            if name in d:
                return d[name]
            return self.field(v[1], name, st)
        t = ('fld', v, name)
        self.note_type(t, self.field_type(v, name))
        return t

    def note_type(self, t, ty):
        if ty is not None and ty != ('inf',) and t not in self.types:
            self.types[t] = ty

    def field_type(self, v, name):
        ty = self.typeof(v)
        if not ty:
            return None
        if ty[0] == 'tup' and name.isdigit() and int(name) < len(ty[1]):
            return ty[1][int(name)]
        if ty[0] == 't':
            d = self.p.def_of(ty[1])
            if d and d.kind == 'struct':
                g = self.gen_of(d, ty[2])
                for f in d.node['fields']['fields']:
                    if f['id'] == name:
                        return self.p.ty(f['ty'], d.mod, g, ty)
        return None

    def gen_of(self, d, args):
        ps = [p['id'] for p in d.node['generics']['params'] if p['k'] == 'TypeParam']
        g = {}
        for i, p in enumerate(ps):
            g[p] = args[i] if i < len(args) else ('param', p)
        return g

    def payload(self, v, variant, fld, st):
        v = self.rv(v, st)
        if v[0] == 'adt' and v[2] == variant:
            d = dict(v[3])
            if fld in d:
                return d[fld]
        if self.model:
            r = self.model.payload(v, variant, fld, st)
            if r is not None:
                return r
        t = ('pay', v, variant, fld)
        self.note_type(t, self.pay_type(v, variant, fld))
        return t

    def pay_type(self, v, variant, fld):
        ty = self.typeof(v)
        if ty and ty[0] == 't':
            if ty[1] == 'Option' and ty[2] and variant == 'Some':
                return ty[2][0]
            if ty[1] == 'Result' and ty[2]:
                if variant == 'Ok':
                    return ty[2][0]
                if len(ty[2]) > 1:
                    return ty[2][1]
            d = self.p.def_of(ty[1])
            if d and d.kind == 'enum':
                g = self.gen_of(d, ty[2])
                for x in d.node['variants']:
                    if x['id'] == variant:
                        for f in x['fields']['fields']:
                            if f['id'] == fld:
                                return self.p.ty(f['ty'], d.mod, g, ty)
        from .std import EXT_ENUMS
        for en, vs in EXT_ENUMS.items():
            if variant in vs and (ty is None or ty[1] == en):
                i = int(fld) if fld.isdigit() else None
                ts = vs[variant]
                if isinstance(ts, dict):
                    return ts.get(fld)
                if i is not None and i < len(ts):
                    return ts[i]
        return None

    def write(self, addr, proj, v, st):
        st = st.copy()
        # a cell holding a reference: writing through it writes the target
        if proj:
            base = st.store.get(addr)
            if base is not None and base[0] == 'ref':
                return self.write(base[1], base[2] + tuple(proj), v, st)
            new, st = self.update(base, tuple(proj), v, st)
            if new is not None:
                st.store[addr] = new
        else:
            st.store[addr] = v
        return st

    def update(self, base, proj, v, st):
        """-> (new base or None if written elsewhere, state)"""
        if not proj:
            return v, st
        if base[0] == 'ref':
            return None, self.write(base[1], base[2] + proj, v, st)
        s = proj[0]
        inner = self.project(base, s, st)
        if len(proj) > 1 and inner[0] == 'ref':
            return None, self.write(inner[1], inner[2] + proj[1:], v, st)
        new, st = self.update(inner, proj[1:], v, st)
        if new is None:
            return None, st
        return self.set_step(base, s, new, st), st

    def set_step(self, base, s, new, st):
        k = s[0]
        if k == 'f':
            if base[0] == 'adt':
                return ('adt', base[1], base[2], tuple((n, new if n == s[1] else x) for n, x in base[3]))
            if base[0] == 'tup' and s[1].isdigit():
                i = int(s[1])
                return ('tup', tuple(new if j == i else x for j, x in enumerate(base[1])))
            if base[0] == 'upd':
                d = dict(base[2])
                d[s[1]] = new
            else:
                d = {s[1]: new}
            root = base[1] if base[0] == 'upd' else base
            d = {k2: v2 for k2, v2 in d.items() if self.field(root, k2, st) != v2}
            if not d:
                return root
            return ('upd', root, tuple(sorted(d.items())))
        if k == 'v':
            if base[0] == 'adt' and base[2] == s[1]:
                return ('adt', base[1], base[2], tuple((n, new if n == s[2] else x) for n, x in base[3]))
            if self.payload(base, s[1], s[2], st) == new:
                return base
            ty = 'Option' if s[1] in ('Some', 'None') else 'Result' if s[1] in ('Ok', 'Err') else (self.typeof(base) or ('t', '?'))[1]
            return ('adt', ty, s[1], ((s[2], new),))
        if k == 'i':
            return self.std.set_index(base, s[1], new, st)
        if k == 'm':
            return ('map', base[1][:s[1]] + ((base[1][s[1]][0], new),) + base[1][s[1] + 1:])
        if k == 'sl':
            r = self.std.set_slice(base, s[1], s[2], new, st)
            return r if r is not None else self.opaque('slice write')
        raise Unsupported(str(s))

    def place(self, node, env, st):
        """-> [('v', (addr, proj), st) | abnormal]; temporaries get a fresh cell"""
        k = node['k']
        if k == 'Path' and len(node['segs']) == 1 and 'qself' not in node and node['segs'][0]['id'] in env.vars:
            return V((env.vars[node['segs'][0]['id']], ()), st)
        if k == 'Field':
            return self.bind(self.place(node['e'], env, st),
                             lambda pl, s: V(self.deref_place(pl, s, (('f', node['id']),)), s))
        if k == 'Unary' and node['op'] == '*':
            def f(pl, s):
                v = self.read(pl[0], pl[1], s)
                if v[0] == 'ref':
                    return V((v[1], v[2]), s)
                return V(pl, s)
            return self.bind(self.place(node['e'], env, st), f)
        if k == 'Index':
            def f(pl, s):
                def g(iv, s2):
                    iv = self.rv(iv, s2)
                    pl2 = self.deref_place(pl, s2, ())
                    base = self.rv(self.read(pl2[0], pl2[1], s2), s2)
                    return self.std.index_place(base, pl2, iv, s2, node)
                return self.bind(self.ev(node['i'], env, s), g)
            return self.bind(self.place(node['e'], env, st), f)
        if k in ('Paren', 'Group'):
            return self.place(node['e'], env, st)

        def tmp(v, s):
            if v[0] == 'ref':
                return V((v[1], v[2]), s)
            a, s = self.alloc(v, s)
            return V((a, ()), s)
        return self.bind(self.ev(node, env, st), tmp)

    def deref_place(self, pl, st, proj):
        addr, pr = pl
        v = self.read(addr, pr, st)
        n = 0
        while v[0] == 'ref':
            addr, pr = v[1], v[2]
            v = self.read(addr, pr, st)
            n += 1
            if n > 20:
                raise Unsupported('reference cycle')
        return (addr, tuple(pr) + tuple(proj))

    # ---------------------------------------------------------------- types of values
    def typeof(self, v):
        t = v[0]
        if v in self.types:
            return self.types[v]
        if t == 'sym':
            return v[2]
        if t == 'bits':
            return ('t', v[1], ())
        if t == 'bool':
            return ('t', 'bool', ())
        if t == 'adt':
            return ('t', v[1], ())
        if t == 'upd':
            return self.typeof(v[1])
        if t == 'tup':
            ts = [self.typeof(x) or ('inf',) for x in v[1]]
            return ('tup', tuple(ts))
        if t == 'seq' and v[1] and all(x[0] == 'part' for x in v[1]):
            e = self.typeof(v[1][0][1])
            if e is not None and e[0] == 'sl':
                return e
        if t in ('seq', 'raw', 'seqv'):
            return ('sl', ('t', 'u8', ()))
        if t == 'arr':
            e = self.typeof(v[1][0]) if v[1] else None
            return ('arr', e or ('inf',), str(len(v[1])))
        if t == 'fld':
            return self.field_type(v[1], v[2])
        if t == 'pay':
            return self.pay_type(v[1], v[2], v[3])
        return None

    def ty(self, node, env):
        return self.p.ty(node, env.mod, env.gen, env.self_ty)

    # ---------------------------------------------------------------- blocks and statements
    def block(self, stmts, env, st, want=None):
        env = env.child()
        cfg = env.mod.crate.cfg
        # local items first
        outs = [('v', UNIT, st, env)]
        live = [s for s in stmts if P.cfg_ok(s.get('attrs') or (s.get('e') or {}).get('attrs') if s['k'] == 'ExprStmt' else s.get('attrs'), cfg)]
        items = [s['item'] for s in live if s['k'] == 'ItemStmt']
        if items:
            env = self.local_items(items, env)
        cur = [(env, st)]
        done = []
        last = UNIT
        for i, s in enumerate(live):
            nxt = []
            is_last = i == len(live) - 1
            for e, stt in cur:
                if s['k'] == 'ItemStmt':
                    nxt.append((e, stt))
                elif s['k'] == 'Local':
                    for o in self.local(s, e, stt, (live[i + 1:], want)):
                        if o[0] == 'v':
                            nxt.append((o[1], o[2]))
                        else:
                            done.append(o)
                else:
                    w = want if (is_last and not s['semi']) else None
                    for o in self.ev(s['e'], e, stt, w):
                        if o[0] == 'v':
                            if is_last and not s['semi']:
                                done.append(o)
                            else:
                                if s['semi'] and self.model:
                                    o = ('v', o[1], self.model.discarded(o[1], o[2], s))
                                nxt.append((e, o[2]))
                        else:
                            done.append(o)
            if len(nxt) + len(done) > self.MAXPATHS:
                raise TooBig('too many paths')
            cur = nxt
            if is_last and s['k'] == 'ExprStmt' and not s['semi']:
                return done
        done += [('v', UNIT, s2) for _, s2 in cur]
        return done

    def local_items(self, items, env):
        env = env.child()
        m = P.Module(env.mod.crate, env.mod.path + ('{fn}',), env.mod.file)
        m.parent = self.p.parent(env.mod)
        m.types, m.values = dict(env.mod.types), dict(env.mod.values)
        m.uses, m.globs = dict(env.mod.uses), list(env.mod.globs)
        for it in items:
            if it['k'] == 'Use':
                for u in it['uses']:
                    if u.get('glob'):
                        m.globs.append(tuple(u['path']))
                        gd, k, ext = self.p.resolve(env.mod, tuple(u['path']))
                        if gd is not None and gd.kind == 'enum' and not gd.extra:
                            # names of an inner scope hide those of the outer one
                            for v in gd.node['variants']:
                                m.values[v['id']] = P.Def('enum', gd.path, gd.node, gd.mod, extra=v['id'])
                    else:
                        m.types.pop(u['as'], None)
                        m.values.pop(u['as'], None)
                        m.uses[u['as']] = tuple(u['path'])
            elif it['k'] == 'Fn':
                m.values[it['id']] = P.Def('fn', m.path + (it['id'],), it, m)
            elif it['k'] == 'Const':
                m.values[it['id']] = P.Def('const', m.path + (it['id'],), it, m)
            elif it['k'] in ('Struct', 'Enum', 'Type'):
                m.types[it['id']] = P.Def(it['k'].lower(), m.path + (it['id'],), it, m)
                if it['k'] == 'Struct':
                    m.values[it['id']] = m.types[it['id']]
        env.mod = m
        return env

    POLY = {'into', 'try_into', 'parse', 'unwrap_or_default', 'collect', 'sum'}

    def open_type(self, n):
        """is the type of the expression only fixed by how its value is used?"""
        while True:
            if n['k'] in ('Try', 'Paren', 'Group', 'Ref'):
                n = n['e']
            elif n['k'] == 'MethodCall':
                if n['m'] in self.POLY and not n.get('targs'):
                    return True
                if n['m'] not in ('unwrap', 'expect', 'ok', 'ok_or', 'ok_or_else', 'map_err', 'unwrap_or', 'unwrap_or_else'):
                    return False
                n = n['recv']
            elif n['k'] == 'Call' and n['f']['k'] == 'Path':
                return [x['id'] for x in n['f']['segs']][-2:] == ['Default', 'default']
            elif n['k'] == 'Tuple':
                return any(self.open_type(x) for x in n['elems'])
            else:
                return False

    def use_type(self, name, nodes, env, tail=None):
        """the type expected where the variable is used, or None"""
        found = []

        def is_var(x):
            while x['k'] in ('Paren', 'Group'):
                x = x['e']
            return x['k'] == 'Path' and 'qself' not in x and [y['id'] for y in x['segs']] == [name]

        def go(x, tw):
            if found:
                return
            if isinstance(x, (list, tuple)):
                for y in x:
                    go(y, None)
                return
            if not isinstance(x, dict):
                return
            k = x.get('k')
            if k == 'Struct':
                try:
                    ws = self.field_wants(x, env)
                except Exception:
                    ws = {}
                for f in x['fields']:
                    if is_var(f['e']) and ws.get(f['id']):
                        found.append(ws[f['id']])
                        return
            elif k == 'Call' and x['f']['k'] == 'Path':
                for i, a in enumerate(x['args']):
                    if is_var(a):
                        ws = self.call_wants(x['f'], env, tw)
                        if ws and i < len(ws) and ws[i]:
                            found.append(ws[i])
                            return
                if len(x['args']) == 1 and tw and tw[0] == 't' and tw[1] in ('Option', 'Result', 'Try') and tw[2] and [y['id'] for y in x['f']['segs']][-1] in ('Some', 'Ok'):
                    go(x['args'][0], tw[2][0])
                    return
            elif k == 'Local' and x['pat']['k'] == 'PatType' and x['init'] is not None and is_var(x['init']):
                found.append(self.ty(x['pat']['ty'], env))
                return
            elif k == 'Path' and tw is not None and is_var(x):
                found.append(tw)
                return
            elif k == 'Return' and x['e'] is not None:
                go(x['e'], env.ret)
                return
            elif k in ('Block', 'Unsafe') and 'stmts' in x:
                stm(x['stmts'], tw)
                return
            for kk, y in x.items():
                if isinstance(y, (dict, list, tuple)) and kk not in ('attrs', 'segs', 'ty'):
                    go(y, None)

        def stm(ss, tw):
            for i, y in enumerate(ss):
                go(y['e'] if y.get('k') == 'ExprStmt' else y, tw if i == len(ss) - 1 and y.get('k') == 'ExprStmt' and not y.get('semi') else None)
        if nodes and nodes[0].get('k') in ('ExprStmt', 'Local', 'ItemStmt'):
            stm(nodes, tail)
        else:
            for x in nodes:
                go(x, tail)
        t = found[0] if found else None
        while t and t[0] == 'ref':
            t = t[1]
        return t if t and t[0] in ('t', 'arr', 'tup', 'sl') else None

    def call_wants(self, f, env, want):
        ids = tuple(x['id'] for x in f['segs'])
        if 'qself' not in f and ids[0] != 'Self':
            d, k, ext = self.p.resolve(env.mod, ids, 'values')
            if d is not None and d.kind == 'fn' and k == len(ids):
                return self.param_wants(d.node, d.mod, self.fn_generics(d.node, f['segs'][-1], env), None)
        vp = self.variant_of_path(f, env)
        if vp is not None and self.ctor_style(vp) == 'tuple':
            return self.ctor_wants(vp, want)
        t, name = self.assoc_target(f, env)
        if t is not None:
            im, fn = self.find_assoc(t, name, trait=self.trait_of_path(f))
            if fn is not None:
                return self.param_wants(fn, im.mod, self.match_gen(im, t), t)
            from .std import WIDTH
            if t[0] == 't' and t[1] in WIDTH and name in ('from_le_bytes', 'from_be_bytes', 'from_ne_bytes'):
                return [('arr', ('t', 'u8', ()), str(WIDTH[t[1]] // 8))]
        return None

    def pat_want(self, pat, nodes, env, tail):
        """type of the matched value as far as the uses of the bound variables fix it"""
        k = pat['k']
        if k == 'PatIdent' and not pat.get('sub'):
            return self.use_type(pat['id'], nodes, env, tail)
        if k == 'PatTupleStruct' and pat['path']['segs'][-1]['id'] in ('Some', 'Ok') and len(pat['elems']) == 1:
            w = self.pat_want(pat['elems'][0], nodes, env, tail)
            return ('t', 'Try', (w,)) if w else None
        if k == 'PatTuple':
            ws = [self.pat_want(x, nodes, env, tail) for x in pat['elems']]
            return ('tup', tuple(w or ('inf',) for w in ws)) if any(ws) else None
        if k in ('PatRef', 'PatParen'):
            return self.pat_want(pat['pat'], nodes, env, tail)
        if k == 'PatIdent' and pat.get('sub'):
            return self.pat_want(pat['sub'], nodes, env, tail)
        if k in ('PatStruct', 'PatTupleStruct'):
            vp = self.variant_of_path(pat['path'], env)
            if vp is not None and vp[0] not in ('Option', 'Result'):
                return ('t', vp[0], ())
        if k == 'PatOr':
            for c in pat['cases']:
                w = self.pat_want(c, nodes, env, tail)
                if w:
                    return w
        return None

    def scrut_want(self, e, pats, env, tail):
        """type the patterns ask of the matched expression"""
        hint = None
        for pat, nodes in pats:
            hint = hint or self.pat_want(pat, nodes, env, tail)
        while e['k'] in ('Paren', 'Group'):
            e = e['e']
        if hint and hint[:2] == ('t', 'Try') and e['k'] == 'MethodCall' and e['m'] == 'into':
            hint = ('t', 'Result', (hint[2][0], ('inf',)))
        return hint

    def local(self, s, env, st, rest=None):
        pat = s['pat']
        want = None
        hint = None
        if pat['k'] == 'PatType':
            want = self.ty(pat['ty'], env)
        elif s['init'] is not None and rest is not None and self.open_type(s['init']):
            hint = self.scrut_want(s['init'], [(pat, rest[0])], env, rest[1])
        if s['init'] is None:
            env = env.child()
            for n in pat_names(pat):
                a, st = self.alloc(('uninit',), st)
                env.vars[n] = a
                if want:
                    env.tys[n] = want
            return [('v', env, st)]
        if pat['k'] == 'PatIdent' and not want:
            pass
        init = s['init']
        ints = {}
        if pat['k'] == 'PatIdent' and not pat.get('sub'):
            ints[pat['id']] = init
        elif pat['k'] == 'PatTuple' and init['k'] == 'Tuple' and len(pat['elems']) == len(init['elems']):
            ints = {x['id']: y for x, y in zip(pat['elems'], init['elems']) if x['k'] == 'PatIdent'}
        if pat_has_refmut(pat):
            outs = self.bind(self.place(init, env, st), lambda pl, s2: V(('ref',) + self.deref_place(pl, s2, ()), s2))
        else:
            outs = self.ev(init, env, st, want or hint)
        res = []
        for o in outs:
            if o[0] != 'v':
                res.append(o)
                continue
            v, s1 = o[1], o[2]
            if want:
                v, s1 = self.std.coerce(v, want, s1)
            if self.model and pat['k'] == 'PatWild':
                s1 = self.model.discarded(v, s1, s)
            for s2, b in self.pmatch(pat, v, env, s1):
                if b is None:
                    if s['else'] is not None:
                        for o2 in self.ev(s['else'], env, s2):
                            if o2[0] == 'v':
                                continue
                            res.append(o2)
                    continue
                e2 = env.child()
                for n, bv in b.items():
                    a, s2 = self.alloc(bv, s2)
                    e2.vars[n] = a
                    t = self.std.node_int(ints[n], env) if n in ints else None
                    e2.tys.pop(n, None)
                    if t:
                        e2.tys[n] = ('t', t, ())
                    if want and pat['k'] == 'PatType' and pat['pat']['k'] == 'PatIdent':
                        e2.tys[n] = want
                        if bv[0] in ('sym', 'app', 'ret', 'fld', 'pay', 'elem'):
                            self.note_type(bv, want)
                res.append(('v', e2, s2))
        return res

    # ---------------------------------------------------------------- patterns
    def shadowed(self, name, env):
        """is a name of the prelude taken by an import?"""
        u = env.mod.uses.get(name)
        return u is not None and tuple(u)[-2:] not in (('Option', name), ('Result', name)) and tuple(u) != (name,)

    def variant_of_path(self, node, env):
        """(type name, variant, Def) of a path in pattern or constructor position, or None"""
        ids = tuple(x['id'] for x in node['segs'])
        if 'qself' in node:
            t = self.ty(node['qself'], env)
            if t[0] == 't':
                d = self.p.def_of(t[1])
                if d is not None and not (d.kind == 'enum' and any(v['id'] == ids[-1] for v in d.node['variants'])):
                    return None
                return (t[1], ids[-1], d)
            return None
        if ids in (('Some',), ('None',)) and not self.shadowed(ids[0], env):
            return ('Option', ids[0], None)
        if ids in (('Ok',), ('Err',)) and not self.shadowed(ids[0], env):
            return ('Result', ids[0], None)
        if ids[0] == 'Self' and env.self_ty and env.self_ty[0] == 't':
            d = self.p.def_of(env.self_ty[1])
            if d is None:
                return (env.self_ty[1], ids[1] if len(ids) > 1 else None, None)
            if len(ids) == 1:
                return (env.self_ty[1], None, d)
            if d.kind == 'enum' and any(v['id'] == ids[1] for v in d.node['variants']):
                return (env.self_ty[1], ids[1], d)
            return None
        if len(ids) == 1 and ids[0] in env.vars:
            return None
        d, n, ext = self.p.resolve(env.mod, ids, 'values')
        if d is None:
            ext = ext or ids
            if len(ext) >= 2 and ext[-2][:1].isupper():
                return (ext[-2], ext[-1], None)
            from .std import EXT_ENUMS
            for en, vs in EXT_ENUMS.items():
                if ext[-1] in vs:
                    return (en, ext[-1], None)
            outer = {g[-1] for g in env.mod.globs if g[-1][:1].isupper() and len(g) > 1 and self.p.resolve(env.mod, tuple(g))[0] is None}
            if len(ids) == 1 and len(outer) == 1 and not ext[-1][:1].isupper():
                return (outer.pop(), ext[-1], None)     # variants of an outer type brought into scope
            if ext[-1][:1].isupper():
                return (ext[-1], None, None)
            return None
        if d.kind == 'enum':
            if d.extra:
                return ('::'.join(d.path), d.extra, d)
            if n == len(ids) - 1 and any(v['id'] == ids[n] for v in d.node['variants']):
                return ('::'.join(d.path), ids[n], d)
            return None
        if d.kind == 'struct' and n == len(ids):
            return ('::'.join(d.path), None, d)
        if d.kind == 'type':
            t = self.p.path_ty({'k': 'TyPath', 'l': 0, 'segs': node['segs'][:n]}, env.mod, env.gen, env.self_ty)
            if t[0] == 't':
                d2 = self.p.def_of(t[1])
                if n == len(ids):
                    return (t[1], None, d2)
                if n == len(ids) - 1 and (d2 is None or (d2.kind == 'enum' and any(v['id'] == ids[n] for v in d2.node['variants']))):
                    return (t[1], ids[n], d2)
            return None
        return None

    def all_variants(self, tyname):
        if tyname == 'Option':
            return {'Some', 'None'}
        if tyname == 'Result':
            return {'Ok', 'Err'}
        d = self.p.def_of(tyname)
        if d and d.kind == 'enum':
            return {v['id'] for v in d.node['variants']}
        from .std import EXT_ENUMS, CLOSED
        if tyname in CLOSED:
            return set(EXT_ENUMS[tyname])
        return None

    def test_variant(self, v, tyname, variant, st):
        """[(bool, state)]"""
        v = self.rv(v, st)
        if v[0] == 'adt':
            return [(v[2] == variant, st)]
        if v[0] == 'upd':
            v = v[1]
        d = st.facts.decide_is(v, variant)
        if d is None:
            allv = self.all_variants(tyname)
            if allv:
                e = st.facts.var.get(st.facts.canon(v))
                neg = e[1] if e else frozenset()
                left = allv - neg
                if left == {variant}:
                    f = st.facts.assume(('is', v, variant), True)
                    return [(True, st.with_facts(f))] if f else []
                if not left:
                    return []
            if tyname == 'Option' and variant == 'None':
                return [(not b, s) for b, s in self.branch(st, ('is', v, 'Some'))]
            return self.branch(st, ('is', v, variant))
        return [(d, st)]

    def pmatch(self, pat, v, env, st):
        """-> [(state, bindings or None)]"""
        k = pat['k']
        if k == 'PatWild' or k == 'PatRest':
            return [(st, {})]
        if k == 'PatIdent':
            if pat['sub'] is None:
                # a constant or unit variant?
                if not pat['mut'] and not pat['ref']:
                    node = {'k': 'Path', 'l': pat['l'], 'segs': [{'id': pat['id'], 'args': None}]}
                    if pat['id'] == 'None' and not self.shadowed('None', env):
                        return self.pm_variant(('Option', 'None', None), [], v, env, st)
                    if pat['id'][:1].isupper() and pat['id'] not in env.vars:
                        vp = self.variant_of_path(node, env)
                        d, n, ext = self.p.resolve(env.mod, (pat['id'],), 'values')
                        if d is not None and d.kind == 'const':
                            return self.pm_const(node, v, env, st)
                        if d is None and pat['id'].isupper() and len(pat['id']) > 1:
                            return self.pm_const(node, v, env, st)
                        if vp:
                            if vp[1] is None:
                                return [(st, {})]
                            return self.pm_variant(vp, [], v, env, st)
                return [(st, {pat['id']: v})]
            out = []
            for s, b in self.pmatch(pat['sub'], v, env, st):
                if b is None:
                    out.append((s, None))
                else:
                    out.append((s, dict(b, **{pat['id']: v})))
            return out
        if k == 'PatType':
            want = self.ty(pat['ty'], env)
            v, st = self.std.coerce(v, want, st)
            return self.pmatch(pat['pat'], v, env, st)
        if k == 'PatRef':
            return self.pmatch(pat['pat'], self.rv(v, st), env, st)
        if k == 'PatOr':
            out = []
            pend = [st]
            for c in pat['cases']:
                nxt = []
                for s in pend:
                    for s2, b in self.pmatch(c, v, env, s):
                        if b is None:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                pend = nxt
            return out + [(s, None) for s in pend]
        if k == 'PatLit':
            lv = self.lit(pat['e'])
            return self.pm_eq(lv, v, st)
        if k == 'PatRange':
            return self.pm_range(pat, v, env, st)
        if k == 'PatPath':
            vp = self.variant_of_path(pat, env)
            if vp is None or (vp[1] is None and vp[2] is None):
                return self.pm_const(dict(pat, k='Path'), v, env, st)
            if vp[1] is None:
                return [(st, {})]
            return self.pm_variant(vp, [], v, env, st)
        if k == 'PatTuple':
            return self.pm_tuple(pat['elems'], v, env, st)
        if k == 'PatTupleStruct':
            vp = self.variant_of_path(pat['path'], env)
            if vp is None:
                raise Unsupported('pattern path at %s' % self.where(pat))
            subs = []
            n = len(pat['elems'])
            rest = [i for i, e in enumerate(pat['elems']) if e['k'] == 'PatRest']
            total = n
            if vp[2] is not None and vp[2].kind in ('enum', 'struct'):
                fs = vp[2].node['fields'] if vp[2].kind == 'struct' else next(x for x in vp[2].node['variants'] if x['id'] == vp[1])['fields']
                total = len(fs['fields'])
            elif rest:
                total = n - 1
            for i, e in enumerate(pat['elems']):
                if e['k'] == 'PatRest':
                    continue
                idx = i if not rest or i < rest[0] else total - (n - i)
                subs.append((str(idx), e))
            return self.pm_variant(vp, subs, v, env, st)
        if k == 'PatStruct':
            vp = self.variant_of_path(pat['path'], env)
            if vp is None:
                raise Unsupported('pattern path at %s' % self.where(pat))
            return self.pm_variant(vp, [(f['id'], f['pat']) for f in pat['fields']], v, env, st)
        if k == 'PatSlice':
            return self.std.pm_slice(pat, v, env, st)
        raise Unsupported('pattern %s at %s' % (k, self.where(pat)))

    def pm_const(self, node, v, env, st):
        out = []
        for o in self.ev(node, env, st):
            if o[0] == 'v':
                out += self.pm_eq(self.rv(o[1], o[2]), v, o[2])
        return out

    def pm_eq(self, lv, v, st):
        v = self.rv(v, st)
        return [(s, {} if b else None) for b, s in self.branch(st, self.std.eq(v, lv, st))]

    def pm_range(self, pat, v, env, st):
        v = self.rv(v, st)
        pend = [(st, True)]
        out = []

        def const(n):
            os_ = self.ev(n, env, st)
            return os_[0][1]
        conds = []
        if pat['start'] is not None:
            conds.append((('lt', v, const(pat['start'])), False))
        if pat['end'] is not None:
            e = const(pat['end'])
            conds.append((('lt', e, v), False) if pat['closed'] else (('lt', v, e), True))
        pend = [st]
        for c, need in conds:
            nxt = []
            for s in pend:
                for b, s2 in self.branch(s, c):
                    if b == need:
                        nxt.append(s2)
                    else:
                        out.append((s2, None))
            pend = nxt
        return out + [(s, {}) for s in pend]

    def sub_value(self, v, step, st):
        """component of v for a sub-pattern; keeps reference-ness"""
        if v[0] == 'ref':
            inner = self.read(v[1], v[2], st)
            if inner[0] == 'ref':
                return self.sub_value(inner, step, st)
            return ('ref', v[1], v[2] + (step,))
        return self.project(v, step, st)

    def pm_subs(self, subs, env, st):
        """subs: [(pattern, value)]; conjunction"""
        pend = [(st, {})]
        out = []
        for p_, v in subs:
            nxt = []
            for s, b in pend:
                for s2, b2 in self.pmatch(p_, v, env, s):
                    if b2 is None:
                        out.append((s2, None))
                    else:
                        nxt.append((s2, dict(b, **b2)))
            pend = nxt
        return out + pend

    def pm_tuple(self, elems, v, env, st):
        base = self.rv(v, st)
        rest = [i for i, e in enumerate(elems) if e['k'] == 'PatRest']
        n = len(elems)
        if base[0] == 'tup':
            total = len(base[1])
        else:
            ty = self.typeof(base)
            total = len(ty[1]) if ty and ty[0] == 'tup' else n
        subs = []
        for i, e in enumerate(elems):
            if e['k'] == 'PatRest':
                continue
            idx = i if not rest or i < rest[0] else total - (n - i)
            subs.append((e, self.sub_value(v, ('f', str(idx)), st)))
        return self.pm_subs(subs, env, st)

    def pm_variant(self, vp, subs, v, env, st):
        tyname, variant, d = vp
        if variant is None:
            return self.pm_subs([(p_, self.sub_value(v, ('f', f), st)) for f, p_ in subs], env, st)
        out = []
        base = self.rv(v, st)
        if base[0] in ('sym', 'fld', 'pay', 'app', 'ret', 'elem') and self.typeof(base) is None and d is not None:
            self.note_type(base, ('t', tyname, ()))
        for b, s in self.test_variant(v, tyname, variant, st):
            if not b:
                out.append((s, None))
                continue
            out += self.pm_subs([(p_, self.sub_value(v, ('v', variant, f), s)) for f, p_ in subs], env, s)
        return out

    # ---------------------------------------------------------------- expressions
    def lit(self, n):
        t = n['t']
        if t == 'int':
            return I(int(n['v']))
        if t == 'bool':
            return B(n['v'])
        if t == 'str':
            return self.std.lit_str(n['v'].encode())
        if t == 'bytestr':
            return ('arr', tuple(I(x) for x in n['v']))
        if t == 'char':
            return ('char', n['v'])
        return ('lit', t, n['v'])

    def ev(self, n, env, st, want=None):
        self.steps += 1
        if self.steps > (20000000 if P.THOROUGH else 5000000):
            raise TooBig('analysis budget')
        k = n['k']
        f = getattr(self, 'e_' + k, None)
        if f is None:
            return V(self.opaque('expression ' + k, n), st)
        return f(n, env, st, want)

    def e_Lit(self, n, env, st, want):
        if n['t'] == 'int' and n.get('suffix') in WIDTH:
            v = I(int(n['v']))
            return V(v, st)
        return V(self.lit(n), st)

    def e_Path(self, n, env, st, want):
        segs = n['segs']
        ids = tuple(x['id'] for x in segs)
        if len(ids) == 1 and 'qself' not in n:
            if ids[0] in env.vars:
                return V(st.store[env.vars[ids[0]]], st)
            g = env.gen.get(ids[0])
            if g is not None and g[0] == 'const' and g[1].isdigit():
                return V(I(int(g[1])), st)
            if g is not None and g[0] == 'cx':
                e, m = self.p.const_args[g[1]]
                return self.ev(e, Env(m), st, want)
        if ids == ('None',) and not self.shadowed('None', env):
            return V(NONE, st)
        return self.path_value(n, env, st, want)

    def path_value(self, n, env, st, want):
        segs = n['segs']
        ids = tuple(x['id'] for x in segs)
        if self.model:
            r = self.model.path(n, env, st)
            if r is not None:
                return r
        if 'qself' not in n:
            # constants and functions of the program
            if ids[0] != 'Self':
                d, k, ext = self.p.resolve(env.mod, ids, 'values')
                if d is not None and k == len(ids):
                    if d.kind == 'const':
                        return self.const_value(d, env, st)
                    if d.kind == 'fn':
                        return V(('fn', 'item', '::'.join(d.path)), self.reg_fn(d, st))
        vp = self.variant_of_path(n, env)
        if vp is not None and (vp[1] is not None or (vp[2] is not None and vp[2].kind == 'struct')):
            ctor = self.ctor_style(vp)
            if ctor == 'unit':
                return V(('adt', vp[0], vp[1], ()), st)
            if ctor == 'tuple':
                return V(('fn', 'ctor', vp[0], vp[1]), st)
        # associated constants / functions
        r = self.std.assoc_path(n, env, st, want)
        if r is not None:
            return r
        t, name = self.assoc_target(n, env)
        if t is not None:
            im, c = self.find_assoc(t, name, 'consts')
            if c is not None:
                e2 = Env(im.mod, im.self_ty, im.gen)
                return self.ev(c['e'], e2, st, self.p.ty(c['ty'], im.mod, im.gen, im.self_ty))
            return V(('fn', 'assoc', t, name, self.key_node(n, env)), st)
        d, k, ext = self.p.resolve(env.mod, ids, 'values')
        return V(('fn', 'ext', '::'.join(ext or ids), None, self.key_node(n, env)), st)

    def key_node(self, n, env):
        key = id(n)
        self.closures.setdefault('nodes', {})[key] = (n, env)
        return key

    def reg_fn(self, d, st):
        self.closures.setdefault('fns', {})['::'.join(d.path)] = d
        return st

    def const_value(self, d, env, st):
        key = ('const', d.path)
        e2 = Env(d.mod, None, {}, None, d.path[-1])
        ty = self.p.ty(d.node['ty'], d.mod, {}, None)
        outs = self.ev(d.node['e'], e2, st, ty)
        return self.bind(outs, lambda v, s: V(*self.std.coerce(v, ty, s)))

    def ctor_style(self, vp):
        tyname, variant, d = vp
        if variant in ('None',):
            return 'unit'
        if variant in ('Some', 'Ok', 'Err'):
            return 'tuple'
        if d is not None:
            fs = d.node['fields'] if d.kind == 'struct' else next(x for x in d.node['variants'] if x['id'] == variant)['fields']
            return fs['style'] if fs['style'] != 'named' else 'named'
        from .std import EXT_ENUMS
        vs = EXT_ENUMS.get(tyname)
        if vs and variant in vs:
            ts = vs[variant]
            return 'unit' if not ts else 'tuple'
        return 'ext'

    def assoc_target(self, n, env):
        """type term and name for Type::name"""
        segs = n['segs']
        if 'qself' in n:
            t = self.p.ty(n['qself'], env.mod, env.gen, env.self_ty)
            pos = n['qpos']
            if len(segs) - pos == 1 or pos == 0 and len(segs) == 1:
                return t, segs[-1]['id']
            for s in segs[pos:-1]:
                t = ('proj', t, None, s['id'])
            return t, segs[-1]['id']
        if len(segs) < 2:
            return None, None
        base = {'k': 'TyPath', 'l': n['l'], 'segs': segs[:-1]}
        t = self.p.path_ty(base, env.mod, env.gen, env.self_ty)
        ids = tuple(x['id'] for x in segs[:-1])
        if t[0] == 't' and not t[1][:1].isupper() and '::' not in t[1] and t[1] not in WIDTH and t[1] not in ('str', 'bool', 'char'):
            return None, None          # a module
        return t, segs[-1]['id']

    def find_assoc(self, t, name, table='fns', trait=None):
        """(impl, node) of an associated item of type t"""
        best = (None, None)
        for im in self.p.impls():
            tab = getattr(im, table)
            if name in tab and P.unify(im.self_ty, t) and (trait is None or im.trait_name == trait):
                if t[0] in ('param', 'proj') and im.self_ty != t:
                    continue
                if im.self_ty[0] in ('param', 'proj') and im.self_ty != t and im.trait is None:
                    continue
                if im.trait is None or best[0] is None:
                    best = (im, tab[name])
                    if im.trait is None:
                        break
        return best

    def e_Tuple(self, n, env, st, want):
        wants = want[1] if want and want[0] == 'tup' and len(want[1]) == len(n['elems']) else None
        return self.many(n['elems'], env, st, wants, lambda vs, s: V(('tup', tuple(vs)), s))

    def many(self, nodes, env, st, wants, k):
        res = [([], st)]
        abn = []
        for i, x in enumerate(nodes):
            nxt = []
            for vs, s in res:
                for o in self.ev(x, env, s, wants[i] if wants and i < len(wants) else None):
                    if o[0] == 'v':
                        nxt.append((vs + [o[1]], o[2]))
                    else:
                        abn.append(o)
            res = nxt
        for vs, s in res:
            abn.extend(k(vs, s))
        if len(abn) > self.MAXPATHS:
            raise TooBig('too many paths')
        return abn

    def e_Array(self, n, env, st, want):
        ew = want[1] if want and want[0] in ('arr', 'sl') else None
        return self.many(n['elems'], env, st, [ew] * len(n['elems']),
                         lambda vs, s: V(('arr', tuple(vs)), s))

    def e_Repeat(self, n, env, st, want):
        def f(vs, s):
            v, ln = vs[0], self.rv(vs[1], s)
            if ln[0] == 'int' and ln[1] <= 4096:
                return V(('arr', (v,) * ln[1]), s)
            return V(('seq', (('fill', v, ln),)), s)
        return self.many([n['e'], n['len']], env, st, None, f)

    def e_Block(self, n, env, st, want):
        outs = self.block(n['body'], env, st, want)
        if n.get('label'):
            return [('v', o[1][1], o[2]) if o[0] == 'brk' and o[1][0] == n['label'] else o for o in outs]
        return outs

    def e_Unsafe(self, n, env, st, want):
        return self.block(n['body'], env, st, want)

    def e_Ref(self, n, env, st, want):
        if not n['mut']:
            return self.bind(self.ev(n['e'], env, st, want),
                             lambda v, s: V(v if v[0] != 'ref' else self.rv(v, s), s))
        return self.bind(self.place(n['e'], env, st), lambda pl, s: V(('ref',) + self.deref_place(pl, s, ()), s))

    def e_RawAddr(self, n, env, st, want):
        return self.bind(self.ev(n['e'], env, st), lambda v, s: V(('ptr', self.rv(v, s), None), s))

    def e_Unary(self, n, env, st, want):
        op = n['op']

        def f(v, s):
            v = self.rv(v, s)
            if op == '*':
                if v[0] == 'ptr':
                    return self.std.deref_ptr(v, s, n)
                return V(v, s)
            if op == '!':
                return V(self.std.bnot(v, want), s)
            if op == '-':
                return V(lmul(v, -1) if intish(v) else app('neg', v), s)
            return V(app(op, v), s)
        return self.bind(self.ev(n['e'], env, st, want if op == '*' else None), f)

    def e_Cast(self, n, env, st, want):
        t = self.ty(n['ty'], env)
        return self.bind(self.ev(n['e'], env, st), lambda v, s: V(self.std.cast(self.rv(v, s), t, s, n), s))

    def e_Field(self, n, env, st, want):
        def f(v, s):
            if v[0] == 'ref':
                inner = self.rv(v, s)
                x = self.field(inner, n['id'], s)
                return V(x, s)
            return V(self.field(v, n['id'], s), s)
        return self.bind(self.ev(n['e'], env, st), f)

    def e_Index(self, n, env, st, want):
        def f(b, s):
            def g(i, s2):
                return self.std.index_value(self.rv(b, s2), self.rv(i, s2), s2, n)
            return self.bind(self.ev(n['i'], env, s), g)
        return self.bind(self.ev(n['e'], env, st), f)

    def e_Range(self, n, env, st, want):
        nodes = [x for x in (n['start'], n['end']) if x is not None]

        def f(vs, s):
            vs = [self.rv(x, s) for x in vs]
            a = vs.pop(0) if n['start'] is not None else None
            b = vs.pop(0) if n['end'] is not None else None
            return V(('range', a, b, n['closed']), s)
        return self.many(nodes, env, st, None, f)

    def field_wants(self, n, env):
        vp = self.variant_of_path(n['path'], env)
        out = {}
        if vp is None:
            return out
        if vp[2] is not None and vp[2].kind in ('struct', 'enum'):
            fs = vp[2].node['fields'] if vp[2].kind == 'struct' else next(
                (x for x in vp[2].node['variants'] if x['id'] == vp[1]), {'fields': {'fields': []}})['fields']
            g = {}
            if vp[0] == (env.self_ty or (None, None))[1] and env.self_ty[0] == 't':
                g = self.gen_of(vp[2], env.self_ty[2])
            for x in fs['fields']:
                out[x['id']] = self.p.ty(x['ty'], vp[2].mod, g, ('t', vp[0], ()))
        else:
            from .std import EXT_ENUMS
            ts = EXT_ENUMS.get(vp[0], {}).get(vp[1])
            if isinstance(ts, dict):
                out.update(ts)
        return out

    def e_Struct(self, n, env, st, want):
        cfg = env.mod.crate.cfg
        flds = [f for f in n['fields'] if P.cfg_ok(f.get('attrs'), cfg)]
        vp = self.variant_of_path(n['path'], env)
        if vp is None:
            ids = tuple(x['id'] for x in n['path']['segs'])
            vp = (ids[-1], None, None)
        fw = self.field_wants(n, env)
        wants = [fw.get(f['id']) for f in flds]
        nodes = [f['e'] for f in flds]
        if n['rest'] is not None:
            nodes.append(n['rest'])

        def k(vs, s):
            base = None
            if n['rest'] is not None:
                base = self.rv(vs[-1], s)
                vs = vs[:-1]
            d = []
            for f, v, w in zip(flds, vs, wants):
                v, s = self.std.coerce(v, w, s) if w else (v, s)
                d.append((f['id'], v))
            order = None
            if vp[2] is not None and vp[2].kind == 'struct':
                order = [x['id'] for x in vp[2].node['fields']['fields'] if P.cfg_ok(x.get('attrs'), cfg)]
            elif vp[2] is not None and vp[2].kind == 'enum':
                order = [x['id'] for x in next(x for x in vp[2].node['variants'] if x['id'] == vp[1])['fields']['fields']]
            dd = dict(d)
            if base is not None and order:
                for x in order:
                    if x not in dd:
                        dd[x] = self.field(base, x, s)
            elif base is not None:
                return V(('upd', base, tuple(sorted(dd.items()))), s)
            if order:
                items = tuple((x, dd[x]) for x in order if x in dd)
            else:
                items = tuple(sorted(dd.items()))
            return V(('adt', vp[0], vp[1], items), s)
        return self.many(nodes, env, st, wants, k)

    def e_Assign(self, n, env, st, want):
        l = n['lhs']
        if l['k'] == 'Tuple' or l['k'] == 'Infer':
            def h(v, s):
                return self.destructure(l, v, env, s)
            return self.bind(self.ev(n['rhs'], env, st), h)
        w = None
        if l['k'] == 'Path' and len(l['segs']) == 1:
            w = env.tys.get(l['segs'][0]['id'])

        def f(v, s):
            def g(pl, s2):
                if l['k'] == 'Unary':
                    pass
                return V(UNIT, self.assign(pl, v, s2, l, env))
            return self.bind(self.place(l, env, s), g)
        if w is None:
            pls = self.place(l, env, st) if l['k'] in ('Field', 'Unary') else []
            if len(pls) == 1 and pls[0][0] == 'v':
                try:
                    cur = self.read(pls[0][1][0], pls[0][1][1], st)
                    w = self.typeof(cur)
                except Unsupported:
                    pass
        return self.bind(self.ev(n['rhs'], env, st, w), f)

    def assign(self, pl, v, st, node, env):
        addr, proj = pl
        if self.model:
            st = self.model.on_assign(addr, proj, v, st)
        return self.write(addr, proj, v, st)

    def destructure(self, l, v, env, st):
        if l['k'] == 'Infer':
            return V(UNIT, st)
        if l['k'] == 'Tuple':
            cur = [('v', UNIT, st)]
            for i, x in enumerate(l['elems']):
                cur = self.bind(cur, lambda _, s, x=x, i=i: self.destructure(x, self.field(v, str(i), s), env, s))
            return cur
        return self.bind(self.place(l, env, st), lambda pl, s: V(UNIT, self.assign(pl, v, s, l, env)))

    CMP = {'==', '!=', '<', '>', '<=', '>='}

    def e_Binary(self, n, env, st, want):
        op = n['op']
        if op in ('&&', '||'):
            if self.pure(n['rhs']):
                # a right side that decides alone saves telling apart what the left side is
                o = self.ev(n['rhs'], env, st)
                if len(o) == 1 and o[0][0] == 'v':
                    d = st.facts.decide(self.boolterm(o[0][1], o[0][2]))
                    if d is not None and d == (op == '||') and self.pure(n['lhs']):
                        return V(('bool', d), st)
            def f(v, s):
                res = []
                for b, s2 in self.branch(s, v):
                    if (op == '&&') == b:
                        res += self.bind(self.ev(n['rhs'], env, s2), lambda r, s3: V(self.rv(r, s3), s3))
                    else:
                        res.append(('v', B(b), s2))
                return res
            return self.bind(self.ev(n['lhs'], env, st), f)
        if op.endswith('=') and op not in self.CMP:
            base = op[:-1]

            def f(r, s):
                def g(pl, s2):
                    pl = self.deref_place(pl, s2, ())
                    cur = self.rv(self.read(pl[0], pl[1], s2), s2)
                    return self.bind(self.std.binop(base, cur, self.rv(r, s2), s2, n, None),
                                     lambda x, s3: V(UNIT, self.assign(pl, x, s3, n, env)))
                return self.bind(self.place(n['lhs'], env, s), g)
            return self.bind(self.ev(n['rhs'], env, st), f)

        def f(vs, s):
            a, b = self.rv(vs[0], s), self.rv(vs[1], s)
            return self.std.binop(op, a, b, s, n, want, env)
        w = None
        if op in self.CMP:
            return self.bind(self.ev(n['lhs'], env, st),
                             lambda a, s: self.bind(self.ev(n['rhs'], env, s, self.typeof(self.rv(a, s))),
                                                    lambda b, s2: self.std.binop(op, *self.std.align(self.rv(a, s2), self.rv(b, s2), s2), s2, n, want)))
        return self.many([n['lhs'], n['rhs']], env, st, [want, want if op not in ('<<', '>>') else None], f)

    def e_Let(self, n, env, st, want):
        raise Unsupported('let outside condition')

    def pure(self, n):
        k = n['k']
        if k in ('Lit',):
            return True
        if k == 'Path':
            return len(n['segs']) == 1 and 'qself' not in n
        if k in ('Paren', 'Group', 'Ref', 'Field') or (k == 'Unary' and n['op'] in ('!', '*')):
            return self.pure(n['e'])
        if k == 'Binary' and n['op'] in ('==', '!=', '<', '<=', '>', '>=', '&&', '||'):
            return self.pure(n['lhs']) and self.pure(n['rhs'])
        return False

    def cond(self, n, env, st):
        """condition possibly containing let: -> [(truth, env, state)], abnormal"""
        k = n['k']
        if k == 'Let':
            res, abn = [], []
            if pat_has_refmut(n['pat']):
                outs = self.bind(self.place(n['e'], env, st), lambda pl, s2: V(('ref',) + self.deref_place(pl, s2, ()), s2))
            else:
                outs = self.ev(n['e'], env, st, self.scrut_want(n['e'], [(n['pat'], [])], env, None) if self.open_type(n['e']) else None)
            for o in outs:
                if o[0] != 'v':
                    abn.append(o)
                    continue
                for s, b in self.pmatch(n['pat'], o[1], env, o[2]):
                    if b is None:
                        res.append((False, env, s))
                    else:
                        e2 = env.child()
                        for nm, bv in b.items():
                            a, s = self.alloc(bv, s)
                            e2.vars[nm] = a
                        res.append((True, e2, s))
            return res, abn
        if k == 'Binary' and n['op'] in ('&&', '||') and has_let(n):
            res, abn = [], []
            r1, a1 = self.cond(n['lhs'], env, st)
            abn += a1
            for b, e, s in r1:
                if (n['op'] == '&&') == b:
                    r2, a2 = self.cond(n['rhs'], e, s)
                    res += r2
                    abn += a2
                else:
                    res.append((b, e, s))
            return res, abn
        res, abn = [], []
        for o in self.ev(n, env, st):
            if o[0] != 'v':
                abn.append(o)
                continue
            for b, s in self.branch(o[2], o[1]):
                res.append((b, env, s))
        return res, abn

    def e_If(self, n, env, st, want):
        res, abn = self.cond(n['cond'], env, st)
        for b, e, s in res:
            if b:
                abn += self.block(n['then'], e, s, want)
            elif n['else'] is not None:
                abn += self.ev(n['else'], env, s, want)
            else:
                abn.append(('v', UNIT, s))
        return abn

    def e_Match(self, n, env, st, want):
        cfg = env.mod.crate.cfg
        arms = [a for a in n['arms'] if P.cfg_ok(a.get('attrs'), cfg)]
        if any(pat_has_refmut(a['pat']) for a in arms):
            outs = self.bind(self.place(n['e'], env, st), lambda pl, s2: V(('ref',) + self.deref_place(pl, s2, ()), s2))
        else:
            hint = None
            if self.open_type(n['e']):
                hint = self.scrut_want(n['e'], [(a['pat'], [a['body']]) for a in arms], env, want)
            outs = self.ev(n['e'], env, st, hint)
        res = []
        for o in outs:
            if o[0] != 'v':
                res.append(o)
                continue
            v = o[1]
            pend = [o[2]]
            for a in arms:
                nxt = []
                for s in pend:
                    for s2, b in self.pmatch(a['pat'], v, env, s):
                        if b is None:
                            nxt.append(s2)
                            continue
                        e2 = env.child()
                        for nm, bv in b.items():
                            ad, s2 = self.alloc(bv, s2)
                            e2.vars[nm] = ad
                        if a['guard'] is None:
                            res += self.ev(a['body'], e2, s2, want)
                        else:
                            r, abn = self.cond(a['guard'], e2, s2)
                            res += abn
                            for t, e3, s3 in r:
                                if t:
                                    res += self.ev(a['body'], e3, s3, want)
                                else:
                                    nxt.append(s3)
                pend = nxt
                if not pend:
                    break
        return res

    def e_Try(self, n, env, st, want):
        def f(v, s):
            return self.try_(v, s, env, n)
        w = None
        if want is not None:
            w = ('t', 'Try', (want,))
        return self.bind(self.ev(n['e'], env, st, w), f)

    def try_(self, v, s, env, n):
        v = self.rv(v, s)
        kind = self.try_kind(v, env, s)
        succ = 'Some' if kind == 'Option' else 'Ok'
        res = []
        for b, s2 in self.test_variant(v, kind, succ, s):
            if b:
                res.append(('v', self.payload(v, succ, '0', s2), s2))
            elif kind == 'Option':
                res.append(('ret', NONE, s2))
            else:
                e = self.payload(v, 'Err', '0', s2)
                res.append(('ret', err(e), s2))
        return res

    def try_kind(self, v, env, st):
        if v[0] == 'adt' and v[1] in ('Option', 'Result'):
            return v[1]
        var = st.facts.variant(v)
        if var in ('Some', 'None'):
            return 'Option'
        if var in ('Ok', 'Err'):
            return 'Result'
        t = self.typeof(v)
        if t and t[0] == 't' and t[1] in ('Option', 'Result'):
            return t[1]
        if v[0] == 'app' and v[1] in ('checked_add', 'checked_sub', 'checked_mul', 'checked_div', 'first', 'last', 'get'):
            return 'Option'
        if env.ret and env.ret[0] == 't' and env.ret[1] == 'Option':
            return 'Option'
        return 'Result'

    def e_Return(self, n, env, st, want):
        if n['e'] is None:
            return [('ret', UNIT, st)]
        return [('ret', o[1], o[2]) if o[0] == 'v' else o for o in self.ev(n['e'], env, st, env.ret)]

    def e_Break(self, n, env, st, want):
        if n['e'] is None:
            return [('brk', (n['label'], UNIT), st)]
        return [('brk', (n['label'], o[1]), o[2]) if o[0] == 'v' else o for o in self.ev(n['e'], env, st)]

    def e_Continue(self, n, env, st, want):
        return [('cont', (n['label'], UNIT), st)]

    def e_Closure(self, n, env, st, want):
        i = self.fresh()
        self.closures[i] = (n, env)
        return V(('clo', i), st)

    # ---------------------------------------------------------------- loops
    def e_Loop(self, n, env, st, want):
        return self.unroll(n, env, st, None)

    def e_While(self, n, env, st, want):
        return self.unroll(n, env, st, n['cond'])

    def unroll(self, n, env, st, cond):
        cur = [st]
        res = []
        for it in range(70):
            nxt = []
            for s in cur:
                if cond is not None:
                    r, abn = self.cond(cond, env, s)
                    res += abn
                    if it > 0 and len({b for b, _, _ in r}) > 1:
                        # undecided after an iteration: cannot unroll further
                        return self.havoc_loop(n, env, st)
                    if it == 0 and len({b for b, _, _ in r}) > 1:
                        return self.havoc_loop(n, env, st)
                else:
                    r = [(True, env, s)]
                for b, e, s2 in r:
                    if not b:
                        res.append(('v', UNIT, s2))
                        continue
                    for o in self.block(n['body'], e, s2):
                        if o[0] == 'v' or (o[0] == 'cont' and o[1][0] in (None, n['label'])):
                            nxt.append(o[2])
                        elif o[0] == 'brk' and o[1][0] in (None, n['label']):
                            res.append(('v', o[1][1], o[2]))
                        else:
                            res.append(o)
            cur = nxt
            if not cur:
                return res
            if len(cur) > 64:
                break
        return self.havoc_loop(n, env, st)

    def havoc_loop(self, n, env, st):
        r = self.model.loop(n, env, st) if self.model and hasattr(self.model, 'loop') else None
        if r is not None:
            return r
        names = assigned_names(n['body'])
        s = st.copy()
        for nm in names:
            if nm in env.vars:
                s.store[env.vars[nm]] = self.opaque('value after an unbounded loop', n)
        s = s.effect(('loop', 'unbounded', self.where(n)))
        return V(UNIT, s)

    def e_For(self, n, env, st, want):
        def f(v, s):
            return self.std.for_loop(n, v, env, s)
        return self.bind(self.ev(n['e'], env, st), f)

    def run_body(self, n, env, st, binding):
        """one iteration of a for loop body with the pattern bound to `binding`: outcomes"""
        res = []
        for s, b in self.pmatch(n['pat'], binding, env, st):
            if b is None:
                continue
            e = env.child()
            for nm, bv in b.items():
                a, s = self.alloc(bv, s)
                e.vars[nm] = a
            res += self.block(n['body'], e, s)
        return res

    # ---------------------------------------------------------------- calls
    def e_Call(self, n, env, st, want):
        f = n['f']
        args = n['args']
        if f['k'] == 'Path':
            ids = tuple(x['id'] for x in f['segs'])
            if not (len(ids) == 1 and ids[0] in env.vars and 'qself' not in f):
                return self.call_path(f, args, n, env, st, want)

        def g(fv, s):
            return self.many(args, env, s, None, lambda vs, s2: self.apply(fv, vs, s2, n, want))
        return self.bind(self.ev(f, env, st), g)

    def call_path(self, f, args, n, env, st, want):
        segs = f['segs']
        ids = tuple(x['id'] for x in segs)
        # constructors
        vp = None
        d = None
        if 'qself' not in f and ids[0] != 'Self':
            d, k, ext = self.p.resolve(env.mod, ids, 'values')
            if d is not None and d.kind == 'fn' and k == len(ids):
                im = None
                g = self.fn_generics(d.node, segs[-1], env)
                wants = self.param_wants(d.node, d.mod, g, None)
                return self.many(args, env, st, wants, lambda vs, s: self.call_fn(d.node, d.mod, None, vs, s, n, g, None, want))
        vp = self.variant_of_path(f, env)
        if vp is not None:
            style = self.ctor_style(vp) if (vp[1] is not None or (vp[2] is not None and vp[2].kind == 'struct')) else None
            if style == 'tuple':
                wants = self.ctor_wants(vp, want)
                return self.many(args, env, st, wants, lambda vs, s: self.construct(vp, vs, s, wants))
        if self.model:
            r = self.model.call_path(f, args, n, env, st, want)
            if r is not None:
                return r
        r = self.std.call_path(f, args, n, env, st, want)
        if r is not None:
            return r
        t, name = self.assoc_target(f, env)
        if t is not None:
            im, fn = self.find_assoc(t, name, trait=self.trait_of_path(f))
            if fn is not None:
                g = self.match_gen(im, t)
                g.update(self.fn_generics(fn, segs[-1], env))
                wants = self.param_wants(fn, im.mod, g, t)
                return self.many(args, env, st, wants, lambda vs, s: self.call_fn(fn, im.mod, t, vs, s, n, g, im, want))
            td = self.trait_default(t, name)
        # Trait::method(x, ...)
        if 'qself' not in f and len(ids) >= 2:
            d2, k2, ext2 = self.p.resolve(env.mod, ids[:-1])
            if (d2 is not None and d2.kind == 'trait') or (d2 is None and ids[-2] in self.std.TRAITS):
                if args:
                    return self.method_on(args[0], ids[-1], args[1:], n, env, st, want, segs[-1].get('args'))
        if vp is not None and self.ctor_style(vp) == 'ext' and vp[1] is not None and vp[1][:1].isupper():
            return self.many(args, env, st, None, lambda vs, s: self.construct(vp, vs, s, None))
        return self.many(args, env, st, None, lambda vs, s: self.unknown_call('::'.join((ext or ids) if d is None and 'qself' not in f and ids[0] != 'Self' else ids), vs, s, n, want, t))

    def trait_of_path(self, f):
        if 'qself' in f and f['qpos'] > 0:
            return f['segs'][f['qpos'] - 1]['id']
        return None

    def trait_default(self, t, name):
        return None

    def match_gen(self, im, t):
        g = dict(im.gen)
        def go(p_, x):
            if p_[0] == 'param' and p_[1] in g:
                if x[0] not in ('inf',):
                    g[p_[1]] = x
            elif p_[0] == x[0] == 't' and len(p_[2]) == len(x[2]):
                for a, b in zip(p_[2], x[2]):
                    go(a, b)
            elif p_[0] == x[0] == 'tup':
                for a, b in zip(p_[1], x[1]):
                    go(a, b)
        go(im.self_ty, t)
        return g

    def fn_generics(self, fn, seg, env):
        g = {}
        ps = [p['id'] for p in fn['generics']['params'] if p['k'] == 'TypeParam']
        args = [a for a in (seg.get('args') or ()) if a['k'] != 'Lifetime']
        for i, p in enumerate(ps):
            if i < len(args):
                g[p] = self.p.ty(args[i], env.mod, env.gen, env.self_ty)
            else:
                g[p] = ('param', p)
        args = [a for a in args if a['k'] != 'AssocBinding'][len(ps):] if len(args) > len(ps) else []
        for i, p in enumerate(p['id'] for p in fn['generics']['params'] if p['k'] == 'ConstParam'):
            g[p] = self.p.ty(args[i], env.mod, env.gen, env.self_ty) if i < len(args) else ('param', p)
        return g

    def learn(self, node, t, v, g):
        """lengths not written at a call, from the type or value that meets a type of its signature"""
        if node is None:
            return
        k = node['k']
        if k == 'TyRef':
            self.learn(node['ty'], t, v, g)
        elif k == 'TyArray':
            ln = node['len']
            if ln['k'] == 'Path' and len(ln['segs']) == 1:
                n = ln['segs'][0]['id']
                if g.get(n) == ('param', n):
                    if v is not None and v[0] == 'arr':
                        g[n] = ('const', str(len(v[1])))
                    elif t is not None and t[0] == 'arr' and str(t[2]).isdigit():
                        g[n] = ('const', str(t[2]))
        elif k == 'TyTuple':
            for i, x in enumerate(node['tys']):
                self.learn(x, t[1][i] if t is not None and t[0] == 'tup' and i < len(t[1]) else None, v[1][i] if v is not None and v[0] == 'tup' and i < len(v[1]) else None, g)
        elif k == 'TyPath' and t is not None and t[0] == 't' and node['segs'][-1].get('args') and t[1].split('::')[-1] in (node['segs'][-1]['id'], 'Try'):
            for x, y in zip([a for a in node['segs'][-1]['args'] if a['k'] != 'Lifetime'], t[2]):
                self.learn(x, y, None, g)

    def param_wants(self, fn, mod, g, self_ty):
        out = []
        for p_ in fn['params']:
            if p_.get('self'):
                out.append(self_ty)
            else:
                t = self.p.ty(p_['ty'], mod, g, self_ty)
                out.append(t)
        return out

    def ctor_wants(self, vp, want):
        tyname, variant, d = vp
        if variant in ('Some', 'Ok', 'Err') and tyname in ('Option', 'Result'):
            if want and want[0] == 't' and want[1] in (tyname, 'Try') and want[2]:
                if variant == 'Err':
                    return [want[2][1]] if len(want[2]) > 1 else None
                return [want[2][0]]
            return None
        if d is not None:
            fs = d.node['fields'] if d.kind == 'struct' else next(x for x in d.node['variants'] if x['id'] == variant)['fields']
            g = {}
            if want and want[0] == 't' and want[1] == tyname:
                g = self.gen_of(d, want[2])
            return [self.p.ty(x['ty'], d.mod, g, ('t', tyname, ())) for x in fs['fields']]
        from .std import EXT_ENUMS
        ts = EXT_ENUMS.get(tyname, {}).get(variant)
        if isinstance(ts, (list, tuple)):
            return list(ts)
        return None

    def construct(self, vp, vs, st, wants):
        out = []
        for i, v in enumerate(vs):
            if wants and i < len(wants) and wants[i]:
                v, st = self.std.coerce(v, wants[i], st)
            out.append((str(i), v))
        return V(('adt', vp[0], vp[1], tuple(out)), st)

    def apply(self, fv, args, st, node, want=None):
        """call a function value"""
        fv = self.rv(fv, st)
        if fv[0] == 'clo':
            n, env = self.closures[fv[1]]
            return self.call_closure(n, env, args, st, node, want)
        if fv[0] == 'fn':
            if fv[1] == 'item':
                d = self.closures['fns'][fv[2]]
                return self.call_fn(d.node, d.mod, None, args, st, node, {}, None, want)
            if fv[1] == 'ctor':
                return self.construct((fv[2], fv[3], self.p.def_of(fv[2])), args, st, None)
            if fv[1] == 'native':
                return fv[2](args, st, node)
            if fv[1] in ('assoc', 'ext'):
                n, env = self.closures['nodes'][fv[4]]
                e2 = env.child()
                nodes = []
                for i, a in enumerate(args):
                    ad, st = self.alloc(a, st)
                    nm = '$arg%d_%d' % (i, self.fresh())
                    e2.vars[nm] = ad
                    nodes.append({'k': 'Path', 'l': n['l'], 'segs': [{'id': nm, 'args': None}]})
                return self.call_path(n, nodes, {'k': 'Call', 'l': n['l'], 'f': n, 'args': nodes}, e2, st, want)
        if self.model:
            r = self.model.apply(fv, args, st, node)
            if r is not None:
                return r
        return V(app('call', fv, *[self.deep(a, st) for a in args]), st)

    def call_closure(self, n, env, args, st, node, want=None):
        e = env.child()
        e.closure_ret = None
        e.ret = self.ty(n['ret'], env) if n['ret'] else None
        pend = [(e, st)]
        for i, p_ in enumerate(n['params']):
            nxt = []
            for e1, s in pend:
                v = args[i] if i < len(args) else self.opaque('missing closure argument', n)
                for s2, b in self.pmatch(p_, v, e1, s):
                    if b is None:
                        continue
                    e2 = e1.child()
                    e2.ret = e.ret
                    for nm, bv in b.items():
                        a, s2 = self.alloc(bv, s2)
                        e2.vars[nm] = a
                    nxt.append((e2, s2))
            pend = nxt
        res = []
        self.depth += 1
        if self.depth > 60:
            raise TooBig('call depth')
        try:
            for e1, s in pend:
                for o in self.ev(n['body'], e1, s, e.ret or want):
                    if o[0] == 'ret':
                        res.append(('v', o[1], o[2]))
                    else:
                        res.append(o)
        finally:
            self.depth -= 1
        return res

    def call_fn(self, fn, mod, self_ty, args, st, node, gen=None, im=None, want=None):
        """call a function of the program with evaluated arguments (self first)"""
        if id(fn) in self.stubs:
            return V(app(self.stubs[id(fn)], *[self.deep(a, st) for a in args]), st)
        g = dict(gen or {})
        if im is not None and self_ty is None:
            self_ty = im.self_ty
        lens = [p['id'] for p in fn['generics']['params'] if p['k'] == 'ConstParam']
        if lens:
            for n_ in lens:
                g.setdefault(n_, ('param', n_))
            self.learn(fn['ret'], want, None, g)
            for p_, v in zip(fn['params'], args):
                if not p_.get('self'):
                    self.learn(p_['ty'], None, self.rv(v, st), g)
        ret = self.p.ty(fn['ret'], mod, g, self_ty) if fn['ret'] else UNIT
        env = Env(mod, self_ty, g, ret, fn['id'])
        if fn.get('body') is None:
            return V(self.opaque('function without body', node), st)
        key = id(fn)
        if self.stack.count((fn['id'], mod.file)) > 3:
            raise Unsupported('recursion in ' + fn['id'])
        self.fns_seen.add('%s:%s' % (mod.file, fn['id']))
        self.calls_seen += 1
        pend = [(env, st)]
        self.stack.append((fn['id'], mod.file))
        self.depth += 1
        try:
            if self.depth > 60:
                raise TooBig('call depth')
            for i, p_ in enumerate(fn['params']):
                nxt = []
                for e1, s in pend:
                    v = args[i] if i < len(args) else self.opaque('missing argument', node)
                    if p_.get('self'):
                        if not (p_['ref'] and p_['mut']):
                            v = self.rv(v, s) if not (v[0] == 'ref' and p_['ref'] and p_['mut']) else v
                        a, s = self.alloc(v, s)
                        e2 = e1.child()
                        e2.vars['self'] = a
                        nxt.append((e2, s))
                        continue
                    t = self.p.ty(p_['ty'], mod, g, self_ty)
                    v, s = self.std.coerce(v, t, s)
                    if v[0] in ('sym', 'app', 'ret', 'fld', 'pay', 'elem'):
                        self.note_type(v, t)
                    for s2, b in self.pmatch(p_['pat'], v, e1, s):
                        if b is None:
                            continue
                        e2 = e1.child()
                        for nm, bv in b.items():
                            a, s2 = self.alloc(bv, s2)
                            e2.vars[nm] = a
                            if p_['pat']['k'] == 'PatIdent':
                                e2.tys[nm] = t
                        nxt.append((e2, s2))
                pend = nxt
            res = []
            for e1, s in pend:
                for o in self.block(fn['body'], e1, s, ret):
                    if o[0] in ('v', 'ret'):
                        v, s2 = self.std.coerce(o[1], ret, o[2])
                        if v[0] in ('sym', 'app', 'ret', 'fld', 'pay', 'elem') and ret:
                            self.note_type(v, ret)
                        res.append(('v', v, s2))
                    else:
                        res.append(o)
            return res
        finally:
            self.stack.pop()
            self.depth -= 1

    def unknown_call(self, name, args, st, node, want, t=None):
        args = [self.deep(a, st) for a in args]
        if self.model:
            r = self.model.unknown(name, args, st, node, want)
            if r is not None:
                return r
        self.unknowns.append(('call to ' + name, self.where(node)))
        v = app(name, *args)
        if want is not None and want != ('inf',):
            self.note_type(v, want)
        return V(v, st)

    def e_MethodCall(self, n, env, st, want):
        return self.method_on(n['recv'], n['m'], n['args'], n, env, st, want, n.get('targs'))

    def method_on(self, recv, m, args, n, env, st, want, targs=None):
        if self.model:
            r = self.model.method_node(recv, m, args, n, env, st, want)
            if r is not None:
                return r
        if m == 'into' and recv['k'] == 'Lit' and recv.get('suffix'):
            pass

        rw = self.std.recv_want(m, want)
        if rw is None and m in ('map', 'and_then') and len(args) == 1 and args[0]['k'] == 'Path':
            rw = self.taken_by(args[0], env)

        def f(pl, s):
            ref = ('ref',) + self.deref_place(pl, s, ())
            rvv = self.rv(ref, s)
            return self.method_val(ref, rvv, m, args, n, env, s, want, targs)
        if recv['k'] in ('Path', 'Field', 'Index', 'Unary') :
            return self.bind(self.place(recv, env, st), f)

        def g(v, s):
            if v[0] == 'ref':
                return self.method_val(v, self.rv(v, s), m, args, n, env, s, want, targs)
            a, s = self.alloc(v, s)
            return self.method_val(('ref', a, ()), v, m, args, n, env, s, want, targs)
        return self.bind(self.ev(recv, env, st, rw), g)

    def taken_by(self, f, env):
        """what is mapped over a constructor or function is of the type that takes"""
        ids = tuple(x['id'] for x in f['segs'])
        if len(ids) == 1 and ids[0] in env.vars:
            return None
        t = None
        d, k = None, 0
        if 'qself' not in f and ids[0] != 'Self':
            d, k, _ = self.p.resolve(env.mod, ids, 'values')
        if d is not None and d.kind == 'fn' and k == len(ids):
            ps = self.param_wants(d.node, d.mod, self.fn_generics(d.node, f['segs'][-1], env), None)
            t = ps[0] if len(ps) == 1 else None
        elif d is None or d.kind in ('struct', 'enum'):
            vp = self.variant_of_path(f, env)
            if vp is not None and vp[2] is not None and vp[0] not in ('Option', 'Result'):
                ps = self.ctor_wants(vp, None)
                t = ps[0] if ps and len(ps) == 1 else None
        if t is None or t[0] not in ('t', 'arr') or (t[0] == 't' and t[2]):
            return None
        return ('t', 'Try', (t,))

    def method_val(self, ref, v, m, args, n, env, st, want, targs):
        if self.model:
            r = self.model.method(ref, v, m, args, n, env, st, want, targs)
            if r is not None:
                return r
        # user-defined methods
        t = self.typeof(v)
        cand = self.find_method(v, t, m, want)
        if cand is not None:
            im, fn = cand
            g = self.match_gen(im, t) if t else dict(im.gen)
            g.update({p['id']: ('param', p['id']) for p in fn['generics']['params'] if p['k'] == 'TypeParam'})
            wants = self.param_wants(fn, im.mod, g, t or im.self_ty)[1:]
            p0 = fn['params'][0]
            selfv = ref if (p0['ref'] and p0['mut']) else v
            return self.many(args, env, st, wants, lambda vs, s: self.call_fn(fn, im.mod, t or im.self_ty, [selfv] + vs, s, n, g, im, want))
        r = self.std.method(ref, v, m, args, n, env, st, want, targs)
        if r is not None:
            return r
        cand = self.find_method_by_name(m)
        if cand is not None and (t is None or t[0] in ('param', 'proj')):
            im, fn = cand
            g = dict(im.gen)
            p0 = fn['params'][0]
            selfv = ref if (p0['ref'] and p0['mut']) else v
            wants = self.param_wants(fn, im.mod, g, im.self_ty)[1:]
            return self.many(args, env, st, wants, lambda vs, s: self.call_fn(fn, im.mod, im.self_ty, [selfv] + vs, s, n, g, im, want))
        return self.many(args, env, st, None, lambda vs, s: self.unknown_method(ref, v, m, vs, s, n, want))

    def unknown_method(self, ref, v, m, vs, s, n, want):
        args = [self.deep(v, s)] + [self.deep(a, s) for a in vs]
        if self.model:
            r = self.model.unknown_method(ref, v, m, args, s, n, want)
            if r is not None:
                return r
        self.unknowns.append(('method ' + m, self.where(n)))
        t = app(m, *args)
        if want is not None and want != ('inf',):
            self.note_type(t, want)
        return V(t, s)

    def find_method(self, v, t, m, want):
        if t is None or t[0] not in ('t', 'tup', 'arr', 'sl'):
            return None
        best = None
        for im in self.p.impls():
            fn = im.fns.get(m)
            if fn is None or not fn['params'] or not fn['params'][0].get('self'):
                continue
            if im.self_ty[0] == 'param':
                continue
            if not P.unify(im.self_ty, t):
                continue
            if im.trait_name in ('From', 'TryFrom'):
                continue
            if im.trait is None:
                return (im, fn)
            if best is None:
                best = (im, fn)
        return best

    def find_method_by_name(self, m):
        c = []
        for im in self.p.impls():
            fn = im.fns.get(m)
            if fn is not None and fn['params'] and fn['params'][0].get('self') and im.self_ty[0] != 'param':
                c.append((im, fn))
        return c[0] if len(c) == 1 else None

    def e_Macro(self, n, env, st, want):
        return self.std.macro(n['m'], n, env, st, want)

    def e_Other(self, n, env, st, want):
        return V(self.opaque('expression', n), st)

    # ---------------------------------------------------------------- entry
    def run(self, fn, mod, self_ty, args, st=None, gen=None, im=None):
        return self.call_fn(fn, mod, self_ty, args, st or State(), fn, gen, im)


# ------------------------------------------------------------------ syntax helpers
def pat_names(p):
    k = p['k']
    if k == 'PatIdent':
        return [p['id']] + (pat_names(p['sub']) if p['sub'] else [])
    out = []
    for key in ('pat', 'sub'):
        if isinstance(p.get(key), dict):
            out += pat_names(p[key])
    for key in ('elems', 'cases'):
        for x in p.get(key) or ():
            out += pat_names(x)
    for f in p.get('fields') or ():
        out += pat_names(f['pat'])
    return out


def pat_has_refmut(p):
    if p['k'] == 'PatIdent':
        return bool(p['ref'] and p['mut']) or (bool(p['sub']) and pat_has_refmut(p['sub']))
    for key in ('pat', 'sub'):
        if isinstance(p.get(key), dict) and pat_has_refmut(p[key]):
            return True
    for key in ('elems', 'cases'):
        if any(pat_has_refmut(x) for x in p.get(key) or ()):
            return True
    return any(pat_has_refmut(f['pat']) for f in p.get('fields') or ())


def has_let(n):
    if n['k'] == 'Let':
        return True
    if n['k'] == 'Binary' and n['op'] in ('&&', '||'):
        return has_let(n['lhs']) or has_let(n['rhs'])
    return False


def assigned_names(n, out=None):
    """variables assigned or mutably borrowed somewhere in a syntax tree"""
    out = set() if out is None else out
    if isinstance(n, dict):
        k = n.get('k')
        if k == 'Assign':
            r = root_name(n['lhs'])
            if r:
                out.add(r)
            if n['lhs']['k'] == 'Tuple':
                for x in n['lhs']['elems']:
                    r = root_name(x)
                    if r:
                        out.add(r)
        elif k == 'Binary' and n['op'].endswith('=') and n['op'] not in Interp.CMP:
            r = root_name(n['lhs'])
            if r:
                out.add(r)
        elif k == 'Ref' and n['mut']:
            r = root_name(n['e'])
            if r:
                out.add(r)
        elif k == 'MethodCall':
            r = root_name(n['recv'])
            if r:
                out.add(r)
        for x in n.values():
            if isinstance(x, (dict, list)):
                assigned_names(x, out)
    elif isinstance(n, list):
        for x in n:
            assigned_names(x, out)
    return out


def root_name(n):
    while n['k'] in ('Field', 'Index', 'Unary', 'MethodCall', 'Ref', 'Try'):
        n = n.get('e') or n.get('recv')
    if n['k'] == 'Path' and len(n['segs']) == 1:
        return n['segs'][0]['id']
    return None

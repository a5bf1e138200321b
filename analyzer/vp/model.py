"""Hooks a domain model can override; the default leaves everything to the standard model."""


class Model:
    strict = False
    sat_exact = False
    I = None

    def path(self, n, env, st):
        return None

    def call_path(self, f, args, n, env, st, want):
        return None

    def method_node(self, recv, m, args, n, env, st, want):
        return None

    def method(self, ref, v, m, args, n, env, st, want, targs):
        return None

    def unknown(self, name, args, st, node, want):
        return None

    def unknown_method(self, ref, v, m, args, st, n, want):
        return None

    def apply(self, fv, args, st, node):
        return None

    def macro(self, m, n, env, st, want):
        return None

    def convert(self, v, want, st, node):
        return None

    def try_convert(self, v, want, st, node):
        return None

    def payload(self, v, variant, fld, st):
        return None

    def discarded(self, v, st, node):
        return st

    def on_assign(self, addr, proj, v, st):
        return st

    def opt_kind(self, v, m):
        return 'Option'

    def optlike(self, v):
        return False

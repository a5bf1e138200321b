import os, sys, traceback
from .report import Report
from . import prog as P

MODULES = ['common', 'payments', 'communities', 'manager', 'runtime', 'chain', 'forms', 'reach']


def rules():
    import importlib
    out = {}
    for m in MODULES:
        try:
            mod = importlib.import_module('vp.' + m)
        except ModuleNotFoundError as e:
            if e.name != 'vp.' + m:
                raise
            continue
        out.update(mod.RULES)
    return out


def TECHNIQUE(pid):
    if pid[0] == 'C':
        return ('abstract interpretation of the syntax tree with bit-level provenance and path facts',
                'Over-approximating source analysis of every path of the functions involved, in all build configurations that compile them; relies on the '
                'model of core, bs58 and the codec traits in analyzer/vp/std.py.')
    if pid[0] in 'PMG':
        return ('effect and typestate analysis: path-sensitive abstract interpretation of the pallet calls against a model of the storage and fund interfaces',
                'Over-approximating source analysis of every path of every call; relies on the model of FRAME storage, holds, transfers, scheduler and origins in analyzer/vp/frame.py.')
    return ('evaluation of the runtime configuration types and tables from the syntax tree',
            'Type-level evaluation of the configured combinators and constants; relies on the documented meaning of the SDK combinators listed in analyzer/vp/runtime.py.')


def main(argv):
    sys.setrecursionlimit(20000)
    rs = rules()
    worst = 0
    for pid in argv or sorted(rs):
        rep = Report(pid)
        from .interp import Unsupported, TooBig
        try:
            text = rs[pid](rep)
        except P.SourceError as e:
            rep.bad('source can be analysed', '%s:%s' % (e.file, e.line), e.msg)
            text = 'analysis stopped'
        except (Unsupported, TooBig) as e:
            if os.environ.get('VP_DEBUG'):
                traceback.print_exc()
            rep.bad('source can be analysed', '?', 'the analysis cannot follow the code: %s' % e)
            text = 'analysis stopped'
        except Exception as e:
            if os.environ.get('VP_DEBUG'):
                traceback.print_exc()
            rep.bad('source can be analysed', '?', 'the analysis cannot follow the code: %s: %s' % (type(e).__name__, e))
            text = 'analysis stopped'
        worst = max(worst, rep.finish(text or ''))
    return worst


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

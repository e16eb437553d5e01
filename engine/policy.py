"""Which crate functions are analysed in place (inlined) rather than treated as named boundaries."""
from paths import *

def trivial(prog):
    """functions with a single path and no calls: accessors and plain setters"""
    c = getattr(prog, '_triv', None)
    if c is not None:
        return c
    c = set()
    for n, f in prog.fns.items():
        if '{closure' in n or len(f.bbs) > 40:
            continue
        try:
            P = Paths(prog, lambda g: '{closure' in g.name, cap=8, pathcap=40)
            outs = P.run(n)
        except (Too, Missing, RecursionError):
            continue
        outs = [o for o in outs if o.end != "upanic"]
        if len(outs) == 1 and outs[0].end == 'ret' and len(outs[0].ev) <= 2 and all(e.kind == 'w' for e in outs[0].ev) and len(core.show(outs[0].ret)) < 120:
            c.add(n)
    prog._triv = c
    return c

def agree(ref, cur):
    """a call is an effect, and changes what it may change, the same on both sides: callers are compared under the
    union of the two summaries (the callee itself is compared on its own)"""
    import mods
    for get, at in ((effectful, '_eff'), (cell_writers, '_cellw')):
        pure = []
        for p in (ref, cur):
            k = at + '0'
            if getattr(p, k, None) is None:
                if at == '_eff':
                    trivial(p)
                setattr(p, k, get(p))
            pure.append(getattr(p, k))
        for p in (ref, cur):
            setattr(p, at, pure[0] | {n for n in pure[1] if n in ref.fns or n in cur.fns or n.startswith('dyn ')})
    for p in (ref, cur):
        if getattr(p, '_mods0', None) is None:
            p._mods0 = mods.mods(p)
    a, b = ref._mods0, cur._mods0
    for p in (ref, cur):
        p._mods = dict(p._mods0)
    for n in set(a) & set(b):
        if '{closure' in n or ref.fns[n].nargs != cur.fns[n].nargs or (a[n].p == b[n].p and a[n].other == b[n].other):
            continue
        m = mods.Mod()
        m.other = a[n].other or b[n].other
        m.dyn, m.local = a[n].dyn | b[n].dyn, a[n].local | b[n].local
        for x in (a[n], b[n]):
            for i, qs in x.p.items():
                for q in qs:
                    m.add(i, q)
        ref._mods[n] = cur._mods[n] = m

class Policy:
    """boundary functions are the ones the reference knows and that still look the same from outside"""
    def __init__(self, ref, cur):
        self.ref, self.cur = ref, cur
        agree(ref, cur)
        self.inline_names = set()
        tr, tc = trivial(ref), trivial(cur)
        for n, f in ref.fns.items():
            g = cur.fns.get(n)
            if '{closure' in n or n.startswith('utils::'):
                self.inline_names.add(n)
            elif g is None or g.nargs != f.nargs:
                self.inline_names.add(n)
            elif n in tr or n in tc:
                self.inline_names.add(n)
        for n in cur.fns:
            if n not in ref.fns:
                self.inline_names.add(n)

    def __call__(self, f):
        return f.name in self.inline_names or '{closure' in f.name

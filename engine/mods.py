"""Which places behind its `&mut` parameters a crate function may modify (interprocedural, flow-insensitive).

mods(prog)[name] = Mod: per parameter the field paths it may write through, and whether it may write through a
reference of unknown origin (a cell, a guard, a raw pointer).  Everything unresolved counts as writing the whole
argument.
"""
import re
import core

DEPTH = 4
MUTTY = re.compile(r"&mut |RefMut<|Guard<|IterMut<|Drain<|Peek|Entry<|\{closure|\bdyn |\*mut ")


class Mod:
    __slots__ = ('p', 'other', 'dyn', 'local')
    def __init__(self):
        self.p = {}        # param index -> set of paths
        self.other = False
        self.dyn = set()   # unresolved trait methods called on outside places
        self.local = set()

    def add(self, i, path):
        s = self.p.setdefault(i, set())
        path = path[:DEPTH]
        if any(path[:len(q)] == q for q in s):
            return False
        for q in [q for q in s if q[:len(path)] == path]:
            s.discard(q)
        s.add(path)
        return True


def has_mut(prog, ty, seen=None):
    """values of this type can carry a mutable reference"""
    if MUTTY.search(ty):
        return True
    if re.match(r'[A-Z]\w?$', ty) or ty.startswith('impl ') or '::' in ty and ty.startswith('<'):
        return True          # generic
    seen = set() if seen is None else seen
    for w in re.findall(r'\w+', ty):
        a = prog.adts.get(w)
        if a is None or w in seen:
            continue
        seen.add(w)
        for v in a['variants']:
            for fl in v['f']:
                if '&mut ' in fl['ty'] or 'RefMut<' in fl['ty'] or 'Guard<' in fl['ty']:
                    return True
                if any(x in prog.adts and x not in seen and has_mut(prog, x, seen) for x in re.findall(r'\w+', fl['ty']) if x in prog.adts):
                    return True
    return False


def fields(proj):
    """field path of a projection after its first deref; stops at an index or a variant"""
    out = []
    for p in proj:
        if isinstance(p, str):
            continue
        if p[0] == 'f':
            out.append(p[1])
        elif p[0] == 'v':
            return tuple(out), True
        else:
            return tuple(out), True
    return tuple(out), False


def skip_pure(name):
    import paths
    last = name.rsplit('::', 1)[-1]
    return bool(paths.ACCESSOR.match(last)) or bool(paths.READONLY.match(last))


def analyse(prog, f, known):
    import paths
    m = Mod()
    al = {}
    def add(L, xs):
        s = al.setdefault(L, set())
        n = len(s)
        s |= xs
        if len(s) > 40:
            s.clear()
            s |= {('other', (), True)}
        return len(s) != n
    for i in range(1, f.nargs + 1):
        ty = f.local_ty(i)
        if ty.startswith('&mut ') or '{closure' in f.name and i == 1:
            add(i, {(i - 1, (), False)})
        elif ty.startswith('&') or ty in paths.SCALAR:
            pass
        elif has_mut(prog, ty):
            add(i, {(i - 1, (), True)})
    bbs = [b for b in f.bbs if not b['cl']]
    def of_place(pl, mut=True):
        """alias of a reference stored in / made to place pl"""
        L, proj = pl[0], pl[1:]
        base = al.get(L, set())
        ty = f.local_ty(L)
        isd = '*' in proj or '*raw' in proj
        if not isd:
            if not proj and ty.startswith('&mut '):
                return set(base), isd        # a reference to the reference
            return {(s, p, True) for s, p, _ in base}, isd
        if '*raw' in proj:
            return {('other', (), True)}, isd
        fp, stop = fields(proj)
        out = set()
        for s, p, st in base:
            if s == 'other' or st:
                out.add((s, p, True))
            else:
                out.add((s, (p + fp)[:DEPTH], stop or len(p + fp) >= DEPTH))
        return out, isd
    def through_box(L):
        return L in f.rawbox or f.local_ty(L).startswith('Box<') or f.local_ty(L).startswith('&') and not al.get(L)
    def opal(o):
        if o[0] not in 'cm':
            return set()
        if len(o[1]) == 1:
            return al.get(o[1][0], set())
        return of_place(o[1])[0]
    def mark(xs):
        for s, p, st in xs:
            if s == 'other':
                m.other = True
            elif s != 'local':
                m.add(s, p)
    for rnd in range(12):
        ch = False
        for b in bbs:
            for st in b['s']:
                pl, rv = st[0], st[1]
                L = pl[0]
                if rv[0] in ('ref', 'raw') and (len(rv) < 3 or rv[2]):
                    xs, isd = of_place(rv[1])
                    if not isd:
                        xs = xs | {('local', (), False)}
                    elif not xs:
                        xs = {('local', (), False)} if through_box(rv[1][0]) else {('other', (), True)}
                    if len(pl) == 1:
                        ch |= add(L, xs)
                    else:
                        mark(xs)
                elif rv[0] in ('use', 'cast') and rv[1][0] in 'cm':
                    xs = opal(rv[1])
                    dt = f.local_ty(L) if len(pl) == 1 else ''
                    if xs and len(pl) == 1 and dt not in paths.SCALAR and not (dt.startswith('&') and not dt.startswith('&mut ')):
                        ch |= add(L, xs)
                    elif xs and len(pl) > 1 and '*' not in pl[1:]:
                        ch |= add(L, {(s, p, True) for s, p, _ in xs})
                elif rv[0] == 'agg':
                    xs = set()
                    if rv[1] == 'closure':
                        k = known.get(rv[2])
                        for i, o in enumerate(rv[3]):
                            if k is None:
                                mark(opal(o))
                                continue
                            for q in k.p.get(0, ()):
                                if q == () or q[0] == str(i):
                                    mark({(s, p if t else (p + q[1:])[:DEPTH], True) for s, p, t in opal(o)})
                        if k is not None:
                            m.other |= k.other
                            m.dyn |= k.dyn
                            # captured by value: owned by the closure
                            for i, o in enumerate(rv[3]):
                                xs |= {(s, p, True) for s, p, _ in opal(o) if s == 'local'}
                    else:
                        for o in rv[3]:
                            xs |= {(s, p, True) for s, p, _ in opal(o)}
                    if xs:
                        ch |= add(L, xs)
            t = b['t']
            if t[0] == 'call':
                res = set()
                for o in t[2]:
                    if o[0] not in 'cm' or len(o[1]) != 1:
                        if o[0] in 'cm':
                            xs = opal(o)
                        else:
                            continue
                    else:
                        xs = al.get(o[1][0], set())
                        ty = f.local_ty(o[1][0])
                        if not ty.startswith('&mut ') and not (xs and has_mut(prog, ty)):
                            continue
                    res |= {(s, p, True) for s, p, _ in xs}
                if len(t[3]) == 1:
                    dty = f.local_ty(t[3][0])
                    if dty not in paths.SCALAR and not (dty.startswith('&') and not dty.startswith('&mut ')):
                        if 'RefMut<' in dty or 'WriteGuard<' in dty or ('&mut ' in dty and not res):
                            res = res | {('other', (), True)}
                        if res and (has_mut(prog, dty)):
                            ch |= add(t[3][0], res)
        if not ch:
            break
    # writes
    for b in bbs:
        for st in b['s']:
            pl = st[0]
            if '*' in pl[1:] or '*raw' in pl[1:]:
                xs, _ = of_place(pl)
                if xs:
                    mark(xs)
                elif '*raw' in pl[1:] or not through_box(pl[0]):
                    m.other = True
                # a reference stored behind a reference escapes
                if st[1][0] == 'use' and st[1][1][0] in 'cm':
                    mark({x for x in opal(st[1][1])})
        t = b['t']
        if t[0] != 'call':
            continue
        c = t[1]
        nm, r = c.get('n', '<ptr>'), c.get('r')
        g = prog.fn(r) if r and c.get('local') and not c.get('virt') else None
        tys = [f.local_ty(o[1][0]) if o[0] in 'cm' and len(o[1]) == 1 else '' for o in t[2]]
        if g is not None:
            k = known.get(g.name)
            if k is None:
                continue
            m.other |= k.other
            m.dyn |= k.dyn
            for i, o in enumerate(t[2]):
                for q in k.p.get(i, ()):
                    mark({(s, p if st else (p + q)[:DEPTH], True) for s, p, st in opal(o)})
            continue
        isdyn = paths.prog_trait_method(prog, nm)
        if isdyn:
            m.dyn.add(nm)
        if skip_pure(nm) and nm not in paths.MEMW and nm not in paths.MEMT:
            if not (nm.rsplit('::', 1)[-1] in ('next', 'next_back', 'peek') ):
                continue
        hit = False
        for o, ty in zip(t[2], tys):
            if ty.startswith('&mut ') or has_mut(prog, ty) or nm in ('<ptr>',):
                mark(opal(o))
            if ty.startswith('&mut ') and not opal(o):
                m.other = True
    return m


def mods(prog):
    c = getattr(prog, '_mods', None)
    if c is not None:
        return c
    known = {n: Mod() for n in prog.fns}
    callers = {}
    for n, f in prog.fns.items():
        for b in f.bbs:
            if b['cl']:
                continue
            t = b['t']
            if t[0] == 'call' and t[1].get('r'):
                callers.setdefault(t[1]['r'], set()).add(n)
            for st in b['s']:
                if st[1][0] == 'agg' and st[1][1] == 'closure':
                    callers.setdefault(st[1][2], set()).add(n)
    work = list(prog.fns)
    inq = set(work)
    while work:
        n = work.pop()
        inq.discard(n)
        m = analyse(prog, prog.fns[n], known)
        o = known[n]
        if m.p != o.p or m.other != o.other or m.dyn != o.dyn:
            # monotone: join with what is known
            for i, s in o.p.items():
                for q in s:
                    m.add(i, q)
            m.other |= o.other
            m.dyn |= o.dyn
            if m.p != o.p or m.other != o.other or m.dyn != o.dyn:
                known[n] = m
                for x in callers.get(n, ()):
                    if x not in inq:
                        inq.add(x)
                        work.append(x)
    prog._mods = known
    return known


ANY = None       # read as a whole

def reads(prog):
    """reads(prog)[name][i]: the fields a crate function reads behind its i-th parameter (absent: anything)"""
    c = getattr(prog, '_reads', None)
    if c is not None:
        return c
    known = {n: [set() for _ in range(f.nargs)] for n, f in prog.fns.items()}
    ch = True
    while ch:
        ch = False
        for n, f in prog.fns.items():
            new = _reads(prog, f, known)
            if new != known[n]:
                known[n] = new
                ch = True
    prog._reads = known
    return known


def _reads(prog, f, known):
    out = [set(x) if x is not ANY else ANY for x in known[f.name]]
    al = {i: i - 1 for i in range(1, f.nargs + 1)}
    bbs = [b for b in f.bbs if not b['cl']]
    def first(pl):
        for p in pl[1:]:
            if p in ('*', '*raw'):
                continue
            return p[1] if isinstance(p, list) and p[0] == 'f' else False
        return ''
    def whole(i):
        out[i] = ANY
    def place(pl):
        """a use of place pl; -> parameter it is an alias of as a whole"""
        i = al.get(pl[0])
        if i is None:
            return None
        x = first(pl)
        if x == '':
            return i
        if x is False:
            whole(i)
        elif out[i] is not ANY:
            out[i].add(x)
        return None
    def op(o):
        return place(o[1]) if o[0] in 'cm' else None
    ch = True
    while ch:
        ch = False
        for b in bbs:
            for st in b['s']:
                pl, rv = st[0], st[1]
                k = rv[0]
                src = None
                if k in ('use', 'cast') and rv[1][0] in 'cm':
                    src = rv[1][1]
                elif k == 'ref' and not (len(rv) > 2 and rv[2]):
                    src = rv[1]
                if src is not None and len(pl) == 1 and src[0] in al and first(src) == '' and pl[0] > f.nargs:
                    if al.get(pl[0]) is None:
                        al[pl[0]] = al[src[0]]
                        ch = True
                    elif al[pl[0]] != al[src[0]]:
                        whole(al[pl[0]])
                        whole(al[src[0]])
    for b in bbs:
        for st in b['s']:
            pl, rv = st[0], st[1]
            k = rv[0]
            if k in ('use', 'cast', 'rep'):
                i = op(rv[1])
                if i is not None and al.get(pl[0]) != i or i is not None and len(pl) > 1:
                    whole(i)
            elif k in ('ref', 'raw', 'discr'):
                i = place(rv[1])
                if i is not None and (k != 'ref' or len(rv) > 2 and rv[2] or len(pl) > 1 or al.get(pl[0]) != i):
                    whole(i)
            else:
                for o in (rv[2:4] if k == 'bin' else rv[2:3] if k == 'un' else rv[3] if k == 'agg' else ()):
                    i = op(o)
                    if i is not None:
                        whole(i)
                if k not in ('bin', 'un', 'agg', 'setdiscr'):
                    for i in range(f.nargs):
                        whole(i)
            i = al.get(pl[0])
            if i is not None and len(pl) > 1:
                whole(i)            # stores through it: not read-only
        t = b['t']
        if t[0] == 'call':
            c = t[1]
            g = prog.fn(c['r']) if c.get('r') and c.get('local') and not c.get('virt') else None
            k = known.get(g.name) if g is not None else None
            for j, o in enumerate(t[2]):
                i = op(o)
                if i is None:
                    continue
                if k is None or j >= len(k) or k[j] is ANY:
                    whole(i)
                elif out[i] is not ANY:
                    out[i] |= k[j]
            if t[3] and al.get(t[3][0]) is not None:
                whole(al[t[3][0]])
        elif t[0] in ('switch', 'assert'):
            i = op(t[1])
            if i is not None:
                whole(i)
    if 0 in al:
        whole(al[0])
    return out

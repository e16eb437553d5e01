"""Relational check of two functions' path outcomes (reviewed reference vs. current tree).

Both sides are tables of path outcomes (see paths.py).  The current function conforms when every
one of its paths agrees, in effects, ending and returned value, with every reference row whose
branch facts do not contradict the path's, and at least one such row exists.
"""
import itertools, os
from paths import *
import paths
from core import *
import core

show = core.show

# ------------------------------------------------------------- canonical loop variables
def seg_graph(outs):
    g = {}
    for o in outs:
        g.setdefault(o.start, set())
        if o.end.startswith('L'):
            g[o.start].add(o.end)
            g.setdefault(o.end, set())
    return g

def dominates(g, a, b):
    """a dominates b (every path E->b passes a)"""
    if a == b or a == 'E':
        return True
    seen, st = {'E'}, ['E']
    if a == 'E':
        return True
    while st:
        x = st.pop()
        if x == b:
            return False
        for y in g.get(x, ()):
            if y != a and y not in seen:
                seen.add(y)
                st.append(y)
    return True

def flow_order(g):
    """reverse postorder from the entry, ignoring edges back to a dominating head"""
    order, seen = [], set()
    def go(x):
        seen.add(x)
        for y in sorted(g.get(x, ()), key=lambda l: int(l[1:]), reverse=True):
            if y not in seen and not dominates(g, y, x):
                go(y)
        order.append(x)
    go('E')
    return {x: i for i, x in enumerate(reversed(order))}

def subst(e, m, memo):
    if not isinstance(e, tuple) or not e:
        return e
    r = memo.get(e)
    if r is not None:
        return r
    if len(e) == 3 and e[0] == 'mu' and e[2] in m:
        r = ('mu', None, m[e[2]])
    else:
        r = tuple(subst(x, m, memo) if isinstance(x, tuple) else x for x in e)
        if r and r[0] == 'phi':
            r = mk_phi(r[1])
        elif r and r[0] == 'lin' and len(r) == 3:
            r = mk_lin(r[1], dict(r[2]))
        elif r and r[0] == 'eq' and len(r) == 3:
            r = mk_cmp('Eq', r[1], r[2])
        elif r and r[0] == 'lt' and len(r) == 3:
            r = mk_cmp('Lt', r[1], r[2])
    memo[e] = r
    return r


class Row:
    __slots__ = ('start', 'end', 'val', 'ev', 'ret', 'mu', 'out')


def terms_of(o):
    for a in o.val:
        yield a
    for e in o.ev:
        yield from e.args
        if e.val:
            yield e.val
    if o.ret is not None:
        yield o.ret

@lru_cache(maxsize=None)
def mus_in(e):
    if not isinstance(e, tuple) or not e:
        return frozenset()
    if len(e) == 3 and e[0] == 'mu':
        return frozenset([e[2]])
    r = frozenset()
    for x in e:
        if isinstance(x, tuple):
            r |= mus_in(x)
    return r

def submu(e, m, memo):
    if not isinstance(e, tuple) or not e:
        return e
    r = memo.get(e)
    if r is None:
        if len(e) == 3 and e[0] == 'mu' and e[2] in m:
            r = m[e[2]]
        else:
            r = rebuild_term(tuple(submu(x, m, memo) if isinstance(x, tuple) else x for x in e))
        memo[e] = r
    return r

def rebuild_term(r):
    if r and r[0] == 'phi':
        return mk_phi(r[1])
    if r and r[0] == 'lin' and len(r) == 3:
        t = C(r[1])
        for k, v in r[2]:
            if k[0] == 'c' and isinstance(k[1], int):
                t = mk_add(t, C(k[1] * v))
            else:
                c, d = as_lin(k)
                t = mk_add(t, mk_lin(c * v, {x: y * v for x, y in d.items()}))
        return t
    if r and r[0] == 'eq' and len(r) == 3:
        return mk_cmp('Eq', r[1], r[2])
    if r and r[0] == 'lt' and len(r) == 3:
        return mk_cmp('Lt', r[1], r[2])
    if r and r[0] == 'is' and len(r) == 3:
        return mk_is(r[1], r[2])
    if r and r[0] == 'isok' and len(r) == 2:
        return mk_is(r[1], 'Ok')
    if r and r[0] == 'not' and len(r) == 2:
        return mk_not(r[1])
    if r and r[0] == 'some' and len(r) == 2:
        return mk_payload(r[1], 'Some' if not (r[1][0] == 'agg' and r[1][1] == 'Result') else 'Ok', '0')
    if r and r[0] == 'f' and len(r) == 3:
        return mk_field(r[1], r[2])
    return r

def simplify_mus(outs, g):
    """drop loop variables nothing depends on; replace those that never change by their initial constant"""
    for o in outs:
        if any(v[0] in BOOLK or (v in o.val and v[0] != 'c') for _, v in o.mu):
            mu = []
            for nm, v in o.mu:
                k = known(o.val, v) if v[0] in BOOLK else o.val.get(v) if v[0] in ('call', 'arg', 'mu', 'ver', 'f') else None
                mu.append((nm, v if k is None else C(1 if k else 0)))
            o.mu = tuple(mu)
    for _ in range(8):
        used = set()
        for o in outs:
            for t in terms_of(o):
                used |= mus_in(t)
        dep = {}
        upds = {}
        for o in outs:
            for nm, v in o.mu:
                dep.setdefault(nm, set()).update(mus_in(v))
                upds.setdefault(nm, []).append((o, v))
        work = list(used)
        while work:
            x = work.pop()
            for y in dep.get(x, ()):
                if y not in used:
                    used.add(y)
                    work.append(y)
        sub = {}
        for nm, us in upds.items():
            if nm not in used:
                continue
            vs = {v for o, v in us if not (len(v) == 3 and v[0] == 'mu' and v[2] == nm)}
            if len(vs) == 1:
                v = next(iter(vs))
                if not mus_in(v) and not any(x[0] != 'arg' for x in places(v)) and not has_ver(v):
                    sub[nm] = v
        for nm, us in upds.items():
            if nm in used and nm not in sub:
                t = available(nm, us, outs)
                if t is not None:
                    sub[nm] = t
        if not sub:
            for nm, us in upds.items():
                t = derived(nm, us, outs) if nm in used else None
                if t is not None:
                    sub[nm] = t
                    break
        dead = set(upds) - used
        if not sub and not dead:
            break
        memo = {}
        new = []
        for o in outs:
            n = Out()
            n.start, n.end, n.trail, n.span, n.log = o.start, o.end, o.trail, o.span, o.log
            n.mu = tuple((nm, submu(v, sub, memo)) for nm, v in o.mu if nm not in dead and nm not in sub)
            if sub:
                n.val = {}
                ok = True
                for a, p in o.val.items():
                    for lits in dnf(submu(a, sub, memo), p)[:1] or [None]:
                        if lits is None:
                            ok = False
                            break
                        for b, q in lits:
                            if not assume(n.val, b, q):
                                ok = False
                    if not ok:
                        break
                if not ok:
                    continue
                n.ev = tuple(Ev(e.kind, e.name, tuple(submu(a, sub, memo) for a in e.args), submu(e.val, sub, memo) if e.val else e.val, e.span, tuple(submu(a, sub, memo) for a in e.eff), e.fn) for e in o.ev)
                n.ret = submu(o.ret, sub, memo) if o.ret is not None else None
            else:
                n.val, n.ev, n.ret = o.val, o.ev, o.ret
            new.append(n)
        outs = new
    return outs

def count_up(outs):
    """a counter running down to 0 that is only compared with 0 counts up to its initial value instead"""
    upds = {}
    for o in outs:
        for nm, v in o.mu:
            upds.setdefault(nm, []).append((o, v))
    sub, ent = {}, {}
    for nm, us in upds.items():
        back = [v for o, v in us if nm in mus_in(v)]
        init = {v for o, v in us if nm not in mus_in(v)}
        if not back or len(init) != 1:
            continue
        mu = next((x for v in back for x in [next(iter(as_lin(v)[1]), None)] if x is not None and x[0] == 'mu' and x[2] == nm), None)
        n = next(iter(init))
        if mu is None or n[0] == 'c' or any(v != mk_add(mu, C(1), -1) for v in back):
            continue
        tests = {mk_cmp('Lt', C(0), mu), mk_cmp('Lt', mu, C(1)), mk_cmp('Le', mu, C(0)), mk_cmp('Le', C(1), mu)}
        tests |= {t[1] for t in tests if t[0] == 'not'}
        if any(nm in mus_in(a) and a not in tests for o in outs for a in terms_of(o)) or any(k != nm and nm in mus_in(v) for o in outs for k, v in o.mu):
            continue
        sub[nm] = mk_add(n, mu, -1)
        ent[nm] = (n, mu)
    if not sub:
        return outs
    memo, new = {}, []
    for o in outs:
        n = Out()
        n.start, n.end, n.trail, n.span, n.log, n.ev, n.ret = o.start, o.end, o.trail, o.span, o.log, o.ev, o.ret
        n.mu = tuple((nm, v if nm not in sub else mk_add(ent[nm][1], C(1)) if nm in mus_in(v) else C(0)) for nm, v in o.mu)
        n.val = {}
        for a, p in o.val.items():
            for lits in dnf(submu(a, sub, memo), p)[:1]:
                for b, q in lits:
                    assume(n.val, b, q)
        new.append(n)
    return new

def never(outs):
    """a loop variable that enters its loop, and comes back to it, different from a constant is never that constant there"""
    cand = {}
    for o in outs:
        for a in o.val:
            if a[0] == 'eq' and any(x[0] == 'mu' for x in a[1:3]) and any(x[0] == 'c' for x in a[1:3]):
                m, c = (a[1], a[2]) if a[1][0] == 'mu' else (a[2], a[1])
                if m[0] == 'mu' and c[0] == 'c' and type(c[1]) is int:
                    cand[a] = m, c
    dead = set()
    for a, (m, c) in cand.items():
        ins = [(o, v) for o in outs for nm, v in o.mu if {nm} == mus_in(m)]
        def differs(o, v):
            if v == m:
                return True
            if v[0] == 'c':
                return v != c
            f = dict(o.val)
            return o.val.get(a) is True or assume(f, a, False) and known(f, mk_cmp('Eq', v, c)) is False
        if ins and any(v != m for _, v in ins) and all(differs(o, v) for o, v in ins):
            dead.add(a)
    return [o for o in outs if not any(o.val.get(a) is True for a in dead)] if dead else outs

def from_zero(outs):
    """a counter that starts at a constant and only grows by constants counts from zero"""
    upds = {}
    for o in outs:
        for nm, v in o.mu:
            upds.setdefault(nm, []).append(v)
    sub, ini = {}, {}
    for nm, vs in upds.items():
        init = {v for v in vs if nm not in mus_in(v)}
        if len(init) != 1 or len(vs) == 1:
            continue
        c = next(iter(init))
        if c[0] != 'c' or type(c[1]) is not int or c[1] == 0:
            continue
        steps = [as_lin(v) for v in vs if nm in mus_in(v)]
        if not steps or any(len(d) != 1 or next(iter(d.values())) != 1 or next(iter(d))[0] != 'mu' for _, d in steps) or all(k == 0 for k, _ in steps):
            continue
        mu = next(iter(steps[0][1]))
        sub[nm], ini[nm] = mk_add(mu, c), c
    if not sub:
        return outs
    memo, new = {}, []
    for o in outs:
        n = Out()
        n.start, n.end, n.trail, n.span, n.log = o.start, o.end, o.trail, o.span, o.log
        n.mu = tuple((nm, submu(v, sub, memo) if nm not in sub else C(0) if v == ini[nm] else v) for nm, v in o.mu)
        n.val = {}
        ok = True
        for a, p in o.val.items():
            ok = ok and any(all([assume(n.val, b, q) for b, q in lits]) for lits in dnf(submu(a, sub, memo), p)[:1])
        if not ok:
            continue
        n.ev = tuple(Ev(e.kind, e.name, tuple(submu(a, sub, memo) for a in e.args), submu(e.val, sub, memo) if e.val else e.val, e.span, tuple(submu(a, sub, memo) for a in e.eff), e.fn) for e in o.ev)
        n.ret = submu(o.ret, sub, memo) if o.ret is not None else None
        new.append(n)
    return new

def skip_first(outs):
    """a loop that does nothing in the iteration its counter starts with starts at the next one"""
    init, heads = {}, {}
    for o in outs:
        for nm, v in o.mu:
            if nm not in mus_in(v):
                init.setdefault(nm, set()).add(v)
                heads.setdefault(nm, set()).add(o.end)
    for nm, vs in init.items():
        v0 = next(iter(vs))
        if len(vs) != 1 or len(heads[nm]) != 1 or v0[0] != 'c' or type(v0[1]) is not int:
            continue
        h = next(iter(heads[nm]))
        back = [o for o in outs if any(k == nm for k, _ in o.mu) and nm in mus_in(dict(o.mu)[nm])]
        mu = next((x for o in back for x in [next(iter(as_lin(dict(o.mu)[nm])[1]), None)] if x is not None and x[0] == 'mu' and x[2] == nm), None)
        if mu is None or any(dict(o.mu)[nm] != mk_add(mu, C(1)) for o in back):
            continue
        test = mk_cmp('Eq', mu, v0)
        first = [o for o in outs if o.start == h and o.val.get(test) is True]
        lt = [a for a in {a for o in first for a in o.val} if a != test and (nm in mus_in(a))]
        if not first or len(lt) != 1 or lt[0][0] != 'lt' or lt[0][1] != mu and not (lt[0][1][0] == 'lin' and nm not in mus_in(lt[0][2])):
            continue
        lt = lt[0]
        if any(o.ev or o.end != h or any(k != nm and not (len(v) == 3 and v[0] == 'mu' and v[2] == k) for k, v in o.mu) or not set(o.val) <= {test, lt} or o.val.get(lt) is not True for o in first):
            continue
        rest = [o for o in outs if o.start == h and o not in first]
        if any(not ((o.val.get(lt) is False and not any(nm in mus_in(t) for t in terms_of(o) if t not in (test, lt))) or (o.val.get(lt) is True and o.val.get(test) is False)) for o in rest):
            continue
        new = []
        for o in outs:
            if o in first:
                continue
            n = Out()
            n.start, n.end, n.trail, n.span, n.log, n.ev, n.ret = o.start, o.end, o.trail, o.span, o.log, o.ev, o.ret
            n.val = {a: p for a, p in o.val.items() if not (a == test and o in rest)}
            n.mu = tuple((k, mk_add(v0, C(1)) if k == nm and nm not in mus_in(v) else v) for k, v in o.mu)
            new.append(n)
        return skip_first(new)
    return outs

def counters(outs):
    """a loop variable that starts at a constant and only grows is never below it: x < n+1 says x == n"""
    low = {}
    for o in outs:
        for nm, v in o.mu:
            c, d = as_lin(v)
            if not d and v[0] == 'c' and type(v[1]) is int:
                k = v[1]
            elif len(d) == 1 and c >= 0 and next(iter(d.values())) == 1 and next(iter(d))[0] == 'mu' and next(iter(d))[2] == nm:
                k = None
            else:
                low[nm] = 'no'
                continue
            if low.get(nm) != 'no':
                low.setdefault(nm, set()).update([k] if k is not None else [])
    low = {nm: min(ks) for nm, ks in low.items() if ks != 'no' and ks and ks != {0, 1}}
    if not low:
        return outs
    memo = {}
    def go(e):
        if not isinstance(e, tuple) or not e:
            return e
        r = memo.get(e)
        if r is None:
            r = e
            if e[0] == 'lt' and len(e) == 3 and e[1][0] == 'mu' and e[1][2] in low and e[2][0] == 'c':
                n = low[e[1][2]]
                r = C(0) if e[2][1] <= n else mk_cmp('Eq', e[1], C(n)) if e[2][1] == n + 1 else e
            elif e[0] != 'c' and mus_in(e):
                r = rebuild_term(tuple(go(x) if isinstance(x, tuple) else x for x in e))
            memo[e] = r
        return r
    new = []
    for o in outs:
        if not any(go(a) != a for a in o.val):
            new.append(o)
            continue
        n = Out()
        n.start, n.end, n.trail, n.span, n.log, n.ev, n.ret, n.mu = o.start, o.end, o.trail, o.span, o.log, o.ev, o.ret, o.mu
        n.val = {}
        if all(any(all(assume(n.val, b, q) for b, q in lits) for lits in dnf(go(a), p)[:1]) for a, p in o.val.items()):
            new.append(n)
    return new

def available(nm, us, outs):
    """the expression that loop variable nm equals whenever its loop head is reached, if there is one"""
    self_ = lambda v: len(v) == 3 and v[0] == 'mu' and v[2] == nm
    ts = {strip_ver(v) for o, v in us if not self_(v)}
    if len(ts) != 1:
        return None
    t = next(iter(ts))
    tm = mus_in(t)
    if t[0] in ('agg', 'c', 'slot') or has_slot(t) or any(x.rsplit('.', 1)[0] == nm.rsplit('.', 1)[0] for x in tm):
        return None
    for o, v in us:
        if not current(t if self_(v) else v, o.log):
            return None
    heads = {o.end for o, _ in us}
    need = {o.start for o in outs if o.start not in heads and any(nm in mus_in(x) for x in terms_of(o))}
    other = {o.end for o in outs if any(k in tm for k, _ in o.mu)}     # where the loop variables t mentions get new values
    if other & heads:
        return None
    if need:
        ch = True
        while ch:
            ch = False
            for o in outs:
                if o.end in need and o.start not in need and o.start not in heads:
                    need.add(o.start)
                    ch = True
        if 'E' in need or need & other:
            return None
        for o in outs:
            if o.end in need and not current(t, o.log):
                return None
    return t

def derived(nm, us, outs):
    """the expression over the other loop variables that nm equals whenever its loop head is reached"""
    head = nm.rsplit('.', 1)[0]
    heads = {o.end for o, _ in us}
    if len(heads) != 1 or any(nm in mus_in(x) for o in outs if o.start not in heads for x in terms_of(o)):
        return None
    for o, v in us:
        v = strip_ver(v)
        if v[0] not in ('f', 'elem', 'call', 'some') or has_slot(v):
            continue
        ups = {u: ('mu', None, k) for k, u in o.mu if k != nm and k.rsplit('.', 1)[0] == head and k in mus_in(u) and not (u[0] == 'mu')}
        mu = {k: x for o2 in outs for t in terms_of(o2) for k, x in muterms(t).items()}
        ups = {strip_ver(u): mu.get(m[2], m) for u, m in ups.items()}
        t = rebuild_deep(replace(v, ups))
        tm = mus_in(t)
        if nm in tm or t == v or not tm or any(k.rsplit('.', 1)[0] != head for k in tm):
            continue
        ok = True
        for o2, v2 in us:
            d = {k: strip_ver(u) for k, u in o2.mu}
            if not (set(tm) <= set(d)) or submu(t, d, {}) != strip_ver(v2) or not current(v2, o2.log):
                ok = False
                break
        if ok:
            return t
    # a value computed before the loop from a variable the loop never changes
    upd = {}
    for o in outs:
        for k, u in o.mu:
            upd.setdefault(k, []).append((o, u))
    fixed = lambda k: len({u for _, u in upd[k] if not (u[0] == 'mu' and u[2] == k)}) == 1
    if fixed(nm):
        t0 = next(u for _, u in us if not (u[0] == 'mu' and u[2] == nm))
        if t0[0] in ('f', 'elem', 'call', 'some') and not has_slot(t0) and not has_ver(t0):
            mu = {k: x for o2 in outs for t in terms_of(o2) for k, x in muterms(t).items()}
            ups = {}
            for k in upd:
                if k != nm and k.rsplit('.', 1)[0] == head and fixed(k):
                    u = next(u for _, u in upd[k] if not (u[0] == 'mu' and u[2] == k))
                    if u[0] != 'c' and not has_ver(u):
                        ups[u] = mu.get(k, ('mu', None, k))
            t = rebuild_deep(replace(t0, ups))
            if t != t0 and mus_in(t) and nm not in mus_in(t) and not any(x[0] != 'arg' and not mus_in(x) for x in places(t)) and all({k for k, _ in o.mu} >= mus_in(t) for o, _ in us):
                if all(dict(o.mu)[k][0] == 'mu' and dict(o.mu)[k][2] == k for o, v in us for k in mus_in(t) if v[0] == 'mu' and v[2] == nm):
                    return t
    return None

def match_mu(pat, t, names, env):
    """bind the loop variables in names so that pat is t"""
    if pat == t and not (mus_in(pat) & names) if isinstance(pat, tuple) and pat else pat == t:
        return True
    if not isinstance(pat, tuple) or not isinstance(t, tuple) or not pat:
        return False
    if len(pat) == 3 and pat[0] == 'mu' and pat[2] in names:
        if pat[2] in env:
            return env[pat[2]] == t
        env[pat[2]] = t
        return True
    if pat[0] == 'lin' and len(pat) == 3:
        free = [k for k, c in pat[2] if k[0] == 'mu' and k[2] in names and c == 1]
        if len(free) == 1:
            return match_mu(free[0], mk_add(t, mk_add(pat, free[0], -1), -1), names, env)
    if len(pat) != len(t):
        return False
    return all(match_mu(x, y, names, env) for x, y in zip(pat, t))

def unpeel(outs):
    """a first iteration written out before its loop is that loop"""
    by = {}
    for o in outs:
        by.setdefault(o.start, []).append(o)
    for h1, first in by.items():
        if h1 == 'E' or any(o.end == h1 for o in first):
            continue
        for h2 in {o.end for o in first}:
            rest = by.get(h2, [])
            if h2 == h1 or len(rest) != len(first) or any(o.end == h1 for o in rest):
                continue
            names = frozenset(k for o in rest if o.end == h2 for k, _ in o.mu if k != 'yield')
            env = {}
            a = [o for o in first if o.end == h2]
            b = [o for o in rest if o.end == h2]
            if len(a) != len(b) or not names:
                continue
            ok = False
            for perm in itertools.permutations(a) if len(a) <= 4 else [a]:
                env = {}
                if all({k for k, _ in x.mu} == {k for k, _ in y.mu} and all(match_mu(u, dict(x.mu)[k], names, env) for k, u in y.mu) for x, y in zip(perm, b)):
                    ok = True
                    break
            used = set().union(*[mus_in(t) for o in rest for t in terms_of(o)]) & names
            if not ok or not used <= set(env):
                continue
            memo = {}
            def shape(o, sub):
                f = (lambda t: submu(t, sub, memo)) if sub else (lambda t: t)
                return (o.end, frozenset((f(x), p) for x, p in o.val.items()), tuple((e.kind, e.name, tuple(f(x) for x in e.args), f(e.val) if e.val else None) for e in o.ev),
                        f(o.ret) if o.ret is not None else None, frozenset((k, f(u)) for k, u in o.mu))
            if sorted(map(repr, (shape(o, None) for o in first))) != sorted(map(repr, (shape(o, env) for o in rest))):
                continue
            into = [o for o in outs if o.end == h1]
            if any(not current(t, o.log) for o in into for t in env.values()):
                continue
            new = []
            for o in outs:
                if o.start == h1:
                    continue
                if o.end == h1:
                    n = Out()
                    n.start, n.trail, n.span, n.log, n.ev, n.ret, n.val = o.start, o.trail, o.span, o.log, o.ev, o.ret, o.val
                    n.end = h2
                    d = dict(o.mu)
                    n.mu = tuple((k, submu(t, d, {})) for k, t in env.items())
                    o = n
                new.append(o)
            return unpeel(new)
    return outs

def muterms(e, out=None):
    out = {} if out is None else out
    if isinstance(e, tuple) and e:
        if len(e) == 3 and e[0] == 'mu':
            out[e[2]] = e
        else:
            for x in e:
                if isinstance(x, tuple):
                    muterms(x, out)
    return out

def replace(e, m):
    if not isinstance(e, tuple) or not e:
        return e
    if e in m:
        return m[e]
    return tuple(replace(x, m) if isinstance(x, tuple) else x for x in e)

def rebuild_deep(e):
    return submu(e, {}, {})

def some_loops(outs):
    """a loop variable that is Some each time its loop is entered stands for the value inside"""
    upds = {}
    for o in outs:
        for nm, v in o.mu:
            upds.setdefault(nm, []).append((o, v))
    sub = {}
    for nm, us in upds.items():
        if any(nm in mus_in(v) for _, v in us) and not any(v[0] == 'mu' and v[2] == nm for _, v in us):
            pass
        if all(v[0] == 'agg' and v[1] == 'Option' and v[2] == 'Some' or v[0] == 'mu' and v[2] == nm or o.val.get(('is', v, 'Some')) is True for o, v in us) and any(not (v[0] == 'mu' and v[2] == nm) for _, v in us):
            mu = next((x for o in outs for t in terms_of(o) for x in [muterms(t).get(nm)] if x is not None), None)
            if mu is not None:
                sub[nm] = ('agg', 'Option', 'Some', (('0', mu),))
    if not sub:
        return outs
    memo, new = {}, []
    for o in outs:
        n = Out()
        n.start, n.end, n.trail, n.span, n.log = o.start, o.end, o.trail, o.span, o.log
        n.mu = tuple((nm, submu(v, sub, memo)) if nm not in sub else (nm, v if v[0] == 'mu' and v[2] == nm else mk_payload(submu(v, sub, memo), 'Some', '0')) for nm, v in o.mu)
        n.val = {}
        ok = True
        for a, p in o.val.items():
            ok = ok and any(all([assume(n.val, b, q) for b, q in lits]) for lits in dnf(submu(a, sub, memo), p)[:1])
        if not ok:
            continue
        n.ev = tuple(Ev(e.kind, e.name, tuple(submu(a, sub, memo) for a in e.args), submu(e.val, sub, memo) if e.val else e.val, e.span, tuple(submu(a, sub, memo) for a in e.eff), e.fn) for e in o.ev)
        n.ret = submu(o.ret, sub, memo) if o.ret is not None else None
        new.append(n)
    return new

@lru_cache(maxsize=None)
def has_slot(e):
    return isinstance(e, tuple) and bool(e) and (e[0] == 'slot' or any(has_slot(x) for x in e if isinstance(x, tuple)))

class Rows(list):
    """canonical outcomes; ties: {initial value: number of loop variables that have it}"""

def canon(outs, drop=None):
    """outcomes with loop variables renamed after their initial values; -> Rows"""
    g = seg_graph(outs)
    outs = never(simplify_mus(outs, g))
    n = len(outs)
    outs = unpeel(outs)
    if len(outs) != n:
        g = seg_graph(outs)
    return name_rows(counters(from_zero(skip_first(count_up(some_loops(simplify_mus(outs, g)))))), drop)

def name_rows(outs, drop=None, perm={}, force=None):
    g = seg_graph(outs)
    labels = [l for l in g if l != 'E']
    pos = flow_order(g)
    labels.sort(key=lambda l: pos.get(l, 0))
    m = {}
    level = {}
    ties = {}
    for h in labels:
        outer = [x for x in labels if x != h and dominates(g, x, h)]
        inits = {}
        for o in outs:
            if o.end == h and not dominates(g, h, o.start):
                for nm, v in o.mu:
                    if nm != 'yield':
                        inits.setdefault(nm, set()).add(v)
        memo = {}
        names = {}
        for nm, vs in sorted(inits.items(), key=lambda kv: [int(x) for x in reversed(kv[0].rsplit('.', 1)[1].split('x'))]):
            t = '|'.join(sorted(show(subst(v, m, memo)) for v in vs))
            names.setdefault(t, []).append(nm)
        for t, nms in names.items():
            k = max([level.get((x, t), 0) for x in outer] or [0])
            level[(h, t)] = k + 1
            if len(nms) > 1:
                ties[t] = max(len(nms), ties.get(t, 0))
                if len(perm.get(t, ())) == len(nms):
                    nms = [nms[i] for i in perm[t]]
            for i, nm in enumerate(nms):
                m[nm] = '[' + t + ']' + ("^" * k) + ('~%d' % i if i else '')
    if force is not None:
        m = force
    memo = {}
    rows = Rows()
    rows.ties, rows.outs, rows.drop = ties, outs, drop
    for o in outs:
        r = Row()
        r.start, r.end, r.out = o.start, o.end, o
        r.val = {}
        ok = True
        for a, p in o.val.items():
            b = subst(a, m, memo)
            while b[0] == 'not':
                b, p = b[1], not p
            if not assume(r.val, b, p):
                ok = False
                break
        if not ok or any(p and a[0] == 'lt' and a[2] == C(0) and any(indexes(b, a[1]) for b in r.val) for a, p in r.val.items()):
            continue                    # (an index that was read is not negative)
        r.ev = []
        for e in o.ev:
            if drop is not None and drop(e):
                continue
            r.ev.append((e.kind, e.name, tuple(subst(a, m, memo) for a in e.args), subst(e.val, m, memo) if e.val else None, tuple(subst(a, m, memo) for a in e.eff), e))
        r.ret = subst(o.ret, m, memo) if o.ret is not None else None
        r.mu = {}
        for nm, v in o.mu:
            k, v = m.get(nm, nm), subst(v, m, memo)
            if r.mu.setdefault(k, v) != v:
                r.mu[k + '~'] = v       # two variables standing for one must agree
        rows.append(r)
    return rows

@lru_cache(maxsize=None)
def indexes(e, i):
    """is an element at index i read in e?"""
    return isinstance(e, tuple) and bool(e) and (e[0] == 'elem' and len(e) == 3 and e[2] == i or any(indexes(x, i) for x in e if isinstance(x, tuple)))

def evtext(e):
    kind, name, args, val, eff, _ = e
    if kind == 'w':
        return '%s := %s' % (show(args[0]), show(val))
    return '%s(%s)' % (name, ', '.join(show(a) for a in args))

def ev_conflict(a, b):
    return any(overlaps(x, y) for x in a[4] for y in b[4])

def same_events(p, q):
    tp, tq = [evtext(e) for e in p], [evtext(e) for e in q]
    if tp == tq:
        return True
    if sorted(tp) != sorted(tq):
        return False
    # same multiset: the order of interfering effects must agree
    # match k-th occurrence of equal texts
    def occ(ts):
        c, out = {}, []
        for t in ts:
            c[t] = c.get(t, 0) + 1
            out.append((t, c[t]))
        return out
    op, oq = occ(tp), occ(tq)
    pos = {x: i for i, x in enumerate(oq)}
    for i in range(len(p)):
        for j in range(i + 1, len(p)):
            if ev_conflict(p[i], p[j]) and pos[op[i]] > pos[op[j]]:
                return False
    return True

def consistent(v1, v2):
    d = dict(v1)
    for a, p in v2.items():
        if not assume(d, a, p):
            return False
    return True


def refine(q, r):
    """both rows with the arguments of calls that the joint facts decide replaced by constants; None: they exclude each other"""
    d = dict(q.val)
    for a, p in r.val.items():
        if not assume(d, a, p):
            return None
    bare = {a: C(1 if p else 0) for a, p in d.items() if a[0] in ('arg', 'call', 'f', 'mu', 'elem', 'ver', 'some')}
    for a, p in d.items():
        if p and a[0] == 'eq' and a[2][0] == 'c' and a[1][0] != 'c':
            bare[a[1]] = a[2]
    memo = {}
    def go(e, pos=False):
        if not isinstance(e, tuple) or not e or not isinstance(e[0], str):
            return tuple(go(x) if isinstance(x, tuple) else x for x in e) if isinstance(e, tuple) else e
        if pos:
            if e in bare:
                return bare[e]
            if e[0] in BOOLK:
                k = known(d, e)
                if k is not None:
                    return C(1 if k else 0)
        x = memo.get(e)
        if x is None:
            if e[0] == 'call' and len(e) == 3:
                x = (e[0], e[1], tuple(go(y, True) for y in e[2]))
            elif e[0] == 'c':
                x = e
            else:
                x = rebuild_term(tuple(go(y) if isinstance(y, tuple) else y for y in e))
            memo[e] = x
        return x
    out = []
    for row in (q, r):
        n = Row()
        n.start, n.end, n.out = row.start, row.end, row.out
        n.val = {}
        for a, p in row.val.items():
            for lits in dnf(go(a), p)[:1] or [None]:
                if lits is None or not all(assume(n.val, b, x) for b, x in lits):
                    return None
        n.ev = [(e[0], e[1], tuple(go(a, not (e[0] == 'w' or a in e[4])) for a in e[2]), go(e[3], True) if e[3] else e[3], tuple(go(a) for a in e[4]), e[5]) for e in row.ev]
        n.ret = go(row.ret, True) if row.ret is not None else None
        n.mu = {k: go(v, True) for k, v in row.mu.items()}
        out.append(n)
    return out if consistent(out[0].val, out[1].val) else None


class Mismatch:
    def __init__(self, why, row, ref):
        self.why, self.row, self.ref = why, row, ref

    def loc(self):
        """most specific source location"""
        r = self.row
        if r.out.span:
            sp = r.out.span
        else:
            sp = next((x for x, _ in reversed(r.out.trail) if x), None)
        return sp

    def text(self):
        r = self.row
        facts = ', '.join(sorted(('' if p else '!') + show(a) for a, p in r.val.items()))
        return '%s; on the path [%s]: does {%s} then %s%s%s' % (
            self.why, facts[:900], ' ; '.join(evtext(e) for e in r.ev)[:900], r.end, (' ' + show(r.ret)[:300]) if r.ret is not None else '',
            (' with ' + ', '.join('%s:=%s' % (k, show(v)) for k, v in r.mu.items())[:300]) if r.mu else '')


def norm(e, facts, memo):
    """value e under the facts: known Options become Some{..}/None, known booleans and equal-to-constant terms constants"""
    if not isinstance(e, tuple) or not e:
        return e
    r = memo.get(e)
    if r is not None:
        return r
    r = e
    k = e[0]
    if k == 'agg':
        r = ('agg', e[1], e[2], tuple((n, norm(v, facts, memo)) for n, v in e[3]))
    elif k in ('call', 'f', 'some', 'elem', 'ver', 'last', 'arg', 'mu', 'err', 'pcall'):
        if e in facts:
            r = C(1 if facts[e] else 0)
        elif facts.get(('is', e, 'Some')) is not None:
            r = ('agg', 'Option', 'Some', (('0', norm(mk_payload(e, 'Some', '0'), facts, memo)),)) if facts[('is', e, 'Some')] else ('agg', 'Option', 'None', ())
        elif facts.get(('isok', e)) is not None:
            r = ('agg', 'Result', 'Ok', (('0', mk_payload(e, 'Ok', '0')),)) if facts[('isok', e)] else ('agg', 'Result', 'Err', (('0', mk_payload(e, 'Err', '0')),))
        elif (k == 'call' and e[1] in VERPAY) or (k == 'ver' and e[1][0] == 'call' and e[1][1] in VERPAY):
            c = mk_is(e, 'Some')
            t = known(facts, c)
            if t is not None:
                r = ('agg', 'Option', 'Some', (('0', norm(mk_payload(e, 'Some', '0'), facts, memo)),)) if t else ('agg', 'Option', 'None', ())
        if r is e:
            for a, p in facts.items():
                if p and a[0] == 'eq' and a[1] == e and a[2][0] == 'c':
                    r = a[2]
                    break
                if p and a[0] == 'is' and a[1] == e and a[2] not in ('Some', 'Ok') :
                    r = ('agg', 'variant', a[2], ())
                    break
        if r is e and k == 'call':
            r = (k, e[1], tuple(norm(x, facts, memo) for x in e[2]))
    elif k in BOOLK:
        t = known(facts, e)
        if t is not None:
            r = C(1 if t else 0)
        elif k == 'not':
            r = mk_not(norm(e[1], facts, memo))
        elif k == 'and':
            r = C(1)
            for x in e[1]:
                r = mk_and2(r, norm(x, facts, memo))
    elif k == 'lin':
        r = C(e[1])
        for x, c in e[2]:
            y = norm(x, facts, memo)
            cc, d = as_lin(y)
            r = mk_add(r, mk_lin(cc * c, {z: w * c for z, w in d.items()}))
    memo[e] = r
    return r

def known(facts, c):
    """truth of condition c under facts, or None"""
    out = []
    for pol in (True, False):
        ok = False
        for lits in dnf(c, pol):
            d = dict(facts)
            if all(assume(d, a, p) for a, p in lits):
                ok = True
                break
        out.append(ok)
    if out == [True, False]:
        return True
    if out == [False, True]:
        return False
    return None

def norm_ev(ev, facts, memo):
    out = []
    for i, e in enumerate(ev):
        if e[0] == 'w' and e[3][0] == 'c' and facts.get(e[2][0]) == bool(e[3][1]) and e[3][1] in (0, 1) and not any(overlaps(x, e[2][0]) for d in ev[:i] for x in d[4]):
            continue        # stores what is already there
        if e[0] == 'w' and e[3][0] == 'c' and e[3][1] in (0, 1) and i:
            before = [d for d in ev[:i] if any(overlaps(x, e[2][0]) for x in d[4])]
            if before and not any(d[0] == 'w' for d in before) and facts.get(('ver', e[2][0], len(before))) == bool(e[3][1]):
                continue    # the same, of what a call left there
        if e[0] == 'w' and e[2][0][0] in ('f', 'elem') and e[3][0] not in ('agg', 'with') and e[3] != e[2][0] and not any(overlaps(x, e[2][0]) for d in ev[:i] for x in d[4]) and known(facts, mk_cmp('Eq', e[2][0], e[3])):
            continue        # stores what is known to be there
        if e[0] == 'w' and any(d[0] == 'w' and d[2][0] == e[2][0] and not any(overlaps(x, e[2][0]) for c in ev[i + 1:i + 1 + j] for x in c[4] + (c[2] if c[0] != 'w' else ())) for j, d in enumerate(ev[i + 1:])):
            continue        # overwritten before anything looks at it
        out.append((e[0], e[1], tuple(norm(a, facts, memo) if not (e[0] == 'w' or (a in e[4])) else a for a in e[2]), norm(e[3], facts, memo) if e[3] else None, e[4], e[5]))
    return out

def eqv(x, y, joint):
    if show(x) == show(y):
        return True
    f, memo = joint()
    x, y = norm(x, f, memo), norm(y, f, memo)
    if show(x) == show(y):
        return True
    if x[0] == y[0] == 'agg' and x[1:3] == y[1:3] and [k for k, _ in x[3]] == [k for k, _ in y[3]]:
        return all(eqv(a, b, joint) for (_, a), (_, b) in zip(x[3], y[3]))
    if x[0] not in ('agg',) and y[0] not in ('agg',):
        for c in (mk_cmp('Eq', x, y),):
            if known(f, c):
                return True
    return False

def outcome_diff(q, r, lmap):
    if q.end.startswith('L') != r.end.startswith('L') or (q.end.startswith('L') and lmap.get(q.end) != r.end) or (not q.end.startswith('L') and q.end != r.end):
        return 'ends with %s where the contract has %s' % (endtext(q), endtext(r))
    cell = []
    def joint():
        if not cell:
            d = dict(q.val)
            for a, p in r.val.items():
                assume(d, a, p)
            for a, p in list(q.val.items()) + list(r.val.items()):
                d.setdefault(a, p)
            cell.append((d, {}))
        return cell[0]
    if q.ret is not None and r.ret is not None and not eqv(q.ret, r.ret, joint):
        return 'returns %s where the contract has %s' % (show(q.ret)[:300], show(r.ret)[:300])
    if not same_events(r.ev, q.ev):
        f, memo = joint()
        qe, re_ = norm_ev(q.ev, f, memo), norm_ev(r.ev, f, memo)
        if not same_events(re_, qe):
            a, b = [evtext(e) for e in qe], [evtext(e) for e in re_]
            extra = [x for x in a if x not in b]
            miss = [x for x in b if x not in a]
            if extra or miss:
                return 'effects differ: ' + '; '.join((['unexpected {%s}' % x[:300] for x in extra] + ['missing {%s}' % x[:300] for x in miss])[:4])
            return 'interfering effects happen in a different order (or a different number of times): {%s} vs contract {%s}' % (' ; '.join(a)[:300], ' ; '.join(b)[:300])
    for k, v in q.mu.items():
        if k in r.mu and not eqv(r.mu[k], v, joint):
            return 'loop variable %s becomes %s where the contract has %s' % (k[:80], show(v)[:200], show(r.mu[k])[:200])
    if set(q.mu) != set(r.mu):
        return 'loop state differs: %s where the contract has %s' % (sorted(set(q.mu) - set(r.mu))[:3], sorted(set(r.mu) - set(q.mu))[:3])
    return None

def endtext(r):
    if r.end == 'ret':
        return 'return ' + (show(r.ret)[:200] if r.ret is not None else '')
    return {'panic': 'panic', 'upanic': 'unwrap panic'}.get(r.end, 'loop ' + r.end)

def compare(ref, cur, limit=3):
    """-> list of Mismatch (empty: conforms)"""
    bad = compare1(ref, cur, limit)
    ties = {t: n for t, n in getattr(cur, 'ties', {}).items() if n <= 3 and getattr(ref, 'ties', {}).get(t) == n}
    if bad and ties and len(ties) <= 3:
        # loop variables with equal initial values: any pairing of them may be the corresponding one
        for ps in itertools.islice(itertools.product(*[list(itertools.permutations(range(n))) for n in ties.values()]), 1, 13):
            if not compare1(ref, name_rows(cur.outs, cur.drop, dict(zip(ties, ps))), 1):
                return []
    return bad

def compare1(ref, cur, limit):
    rl = sorted({r.start for r in ref} - {'E'})
    ql = sorted({r.start for r in cur} - {'E'})
    best = None
    n = 0
    for lmap in mappings(ql, rl, ref, cur):
        n += 1
        if n > 300:
            break
        bad = check_map(ref, cur, lmap, 1000 if best is None else len(best))
        if best is None or len(bad) < len(best):
            best = bad
        if not best:
            return []
    best = best or []
    if best and rl and ql and hasattr(cur, 'outs'):
        if paired(ref, cur, rl, ql):
            return []
        if len(rl) > len(ql):
            small = shared(ref)
            sl = sorted({r.start for r in small} - {'E'})
            if len(sl) < len(rl) and paired(small, cur, sl, ql):
                return []
    return best[:limit]

def paired(ref, cur, rl, ql):
    """do the outcomes agree when the loop variables are paired by their values instead of by name?"""
    raw = name_rows(cur.outs, cur.drop, force={})
    order = flow_order(seg_graph(cur.outs))
    heads = sorted(ql, key=lambda l: order.get(l, 0))
    tried = 0
    seen = set()
    for lmap in itertools.islice(mappings(ql, rl, ref, cur), 40):
        key = tuple(sorted(lmap.items()))
        if key in seen or any(v is None for v in lmap.values()):
            continue
        seen.add(key)
        if len(seen) > 6:
            break
        choices = []
        ren = {}
        for h in heads:
            votes = {}
            memo = {}
            done = set(heads[:heads.index(h)]) | {'E'}
            for q in raw:
                if q.end != h or q.start not in done:
                    continue
                val = {}
                for a, p in q.val.items():
                    assume(val, subst(a, ren, memo), p)
                mu = {k: show(subst(v, ren, memo)) for k, v in q.mu.items() if k != 'yield'}
                for r in ref:
                    if r.end == lmap[h] and r.start == ('E' if q.start == 'E' else lmap[q.start]) and consistent(val, r.val):
                        for x, v in mu.items():
                            for y, w in r.mu.items():
                                if show(w) == v:
                                    votes.setdefault(x, {})
                                    votes[x][y] = votes[x].get(y, 0) + 1
            for x in sorted(votes):
                top = max(votes[x].values())
                ys = sorted(y for y in votes[x] if votes[x][y] == top)
                choices.append((x, ys))
                ren[x] = ys[0]
        need = {k for q in raw for k in q.mu if k != 'yield'}
        if need - set(ren):
            continue
        for combo in itertools.islice(itertools.product(*[ys for _, ys in choices]), 24):
            tried += 1
            if tried > 60:
                return False
            if not check_map(ref, name_rows(cur.outs, cur.drop, force={x: y for (x, _), y in zip(choices, combo)}), lmap, 1):
                return True
    return False

def shared(rows):
    """the same outcomes with loops that behave alike (each simulates the other's every step) written once"""
    while True:
        heads = sorted({r.start for r in rows} - {'E'})
        by = {}
        for r in rows:
            by.setdefault(r.start, []).append(r)
        shape = lambda h: (len(by[h]), sorted(len(r.mu) for r in by[h] if r.end == h))
        for a, b in itertools.combinations(heads, 2):
            if shape(a) != shape(b):
                continue
            m = {b: a}
            todo = [(b, a)]
            while todo:
                x, y = todo.pop()
                for q in by[x]:
                    if q.end.startswith('L') and q.end not in m:
                        for r in by[y]:
                            if r.end.startswith('L') and consistent(q.val, r.val) and outcome_diff(q, r, {q.end: r.end}) is None:
                                m[q.end] = r.end
                                todo.append((q.end, r.end))
                                break
            m = {x: y for x, y in m.items() if x != y}
            if set(m) & set(m.values()):
                continue
            full = {h: m.get(h, h) for h in heads}
            if check_map(rows, [r for r in rows if r.start in m], full, 1):
                continue
            new = []
            for r in rows:
                if r.start in m:
                    continue
                if r.end in m:
                    n = Row()
                    n.start, n.val, n.ev, n.ret, n.mu, n.out = r.start, r.val, r.ev, r.ret, r.mu, r.out
                    n.end = m[r.end]
                    r = n
                new.append(r)
            rows = new
            break
        else:
            return rows

def mappings(ql, rl, ref, cur):
    if not ql:
        yield {}
        return
    if not rl:
        yield {q: None for q in ql}
        return
    # likely first: by loop signature (facts and effects seen), then by order
    def sig(rows, l):
        s = set()
        for r in rows:
            if r.start == l:
                s |= {show(a) for a in r.val} | {evtext(e) for e in r.ev}
        return s
    rs = {l: sig(ref, l) for l in rl}
    cand = []
    for q in ql:
        sq = sig(cur, q)
        cand.append(sorted(rl, key=lambda l: (-len(sq & rs[l]), len(sq ^ rs[l]), l)))
    seen = set()
    first = {q: cand[i][0] for i, q in enumerate(ql)}
    guess = infer_map(ref, cur)
    if set(guess) == set(ql):
        yield guess
    else:
        guess = dict(first, **guess)
        if guess != first:
            yield guess
    yield first
    if len(ql) == len(rl) and len(ql) <= 5:
        for p in itertools.permutations(rl):
            m = dict(zip(ql, p))
            if m != first:
                yield m
    for combo in itertools.product(*[c[:3] for c in cand]):
        yield dict(zip(ql, combo))

def infer_map(ref, cur):
    """loops entered on the same paths with the same effects correspond"""
    m = {}
    rb, qb = {}, {}
    for r in ref:
        rb.setdefault(r.start, []).append(r)
    for q in cur:
        qb.setdefault(q.start, []).append(q)
    todo, seen = [('E', 'E')], set()
    while todo:
        a, b = todo.pop()
        votes = {}
        for q in qb.get(a, []):
            if not q.end.startswith('L') or q.end in m:
                continue
            for r in rb.get(b, []):
                if r.end.startswith('L') and consistent(q.val, r.val):
                    d = outcome_diff(q, r, {q.end: r.end})
                    v = votes.setdefault(q.end, {})
                    v[r.end] = v.get(r.end, 0) + (10 if d is None else 3 if d.startswith('loop var') else 1)
        for l in sorted(votes):
            v = votes[l]
            m[l] = max(sorted(v), key=lambda x: v[x])
            todo.append((l, m[l]))
    return m

def check_map(ref, cur, lmap, limit):
    bad = []
    by = {}
    for r in ref:
        by.setdefault(r.start, []).append(r)
    for q in cur:
        s = 'E' if q.start == 'E' else lmap.get(q.start)
        rows = by.get(s, [])
        hit = False
        for r in rows:
            if not consistent(q.val, r.val):
                continue
            hit = True
            if r.end == 'upanic' or (q.end == 'upanic' and r.end == 'panic'):
                continue
            d = outcome_diff(q, r, lmap)
            if d:
                both = refine(q, r)
                if both is None or outcome_diff(*both, lmap) is None:
                    continue
            if d:
                bad.append(Mismatch(d, q, r))
                break
        if not hit:
            bad.append(Mismatch('no contract row covers this path', q, None))
        if len(bad) >= limit:
            break
    return bad

def render(rows):
    """readable contract"""
    out = []
    for r in rows:
        out.append('  @%s | %s | %s | %s%s%s' % (
            r.start, ' ; '.join(sorted(('' if p else '!') + show(a) for a, p in r.val.items())),
            ' ; '.join(evtext(e) for e in r.ev), r.end, (' ' + show(r.ret)) if r.ret is not None and r.ret != ('c', 't:()') else '',
            (' {' + ', '.join('%%%s := %s' % (k, show(v)) for k, v in sorted(r.mu.items())) + '}') if r.mu else ''))
    return sorted(set(out))

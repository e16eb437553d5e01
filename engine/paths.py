"""Path outcomes of a function: a path-sensitive dataflow over its (inlined) MIR.

The function is cut at loop heads.  For every path between cut points the analysis carries
 - the value of each local as a provenance term over the state at the start of the segment,
 - the branch facts taken (atoms with a polarity; contradictory paths are discarded by a small
   syntactic theory: equal terms, constants, bounds, enum variants -- no solver),
 - the ordered effects: writes through references and calls that may modify something,
and at the cut point the ending: return value, next loop head with the loop variables' new values,
or panic.  A term read from memory after an interfering effect carries a version mark, so "before"
and "after" reads are different terms.
"""
import re
from core import *
import core

# ---------------------------------------------------------------------------- terms
def prefixes(e, out=None):
    """the places e is reached through, e included"""
    if out is None:
        out = []
    while True:
        out.append(e)
        k = e[0]
        if k in ('f', 'elem', 'some', 'last', 'err', 'as', 'ver', 'slice'):
            e = e[1]
        elif k in ('call', 'pcall'):
            for a in e[2]:
                if a[0] in PLACEY:
                    prefixes(a, out)
            return out
        elif k == 'phi':
            for a in e[1]:
                prefixes(a, out)
            return out
        else:
            return out

PLACEY = {'f', 'elem', 'some', 'last', 'err', 'as', 'ver', 'arg', 'slot', 'call', 'mu', 'static', 'phi', 'pcall'}
prefixes_c = lru_cache(maxsize=None)(lambda e: frozenset(prefixes(e)))

def strip_ix(e):
    """wildcard indices"""
    k = e[0]
    if k == 'elem':
        return ('elem', strip_ix(e[1]), None)
    if k in ('last',):
        return ('elem', strip_ix(e[1]), None)
    if k == 'f':
        return ('f', strip_ix(e[1]), e[2])
    if k in ('some', 'err'):
        return (k, strip_ix(e[1]))
    if k == 'ver':
        return strip_ix(e[1])
    return e
strip_ix = lru_cache(maxsize=None)(strip_ix)

@lru_cache(maxsize=None)
def overlaps(p, q):
    a, b = strip_ix(p), strip_ix(q)
    return a in {strip_ix(x) for x in prefixes_c(q)} or b in {strip_ix(x) for x in prefixes_c(p)}

@lru_cache(maxsize=None)
def deep_prefixes(e):
    """the places whose referents are read when e is read (e is behind a field, element or call of them)"""
    out = set()
    st = [(e, False)]
    while st:
        e, deep = st.pop()
        if deep:
            out.add(strip_ix(e))
        k = e[0]
        if k in ('f', 'elem', 'some', 'last', 'err', 'as', 'ver', 'slice'):
            st.append((e[1], deep or k in ('f', 'elem', 'last')))
        elif k in ('call', 'pcall'):
            st += [(a, True) for a in e[2] if a[0] in PLACEY]
        elif k == 'phi':
            st += [(a, deep) for a in e[1] if a[0] in PLACEY]
    return frozenset(out)

def rel_suffix(p, q):
    """projection from place p to its sub-place q (list) or None; only plain fields"""
    suf = []
    x = q
    while x != p:
        if x[0] == 'f':
            suf.append(('f', x[2]))
            x = x[1]
        elif x[0] == 'some':
            suf.append(('some', None))
            x = x[1]
        else:
            return None
    return suf[::-1]

SCALAR = {'isize', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'u8', 'u16', 'u32', 'u64', 'u128', 'bool', 'char', 'f32', 'f64', '()'}

IMPURE_SHARED = re.compile(r'(.*::)?(set_\w+|add_\w+|notify\w*|report\w*|enter\w*|exit\w*|consume\w*|visit\w*|trigger\w*|set|push\w*|pop\w*|insert\w*|remove\w*|clear|reset\w*|syntax_error|write\w*|emit\w*|recover\w*|sync\w*|exec\w*|sempred|action|seek|mark|release|store|lock|walk|do_walk|begin_\w+|end_\w+|fill|advance\w*|fetch\w*|replace|swap|borrow_mut_set|terminal|prepend\w*|_print|_eprint|<ptr>|call_mut|call_once)$')
ACCESSOR = re.compile(r'(.*::)?(\w+_mut|input|get_input_stream|as_mut|iter_mut|deref_mut|get_mut|last_mut|borrow_mut|by_ref|get_interpreter|get_error_lister_dispatch|get_interpreter_mut|next|next_back|peek|get_token_source|split_at_mut|drain_view|interpreter|upcast\w*|deref|as_any\w*|borrow|get_\w+_mut)$')

READONLY = re.compile(r'(la|lt|lb|index|size|get_text\w*|get_\w+|is_\w+|has_\w+|len|text|test_pure|next|peek|fmt|hash|finish|chars)$')

def is_pure(name, argtys, ret_ty):
    last = name.rsplit('::', 1)[-1]
    if ACCESSOR.match(last) or READONLY.match(last) or name == 'HashMap::entry':     # what is done to the entry is the effect
        return True
    if any(t.startswith('&mut ') for t in argtys):
        return False
    if name in core.GUARDS:
        return True
    if name.startswith(('Iterator::', 'Option::', 'Result::', 'str::', '[T]::', 'char::', 'HashMap::', 'HashSet::', 'fmt::', 'cmp::')):
        return True
    if IMPURE_SHARED.match(last):
        return False
    return True


class Too(Exception):
    pass


class State:
    __slots__ = ('ctx', 'bb', 'env', 'log', 'val', 'ev', 'clos', 'trail', 'i', 'slots', 'inv')

    def __init__(self):
        self.inv = None

    def copy(self):
        s = State()
        s.inv = self.inv
        s.ctx, s.bb, s.i = self.ctx, self.bb, self.i
        s.env, s.log, s.val, s.ev = dict(self.env), self.log, dict(self.val), self.ev
        s.clos, s.trail, s.slots = self.clos, self.trail, self.slots
        return s


class Ev:
    __slots__ = ('kind', 'name', 'args', 'val', 'span', 'eff', 'fn')

    def __init__(self, kind, name, args, val, span, eff, fn):
        self.kind, self.name, self.args, self.val, self.span, self.eff, self.fn = kind, name, args, val, span, eff, fn

    def text(self):
        if self.kind == 'w':
            return '%s := %s' % (show(self.args[0]), show(self.val))
        return '%s(%s)' % (self.name, ', '.join(show(a) for a in self.args))


class Out:
    """one path outcome"""
    __slots__ = ('start', 'end', 'val', 'ev', 'ret', 'mu', 'trail', 'span', 'log')


# show() extensions -----------------------------------------------------------------
_base_show = core.show.__wrapped__
MUNAME = {}

def tbl_text(e):
    if isinstance(e[1], str):
        return '|' + e[1] + '|'
    rows = set()
    for conds, ret in e[1]:
        cs = ' & '.join(sorted(('' if p else '!') + core.show(a) for a, p in conds))
        rows.add((cs + ' => ' if cs else '') + (core.show(ret) if ret is not None else 'panic'))
    return '|' + ' / '.join(sorted(rows)) + '|'

def show2(e):
    k = e[0]
    if k == 'ver':
        return core.show(e[1]) + "'" + (str(e[2]) if e[2] > 1 else '')
    if k == 'slot':
        return core.show(e[2]) + ('#%d' % e[1] if e[1] else '')
    if k == 'mu':
        return '%' + e[2]
    if k == 'tbl':
        return tbl_text(e)
    return _base_show(e)

core.show = lru_cache(maxsize=None)(show2)
show = core.show


def strip_slot(e):
    return e[2] if e[0] == 'slot' else e


# ---------------------------------------------------------------------- fact theory
INTS = {}

def assume(val, a, p):
    """add atom a with polarity p to val (dict, mutated); False if contradictory"""
    if a[0] == 'c':
        return bool(a[1]) == p
    old = val.get(a)
    if old is not None:
        return old == p
    k = a[0]
    if k == 'is':
        for b, q in val.items():
            if b[0] == 'is' and b[1] == a[1] and q and b[2] != a[2]:
                if p:
                    return False
                # already known to be another variant: nothing new
                return True
        if p:
            for b in [b for b, q in val.items() if b[0] == 'is' and b[1] == a[1] and not q]:
                del val[b]
    elif k in ('eq', 'lt'):
        x = a[1]
        if a[2][0] == 'c' and isinstance(a[2][1], int):
            lo, hi, ne = bounds(val, x)
            c = a[2][1]
            if k == 'eq':
                if p and (c in ne or (lo is not None and c < lo) or (hi is not None and c > hi)):
                    return False
                if not p and lo is not None and lo == hi == c:
                    return False
                if not p and ((lo is not None and c < lo) or (hi is not None and c > hi)):
                    return True
                if p:      # drop facts implied by an equality
                    for b in [b for b in val if b[0] in ('eq', 'lt') and b[1] == x and b[2][0] == 'c']:
                        del val[b]
                if not p and lo is None:
                    pass
            else:
                if p and lo is not None and not lo < c:
                    return False
                if not p and hi is not None and not hi >= c:
                    return False
                if p and hi is not None and hi < c:
                    return True
                if not p and lo is not None and lo >= c:
                    return True
                # keep only the tightest bound; drop disequalities that the bound implies
                for b in [b for b, q in val.items() if b[0] == 'lt' and b[1] == x and b[2][0] == 'c' and q == p]:
                    del val[b]
                for b in [b for b, q in val.items() if b[0] == 'eq' and b[1] == x and b[2][0] == 'c' and not q]:
                    d = b[2][1]
                    if isinstance(d, int) and (d >= c if p else d < c):
                        del val[b]
        elif k == 'eq' and p and a[2][0] == 'c':
            for b, q in val.items():
                if b[0] == 'eq' and b[1] == x and q and b[2] != a[2] and b[2][0] == 'c':
                    return False
        elif k == 'eq':
            d = difference(a[1], a[2])
            if d is not None:
                lo, hi, ne = bounds(val, d)
                if p and ((lo is not None and lo > 0) or (hi is not None and hi < 0)):
                    return False
                if not p and lo == hi == 0:
                    return False
                if not p and ((lo is not None and lo > 0) or (hi is not None and hi < 0)):
                    return True
    val[a] = p
    return True

@lru_cache(maxsize=None)
def difference(x, y):
    """x - y in the canonical orientation used by lt atoms"""
    if not (is_int(x) and is_int(y)):
        return None
    c, t = as_lin(mk_add(x, y, -1))
    if c or not t:
        return None
    first = sorted(t.items(), key=lambda kv: show(kv[0]))[0]
    return mk_lin(0, t if first[1] > 0 else {k: -v for k, v in t.items()})

@lru_cache(maxsize=None)
def eq_of(d):
    """the eq atom saying the two-term difference d is 0"""
    if d[1] == 0 and len(d[2]) == 2 and sorted(c for _, c in d[2]) == [-1, 1]:
        (x, _), (y, _) = d[2]
        e = mk_cmp('Eq', x, y)
        return e if e[0] == 'eq' else None
    return None

def bounds(val, x):
    lo = hi = None
    ne = set()
    if x[0] == 'call' and x[1] == 'len':
        lo = 0
    if x[0] == 'lin':
        e = eq_of(x)
        if e is not None and e in val:
            if val[e]:
                return 0, 0, ne
            ne.add(0)
    for b, q in val.items():
        if b[0] in ('eq', 'lt') and b[1] == x and b[2][0] == 'c' and isinstance(b[2][1], int):
            c = b[2][1]
            if b[0] == 'eq':
                if q:
                    lo = c if lo is None else max(lo, c)
                    hi = c if hi is None else min(hi, c)
                else:
                    ne.add(c)
            elif q:
                hi = c - 1 if hi is None else min(hi, c - 1)
            else:
                lo = c if lo is None else max(lo, c)
    while lo is not None and lo in ne:
        lo += 1
    while hi is not None and hi in ne:
        hi -= 1
    return lo, hi, ne

def dnf(c, pol):
    """list of literal tuples equivalent to c == pol (disjoint)"""
    if c[0] == 'not':
        return dnf(c[1], not pol)
    if c[0] == 'c':
        return [()] if bool(c[1]) == pol else []
    if c[0] == 'and':
        parts = c[1]
        if pol:
            out = [()]
            for x in parts:
                out = [a + b for a in out for b in dnf(x, True)]
            return out
        out = []
        pre = [()]
        for x in parts:
            out += [a + b for a in pre for b in dnf(x, False)]
            pre = [a + b for a in pre for b in dnf(x, True)]
        return out
    return [((c, pol),)]

BOOLK = {'eq', 'lt', 'not', 'is', 'isok', 'and'}

# ------------------------------------------------------------------------ loop info
def loops_of(fn):
    """{head bb: set of body bbs} of natural loops"""
    c = getattr(fn, '_loops', None)
    if c is not None:
        return c
    n = len(fn.bbs)
    # dominators (iterative)
    order, seen = [], set()
    def dfs(r):
        st = [(r, iter(fn.succ[r]))]
        seen.add(r)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(fn.succ[y])))
                    break
            else:
                order.append(x)
                st.pop()
    dfs(0)
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in fn.pred[b] if p in idom and p in idx]
            if not ps:
                continue
            d = ps[0]
            for p in ps[1:]:
                a, c2 = d, p
                while a != c2:
                    while idx[a] > idx[c2]:
                        a = idom[a]
                    while idx[c2] > idx[a]:
                        c2 = idom[c2]
                d = a
            if idom.get(b) != d:
                idom[b] = d
                ch = True
    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in fn.succ[b]:
            if s in idx and dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st += fn.pred[x]
    fn._loops = loops
    return loops

def assigned_in(fn, body):
    s = set()
    for b in body:
        for st in fn.bbs[b]['s']:
            pl = st[0]
            if len(pl) == 1 or pl[1] not in ('*', '*raw'):
                s.add(pl[0])
        t = fn.bbs[b]['t']
        if t[0] == 'call' and t[3] and (len(t[3]) == 1 or t[3][1] not in ('*', '*raw')):
            s.add(t[3][0])
    return s

def liveness(fn):
    c = getattr(fn, '_live', None)
    if c is not None:
        return c
    n = len(fn.bbs)
    use = [set() for _ in range(n)]
    de = [set() for _ in range(n)]
    for i, b in enumerate(fn.bbs):
        if b['cl']:
            continue
        for st in b['s']:
            for x in rv_all_locals2(st[1]) | pl_index_locals(st[0]) | set(st[0][:1] if len(st[0]) > 1 else []):
                if x not in de[i]:
                    use[i].add(x)
            if len(st[0]) == 1:
                de[i].add(st[0][0])
        t = b['t']
        tl = set()
        if t[0] == 'switch':
            tl |= op_locals2(t[1])
        elif t[0] == 'call':
            for a in t[2]:
                tl |= op_locals2(a)
            if t[3] and len(t[3]) > 1:
                tl |= {t[3][0]} | pl_index_locals(t[3])
        elif t[0] == 'return':
            tl.add(0)
        for x in tl:
            if x not in de[i]:
                use[i].add(x)
        if t[0] == 'call' and len(t[3]) == 1:
            de[i].add(t[3][0])
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            o = set()
            for s in fn.succ[i]:
                o |= live[s]
            v = use[i] | (o - de[i])
            if v != live[i]:
                live[i] = v
                ch = True
    fn._live = live
    return live

def pl_index_locals(pl):
    return {p[1] for p in pl[1:] if isinstance(p, list) and p[0] == 'i'}

def op_locals2(o):
    return {o[1][0]} | pl_index_locals(o[1]) if o[0] in 'cm' else set()

def rv_all_locals2(r):
    k = r[0]
    if k in ('use', 'cast', 'rep'):
        return op_locals2(r[1])
    if k in ('ref', 'raw', 'discr'):
        return {r[1][0]} | pl_index_locals(r[1])
    if k == 'un':
        return op_locals2(r[2])
    if k == 'bin':
        return op_locals2(r[2]) | op_locals2(r[3])
    if k == 'agg':
        s = set()
        for o in r[3]:
            s |= op_locals2(o)
        return s
    return set()

def addr_taken(fn):
    """locals mutably borrowed as a whole or in part (not through a deref)"""
    c = getattr(fn, '_at', None)
    if c is None:
        c = set()
        for b in fn.bbs:
            if b['cl']:
                continue
            for st in b['s']:
                r = st[1]
                if r[0] in ('ref', 'raw') and (len(r) < 3 or r[2]) and '*' not in r[1][1:] and '*raw' not in r[1][1:]:
                    c.add(r[1][0])
        fn._at = c
    return c

SETOPS = {'BitSet::insert': ('BitSet::contains', True), 'HashSet::insert': ('HashSet::contains', True),
          'BitSet::remove': ('BitSet::contains', False), 'HashSet::remove': ('HashSet::contains', False)}

def used_locals(fn):
    """locals whose value is read"""
    c = getattr(fn, '_ul', None)
    if c is None:
        c = set()
        def go(x):
            if isinstance(x, list):
                if len(x) > 1 and x[0] in ('c', 'm') and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
                    c.add(x[1][0])
                elif len(x) > 1 and x[0] in ('ref', 'raw', 'disc', 'len') and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
                    c.add(x[1][0])
                for y in x:
                    go(y)
        for b in fn.bbs:
            for st in b['s']:
                go(st[1])
            go(b['t'])
        c.add(0)
        fn._ul = c
    return c

def valrefs(fn):
    """temporaries that only ever hold a shared reference to a local variable (or a part of it)"""
    c = getattr(fn, '_vr', None)
    if c is not None:
        return c
    df = {}
    for b in fn.bbs:
        for st in b['s']:
            if len(st[0]) == 1:
                df.setdefault(st[0][0], []).append(st[1])
        t = b['t']
        if t[0] == 'call' and t[3] and len(t[3]) == 1:
            df.setdefault(t[3][0], []).append(('deref', t[2][0][1][0]) if t[1].get('n') == 'Deref::deref' and t[2] and t[2][0][0] in 'cm' and len(t[2][0][1]) == 1 else None)
    c = set()
    ch = True
    while ch:
        ch = False
        for l, rs in df.items():
            if l in c or len(rs) != 1 or rs[0] is None or l <= fn.nargs:
                continue
            r = rs[0]
            ok = False
            if r[0] == 'ref' and (len(r) < 3 or not r[2]):
                pl = r[1]
                d = [i for i, p in enumerate(pl[1:]) if p in ('*', '*raw')]
                if not d:
                    ok = not is_ref_ty(fn.local_ty(pl[0])) or len(pl) > 1
                else:
                    ok = d == [0] and pl[0] in c
            elif r[0] == 'use' and r[1][0] in 'cm' and len(r[1][1]) == 1:
                ok = r[1][1][0] in c
            elif r[0] == 'deref':
                ok = r[1] in c
            if ok:
                c.add(l)
                ch = True
    fn._vr = c
    return c

def isval(ctx, l):
    return l in valrefs(ctx.fn) or l in getattr(ctx, 'valargs', ())

def droplfags(fn):
    return fn.flow()[2]


# ---------------------------------------------------------------------- the analysis
LOOPHOF = {'Iterator::any': ('any',), 'Iterator::all': ('all',)}

GUARDTY = re.compile(r'&(mut )?(\w+::)*(RefMut|Ref|\w*Guard)<')
SPLIT = {'Option::flatten', 'Option::and', 'Option::ok_or', 'Result::ok', 'Result::err', 'bool::then_some'}

class Paths:
    def __init__(self, prog, inline, opaque=(), maxdepth=10, cap=6000, pathcap=60000, inv=False, bulk=False, strong=False):
        """inline(fn) -> bool: which crate functions are inlined; closures always are.
        inv: loops are entered after their exit test has passed (a path that fails it at once goes on behind the loop).
        bulk: filling a set or a string from an iterator is one effect, not a loop."""
        self.prog = prog
        self.bulk = bulk
        self.strong = strong     # loops keep every entry fact their body preserves, tested again or not
        self.inv = inv
        self.an = Analysis(prog, opaque=opaque, inline_only=inline, maxdepth=maxdepth)
        self.cap = cap
        self.pathcap = pathcap
        self.funcs = set()
        self.sites = 0
        self._clo = {}
        self.owned = set()       # calls that return a value of their own, nothing borrowed
        self.ownedv = set()      # calls that do not return a reference (but may return one inside an Option)

    # --- public
    def run(self, name, selfarg=None):
        root = self.an.root(name, selfarg)
        return self._run(root, {(root.id, i + 1): a for i, a in enumerate(root.args)})

    def _run(self, root, env):
        self.root = root
        self.ctxfn = {root.id: root.fn}
        facts = {}
        self.frozen = set()
        for rnd in range(8):
            outs, newfacts, munames = self._round(root, env, facts)
            fz = self.frozen | self._stale(outs)
            if newfacts == facts and fz == self.frozen:
                break
            facts = newfacts
            if fz != self.frozen:
                self.frozen, facts = fz, {}
        else:
            return outs
        return self._strengthen(root, env, facts, outs) if self.strong and facts else outs

    def _strengthen(self, root, env, facts, outs):
        """start from the facts that hold on entering each loop, drop those its body does not preserve"""
        heads = dict(self.heads)
        def back(arrivals):
            g = {}
            for a, b, _ in arrivals:
                g.setdefault(a, set()).add(b)
            def reach(a):
                seen, st = {a}, [a]
                while st:
                    for y in g.get(st.pop(), ()):
                        if y not in seen:
                            seen.add(y)
                            st.append(y)
                return seen
            r = {l: reach(l) for l in {b for _, b, _ in arrivals}}
            return lambda a, b: a in r.get(b, ())
        def meet(ds):
            ds = list(ds)
            return {a: p for a, p in ds[0].items() if all(d.get(a) == p for d in ds[1:])} if ds else {}
        want = facts
        for _ in range(2):
            isback = back(self.arrivals)
            new = {l: {**want.get(l, {}), **meet(fv for a, b, fv in self.arrivals if b == l and not isback(a, l))} for l in facts}
            if new == want:
                break
            want = new
            o2, got, _ = self._round(root, env, want)
            if self.heads != heads:
                return outs
        for _ in range(5):
            if all(got.get(l, {}).get(a) == p for l, d in want.items() for a, p in d.items()) if want is not facts else True:
                return o2 if want is not facts else outs
            want = {l: {a: p for a, p in d.items() if got.get(l, {}).get(a) == p} for l, d in want.items()}
            o2, got, _ = self._round(root, env, want)
            if self.heads != heads:
                return outs
        return outs

    def _stale(self, outs):
        """(loop head, local): values read from memory before a loop that changes that memory"""
        g = {}
        for o in outs:
            if o.end.startswith('L') and o.start != 'E':
                g.setdefault(o.start, set()).add(o.end)
        def reach(a):
            seen, st = set(), [a]
            while st:
                for y in g.get(st.pop(), ()):
                    if y not in seen:
                        seen.add(y)
                        st.append(y)
            return seen
        r = {l: reach(l) for l in g}
        res = set()
        for (key, env, clos, ex), lab in self.heads.items():
            if lab not in r.get(lab, ()):
                continue
            logs = [o.log for o in outs if o.start in r and o.end in r and o.log and (o.start == lab or (o.start in r[lab] and lab in r[o.start])) and (o.end == lab or lab in r[o.end])]
            if not logs:
                continue
            for k, v in env:
                if memread(v) and k in self.valuelocals(env) and any(not current(v, l) for l in logs):
                    res.add((key, k))
        return res

    def valuelocals(self, env):
        return {k for k, v in env if k[0] in self.ctxfn and not is_ref_ty(self.ctxfn[k[0]].local_ty(k[1]))}

    def _round(self, root, env0, facts):
        outs = []
        arr = {}            # head key -> intersected facts
        heads = {}          # head key -> label
        mus = {}
        st = State()
        st.ctx, st.bb, st.i, st.env, st.log, st.val, st.ev, st.clos, st.trail, st.slots = root, 0, 0, dict(env0), (), {}, (), (), (), ()
        self.heads, self.arr, self.outs, self.startq = heads, arr, outs, []
        self.arrivals = []
        self.steps = 0
        self.facts = facts
        self._segment('E', st, outs)
        done = set()
        while self.startq:
            key, label, s = self.startq.pop()
            sk = label
            if sk in done:
                continue
            done.add(sk)
            s.val = dict(facts.get(label, {}))
            self._segment(label, s, outs)
            if len(done) > 400:
                raise Too('loop heads')
        return outs, {k: v for k, v in arr.items()}, mus

    # --- segment exploration
    def _segment(self, label, st, outs):
        self.cur = label
        self.work = work = [st]
        first = True
        while work:
            s = work.pop()
            self.steps += 1
            if self.steps > self.pathcap or len(outs) > self.cap:
                raise Too('paths')
            self._step(s, work, first and label != 'E')
            first = False

    def _out(self, s, end, ret=None, mu=(), span=None):
        o = Out()
        ev = tuple(self.tab_ev(e) for e in s.ev)
        if ret is not None and self.root.fn.local_ty(0) == '()':
            ret = ('c', 't:()')
        if ret is not None:
            ret = self.tabulate(ret)
            # a by-value argument updated and handed on: the same as storing into it
            memo = {}
            ret2 = self.settle(ret, memo)
            if memo:
                ret = ret2
                for q, x in memo.values():
                    if not any(e.kind == 'w' and e.args[0] == q and e.val == x for e in ev):
                        ev = ev + (Ev('w', None, (q,), x, span, (q,), self.root.fn.name),)
        o.start, o.end, o.val, o.ev, o.ret, o.mu, o.trail, o.span, o.log = self.cur, end, dict(s.val), ev, ret, mu, s.trail, span, s.log
        self.outs.append(o)

    def settle(self, e, out):
        if not has_with(e):
            return e
        if e[0] == 'with' and e[1][0] == 'arg' and self.owned_arg(e[1]) and all(k != '[..]' and st for k, v, st in e[2]):
            for k, v, st in e[2]:
                for q, x in self.fieldwise(self.blank(), (), mk_field(e[1], k), v):
                    out[q] = (q, x)
            return e[1]
        return tuple(self.settle(x, out) if isinstance(x, tuple) else x for x in e)

    def owned_arg(self, a):
        i = a[1]
        f = self.root.fn
        if not isinstance(i, int) or i >= f.nargs:
            return False
        ty = f.local_ty(i + 1)
        return not ty.startswith(('&', 'Rc<', 'Arc<', '*')) and ty not in SCALAR

    def blank(self):
        s = State()
        s.ctx, s.bb, s.i, s.env, s.log, s.val, s.ev, s.clos, s.trail, s.slots = self.root, 0, 0, {}, (), {}, (), (), (), ()
        return s

    def tabulate(self, e):
        """closures that leave the function as values are shown by what they compute"""
        if not has_closure(e):
            return e
        if e[0] == 'closure':
            if self.prog.fn(e[1]) is None:
                return e
            r = self.clo_table(e, 'value', ())
            return r if r is not None else e
        return tuple(self.tabulate(x) if isinstance(x, tuple) else x for x in e)

    def tab_ev(self, e):
        if not any(has_closure(a) for a in e.args) and not (e.val is not None and has_closure(e.val)):
            return e
        return Ev(e.kind, e.name, tuple(self.tabulate(a) for a in e.args), self.tabulate(e.val) if e.val is not None else None, e.span, e.eff, e.fn)

    def _commit(self, s, armed):
        """the walk from a loop head through its test got past it (armed) or met an effect first: enter the loop"""
        mode, cid, body, snap, key, ms, mut, nev = s.inv
        s.bb = None
        if mode != 'peek':
            return          # an armed entry always passes the test first
        n = snap.copy()
        n.val = dict(s.val)
        n.inv = None
        label, m = self._arrive(n, key, ms, mut, armed=armed)
        m.inv = ('assume', cid, body, None, key, (), (), 0) if armed else None
        self.startq.append((key, label, m))

    def _passed(self, n, fn, bb, target):
        """a branch of the loop test was taken"""
        mode, cid, body, snap, key, ms, mut, nev = n.inv
        if n.ctx.id != cid or bb not in body:
            return
        if target not in body:
            if mode == 'assume':
                n.bb = None
            n.inv = None
            return
        if all(x in body or (fn.bbs[x]['t'][0] == 'unreachable' and not fn.bbs[x]['s']) for x in fn.succ[bb]):
            return
        if mode == 'peek':
            self._commit(n, True)
        n.inv = None

    def _arrive(self, s, key, muset, mut=(), extra=None, armed=False):
        """state s reaches cut point `key`; muset: [(ctxid, local)] loop variables; mut: slots modified in the
        loop; extra: terms of the loop's hidden state (iterator, accumulator) -> (label, state[, extra])"""
        ctx = s.ctx
        upd = []
        env = dict(s.env)
        base = '_'.join(str(x) for x in key)
        sub = {}
        # a local computed from memory before a loop that changes that memory keeps its old value
        muset = set(muset) | {k for k in env if (key, k) in self.frozen}
        for k in sorted(muset):
            if k in env:
                if env[k][0] == 'slot' and iter_counters(self.peek(s, env[k])):
                    continue
                v = self.peek(s, env[k])
                nm = '%s.%d' % (base, k[1]) if k[0] == key[0] else '%s.%dx%d' % ((base,) + k)
                upd.append((nm, v))
                mu = ('mu', key, nm)
                if env[k][0] == 'slot':
                    sub[env[k]] = ('slot', 0, mu)
                else:
                    env[k] = mu
        c = 1000
        for sl in mut:
            if sl in sub:
                continue
            v = self.load(s, sl)
            nm = '%s.%d' % (base, c)
            c += 1
            upd.append((nm, v))
            sub[sl] = ('slot', 0, ('mu', key, nm))
        c = 2000
        for k in sorted(env):
            v = env[k]
            if v[0] == 'slot' and v not in sub:
                x = self.load(s, v)
                cs = iter_counters(x)
                if cs:
                    for i, (path, cur) in enumerate(cs):
                        nm = '%s.%d' % (base, c)
                        c += 1
                        upd.append((nm, cur))
                        x = set_counter(x, path, ('mu', key, nm))
                    sub[v] = ('slot', 0, x)
                elif x != v[2]:
                    sub[v] = ('slot', v[1], x)
        if sub:
            env = {k: subst_t(v, sub) for k, v in env.items()}
        ex = None
        if extra is not None:
            ex = []
            c = 3000
            for x in extra:
                x = subst_t(x, sub)
                cs = iter_counters(x)
                if cs:
                    for path, cur in cs:
                        nm = '%s.%d' % (base, c)
                        c += 1
                        upd.append((nm, cur))
                        x = set_counter(x, path, ('mu', key, nm))
                elif x[0] == 'acc':
                    nm = '%s.%d' % (base, c)
                    c += 1
                    upd.append((nm, x[1]))
                    x = ('acc', ('mu', key, nm))
                ex.append(x)
            ex = tuple(ex)
        clos = tuple((a, b, c2, m, h, subst_t(kk, sub) if isinstance(kk, tuple) else kk) for a, b, c2, m, h, kk in s.clos) if sub else s.clos
        # one label per distinct loop-entry environment (loop-invariant values included)
        hk = (key, frozenset(env.items()), clos, (ex, armed) if armed else ex)
        label = self.heads.get(hk)
        if label is None:
            label = 'L%d' % (len(self.heads) + 1)
            self.heads[hk] = label
        self._out(s, label, mu=tuple(upd))
        # facts that survive: no versioned terms, not about places this path modified, no loop variables of this head
        fv = {}
        for a, p in s.val.items():
            if has_ver(a) or has_mu(a, key):
                continue
            if any(conf_log(e, x) for e in s.log for x in places(a)):
                continue
            fv[a] = p
        self.arrivals.append((self.cur, label, fv))
        old = self.arr.get(label)
        self.arr[label] = fv if old is None else {a: p for a, p in old.items() if fv.get(a) == p}
        n = s.copy()
        n.env = env
        n.clos = clos
        n.log, n.ev, n.trail = (), (), ()
        n.slots = tuple(v[2] for v in n.env.values() if v[0] == 'slot')
        return (label, n) if extra is None else (label, n, ex)

    # --- iterators
    def _iter_heads(self, s, fn, body):
        """iterators advanced in this loop get an explicit position"""
        for b in body:
            t = fn.bbs[b]['t']
            if t[0] == 'call' and t[1].get('n') == 'Iterator::next' and t[2] and t[2][0][0] in 'cm':
                src = ref_source(fn, body, t[2][0][1][0])
                if src is None:
                    continue
                e = s.env.get((s.ctx.id, src))
                if e is not None and e[0] == 'slot':
                    v = self.load(s, e)
                    x = init_iter(v, fn.local_ty(src))
                    if x is not None and x != v:
                        s.log = s.log + (('w', e, x),)

    def _literal(self, s, fn, body):
        """the loop runs over the elements of an array literal: taken one by one"""
        for b in body:
            t = fn.bbs[b]['t']
            if t[0] == 'call' and t[1].get('n') == 'Iterator::next' and t[2] and t[2][0][0] in 'cm':
                src = ref_source(fn, body, t[2][0][1][0])
                e = s.env.get((s.ctx.id, src)) if src is not None else None
                if e is not None and e[0] == 'slot':
                    v = self.load(s, e)
                    if literal_iter(init_iter(v, fn.local_ty(src)) or v):
                        return True
        return False

    def _mutated_slots(self, s, fn, body):
        out = []
        cid = s.ctx.id
        for l in mutbor(fn, body):
            e = s.env.get((cid, l))
            if e is None:
                continue
            r = root_slot(e)
            if r is not None and r not in out and not iter_counters(self.load(s, r)):
                out.append(r)
        return out

    def _next_call(self, s, t, args, tys, vals, sp, work):
        """Iterator::next on a library iterator"""
        a = args[0]
        ty = tys[0]
        ty = ty[5:] if ty.startswith('&mut ') else ty
        it = vals[0]
        slot = a if a[0] == 'slot' else None
        if slot is None and a[0] == 'ver' and a[1][0] == 'slot':
            slot = a[1]
        if slot is not None:
            x = init_iter(it, ty)
            if x is not None:
                it = x
        core_, layers = peel(it)
        fn = s.ctx.fn
        head = None
        if any(k in ('filter', 'filter_map') for k, _ in layers):
            hs = [(len(body), h) for h, body in loops_of(fn).items() if s.bb in body]
            head = min(hs)[1] if hs else None
            if head is None:
                layers, core_ = (), it
        self._advance(s, core_, layers, it, slot, ('next', s.bb, head), sp, work)
        return False

    def _advance(self, s, core_, layers, it, slot, sink, sp, work):
        """one step of the iterator it = layers(core_): forks into element / end"""
        st = step_counter(core_)
        if st is not None and (slot is not None or sink[0] == 'hof'):
            cond, el, nx = st
            it2 = rebuild(nx, layers)
            def some(n):
                if slot is not None:
                    n.log = n.log + (('w', slot, it2),)
                self._feed(n, el, layers, 0, sink[:2] + (it2,) + sink[3:] if sink[0] == 'hof' else sink, work)
            self.fork(s, [(cond, some), (mk_not(cond), lambda n: self._sink(n, sink, None, work))], work)
            return
        # unknown iterator: a call that changes it
        src = slot if slot is not None else core_
        nv = ('call', 'Iterator::next', (self.load(s, src) if src[0] == 'slot' else src,))
        k = sum(1 for e in s.log if conf_log(e, src, True)) if src[0] in PLACEY else 0
        cond = ('is', ('ver', nv, k) if k else nv, 'Some')
        el = self.an.fix_app(elem_of(core_))
        if k:
            el = ('ver', el, k)
        def run(n, act):
            ev = Ev('call', 'Iterator::next', (core_,), None, sp, (src,), n.ctx.fn.name)
            n.ev = n.ev + (ev,)
            n.log = n.log + (('e', (src,)),)
            n.trail = n.trail + ((sp, 'Iterator::next'),)
            act(n)
        self.fork(s, [(cond, lambda n: run(n, lambda m: self._feed(m, el, layers, 0, sink, work))),
                      (mk_not(cond), lambda n: run(n, lambda m: self._sink(m, sink, None, work)))], work)

    def _feed(self, s, el, layers, i, sink, work):
        while i < len(layers):
            kind, clo = layers[i]
            if kind == 'enumerate':
                el = ('agg', 'tuple', None, (('0', ('idx', ('c', 't:filtered'))), ('1', el)))
                i += 1
                continue
            if self.enterable(s, clo):
                self._enter(s, clo, [el], 'iter', kind, (el, layers, i, sink))
                return
            rv = self._callfn(s, clo, (el,))
            self._fed(s, el, layers, i, sink, rv, work)
            s.bb = None
            return
        self._sink(s, sink, el, work)

    def _fed(self, s, el, layers, i, sink, rv, work):
        """closure of layer i returned rv for element el"""
        kind = layers[i][0]
        if kind == 'map':
            n = s.copy()
            n.bb = 0
            self._feed(n, rv, layers, i + 1, sink, work)
            if n.bb is not None:
                work.append(n)
        elif kind == 'filter':
            self.fork(s, [(boolf(rv), lambda n: self._feed(n, el, layers, i + 1, sink, work)),
                          (mk_not(boolf(rv)), lambda n: self._sink(n, sink, 'again', work))], work)
        else:
            cond = mk_is(rv, 'Some')
            self.fork(s, [(cond, lambda n: self._feed(n, self.an.fix_app(mk_payload(rv, 'Some', '0')), layers, i + 1, sink, work)),
                          (mk_not(cond), lambda n: self._sink(n, sink, 'again', work))], work)

    def _sink(self, s, sink, el, work):
        """element el (None: exhausted, 'again': skipped) reaches its consumer"""
        if sink[0] == 'next':
            _, bb, head = sink
            s.bb = bb
            t = s.ctx.fn.bbs[bb]['t']
            if el == 'again':
                s.bb, s.i = head, 0
            elif el is None:
                self._dest(s, t, ('agg', 'Option', 'None', ()))
            else:
                self._dest(s, t, ('agg', 'Option', 'Some', (('0', el),)))
            return
        _, st, it = sink
        name, bb, clo, acc, ty = st
        s.bb = bb
        t = s.ctx.fn.bbs[bb]['t']
        if el == 'again':
            self._hofhead(s, st, it)
            return
        if el is None:
            v = {'Iterator::any': C(0), 'Iterator::all': C(1), 'Iterator::for_each': ('c', 't:()'), }.get(name)
            if name.endswith('::extend'):
                v = ('c', 't:()')
            if name in ('Iterator::find', 'Iterator::find_map', 'Iterator::position'):
                v = ('agg', 'Option', 'None', ())
            if v is None:
                v = self.load(s, acc) if acc[0] == 'slot' else acc[1]
            self._dest(s, t, v)
            return
        if clo is None:
            if name == 'Iterator::sum':
                acc = ('acc', mk_add(acc[1], el))
            elif name == 'Iterator::count':
                acc = ('acc', mk_add(acc[1], C(1)))
            else:
                ty0 = s.ctx.fn.local_ty(t[3][0]) if name in BUILD else s.ctx.fn.local_ty(t[2][0][1][0])[5:]
                self._append(s, coll_kind(ty0)[1], acc, el, s.ctx.fn.bbs[bb]['sp'])
            self._hofhead(s, (name, bb, clo, acc, ty), it)
            return
        cargs = [acc if acc[0] == 'slot' else acc[1], el] if name == 'Iterator::fold' else [el]
        if clo[0] == 'fn' and not self.enterable(s, clo):
            rv = self._callfn(s, clo, cargs)
            self._hofret(s, el, st, it, rv, work)
            s.bb = None
            return
        self._enter(s, clo, cargs, 'sink', name, (el, st, it))

    def _append(self, s, fn, coll, el, sp):
        if fn == 'String::push_str' and el[0] == 'c' and type(el[1]) is int:
            el = ('c', 's:' + chr(el[1]))
        ev = Ev('call', fn, (coll, el), None, sp, (coll,), s.ctx.fn.name)
        s.ev = s.ev + (ev,)
        s.log = s.log + (('e', (coll,)),)

    def _hofret(self, s, el, st, it, rv, work):
        name, bb, clo, acc, ty = st
        t = s.ctx.fn.bbs[bb]['t']
        s.bb = bb
        again = lambda n: self._hofhead(n, st, it)
        if name in ('Iterator::any', 'Iterator::all', 'Iterator::find', 'Iterator::position'):
            stop = mk_not(boolf(rv)) if name == 'Iterator::all' else boolf(rv)
            res = {'Iterator::any': C(1), 'Iterator::all': C(0)}.get(name)
            if name == 'Iterator::find':
                res = ('agg', 'Option', 'Some', (('0', el),))
            nst = st
            if name == 'Iterator::position':
                res = ('agg', 'Option', 'Some', (('0', acc[1]),))
                nst = (name, bb, clo, ('acc', mk_add(acc[1], C(1))), ty)
            self.fork(s, [(stop, lambda n: self._dest(n, t, res)), (mk_not(stop), lambda n: self._hofhead(n, nst, it))], work)
            return
        if name == 'Iterator::find_map':
            c = mk_is(rv, 'Some')
            self.fork(s, [(c, lambda n: self._dest(n, t, rv)), (mk_not(c), again)], work)
            return
        if name == 'Iterator::fold':
            if acc[0] == 'slot':
                if rv != self.load(s, acc):
                    s.log = s.log + (('w', acc, rv),)
                self._hofhead(s.copy(), st, it)
                return
            if rv[0] in BOOLK:
                for pol in (True, False):
                    self.fork(s, [(rv if pol else mk_not(rv), lambda n, pol=pol: self._hofhead(n, (name, bb, clo, ('acc', C(int(pol))), ty), it))], work)
                return
            st = (name, bb, clo, ('acc', rv), ty)
        n = s.copy()
        self._hofhead(n, st, it)
        return

    def _sink_call(self, s, t, name, args, tys, vals, sp, work):
        """a consuming iterator call, analysed as the loop it is; None if not modelled"""
        ctx = s.ctx
        it = vals[0]
        clo = None
        acc = C(0)
        ci = {'Iterator::fold': 2}.get(name, 1)
        rty = ctx.fn.local_ty(t[3][0]) if len(t[3]) == 1 else ''
        ity = tys[0]
        if name in BUILD:
            if coll_kind(rty) is None or self.bulk and not rty.startswith('Vec<'):
                return None
            acc = self._fresh(s, coll_kind(rty)[0])
        elif name.endswith('::extend'):
            if not tys[0].startswith('&mut ') or coll_kind(tys[0][5:]) is None or len(t[2][0][1]) != 1 or self.bulk and not tys[0].startswith('&mut Vec<'):
                return None
            acc, it, ity = args[0], vals[1], tys[1]
        elif name in ('Iterator::sum', 'Iterator::count'):
            acc = ('acc', C(0))
        else:
            if ci >= len(vals):
                return None
            clo = vals[ci]
            if clo[0] == 'closure':
                if not self.an.prog.fn(clo[1]) or clo[1] in ctx.chain or len(s.clos) >= 6:
                    return None
            elif clo[0] != 'fn':
                return None
            if name == 'Iterator::fold':
                acc = ('acc', vals[1])
                cf = self.an.prog.fn(clo[1]) if clo[0] == 'closure' else None
                if cf is not None and 2 in addr_taken(cf) and not is_ref_ty(cf.local_ty(2)):
                    v = unslot1(vals[1])
                    acc = ('slot', sum(1 for y in s.slots if y == v), v)
                    s.slots = s.slots + (v,)
            elif name == 'Iterator::position':
                acc = ('acc', C(0))
        x = init_iter(it, ity)
        if x is not None:
            it = x
        if name in BUILD and not peel(it)[1] and step_counter(peel(it)[0]) is None:
            return None
        self._hofhead(s, (name, s.bb, clo, acc, ity), it)
        return False

    def _fresh(self, s, new):
        v = ('call', new, ())
        n = sum(1 for x in s.slots if x == v)
        s.slots = s.slots + (v,)
        return ('slot', n, v)

    def _hofhead(self, s, st, it, armed=False):
        name, bb, clo, acc, ty = st
        if s.inv:
            self._commit(s, False)
            return
        if literal_iter(peel(it)[0]):
            s.bb = bb
            self._advance(s, *peel(it), it, None, ('hof', st, it), s.ctx.fn.bbs[bb]['sp'], self.work)
            s.bb = None
            return
        if self.inv and not armed:
            sc = step_counter(peel(it)[0])
            if sc is not None:
                s.bb = bb
                self.fork(s, [(sc[0], lambda n: self._hofhead(n, st, it, True)), (mk_not(sc[0]), lambda n: self._sink(n, ('hof', st, it), None, self.work))], self.work)
                s.bb = None
                return
        key = (s.ctx.id, bb, 'hof')
        mut = []
        if clo is not None and clo[0] == 'closure' and not self._clo_pure(clo):
            import mods
            md = mods.mods(self.prog).get(self.an.prog.fn(clo[1]).name)
            ps = md.p.get(0, ()) if md is not None else None
            for un, u in clo[2]:
                if ps is not None and not any(q[:1] in ((), (un,)) for q in ps):
                    continue
                r = root_slot(u)
                if r is not None and r not in mut and not iter_counters(self.load(s, r)):
                    mut.append(r)
        if acc[0] == 'slot' and acc not in mut:
            mut.append(acc)
        label, n, ex = self._arrive(s, key, (), mut, (clo if clo is not None else ('c', 't:-'), acc, it), armed=armed)
        clo2, acc2, it2 = ex
        if armed:
            n.inv = 'hof'
        n.i = ('hof', (name, bb, clo2 if clo is not None else None, acc2, ty), it2)
        n.bb = bb
        self.startq.append((key, label, n))
        s.bb = None

    def _clo_pure(self, clo):
        f = self.an.prog.fn(clo[1])
        return f is not None and f.name not in effectful(self.prog) and not any(st[0][1:2] == ['*'] for b in f.bbs for st in b['s'])

    def _step(self, s, work, resume=False):
        """run s to the next branch/cut"""
        an = self.an
        while True:
            ctx, fn = s.ctx, s.ctx.fn
            if s.inv and len(s.ev) > s.inv[7]:
                self._commit(s, False)
                return
            if s.i == 0 and not resume:
                lp = loops_of(fn)
                if s.bb in lp and not self._literal(s, fn, lp[s.bb]):
                    if s.inv:
                        self._commit(s, False)
                        return
                    key = (ctx.id, s.bb)
                    live = liveness(fn)[s.bb]
                    at = addr_taken(fn)
                    ms = {(ctx.id, l) for l in assigned_in(fn, lp[s.bb]) if l in live and l not in droplfags(fn)}
                    self._iter_heads(s, fn, lp[s.bb])
                    mut = self._mutated_slots(s, fn, lp[s.bb])
                    # prune dead locals
                    for k in [k for k in s.env if k[0] == ctx.id and k[1] not in live]:
                        del s.env[k]
                    if self.inv:
                        s.inv = ('peek', ctx.id, lp[s.bb], s.copy(), key, ms, mut, len(s.ev))
                    else:
                        label, n = self._arrive(s, key, ms, mut)
                        self.startq.append((key, label, n))
                        return
            resume = False
            self.funcs.add(fn.name)
            b = fn.bbs[s.bb]
            if self._stmts(s, b, work):
                return
            t = b['t']
            k = t[0]
            if k == 'goto':
                s.bb, s.i = t[1], 0
            elif k == 'assert':
                s.bb, s.i = t[3], 0
            elif k == 'drop':
                s.bb, s.i = t[2], 0
            elif k == 'switch':
                self._switch(s, b, t, work)
                return
            elif k == 'return':
                if not self._return(s, work):
                    return
            elif k == 'call':
                if not self._call(s, b, t, work):
                    return
            else:
                return

    # --- memory
    def load(self, s, p, isref=False):
        """value read from place p now; a reference is only changed by an explicit store to it"""
        if p[0] == 'arg':
            return p
        if isref and p[0] != 'slot':
            for e in reversed(s.log):
                if e[0] == 'w' and e[1] == p:
                    return e[2]
            return p
        if p[0] == 'slot':
            init = p[2]
            k = 0
            val = None
            for e in reversed(s.log):
                if e[0] == 'w' and e[1] == p:
                    val = e[2]
                    break
                if e[0] == 'w':
                    suf = rel_suffix(p, e[1]) if p in prefixes_c(e[1]) else None
                    if overlaps(e[1], p):
                        k += 1
                elif conf_log(e, p):
                    k += 1
            if k == 0:
                return init if val is None else val
            return ('ver', p, k)
        if p[0] not in PLACEY or not s.log:
            return unslot(p) if p[0] in PLACEY else p
        if p[0] == 'ver':
            return p
        b = p
        while b[0] in ('f', 'elem', 'some', 'last', 'err', 'as'):
            b = b[1]
        if b[0] == 'ver' and b[2] == sum(1 for e in s.log if conf_log(e, b[1])):
            return p            # nothing changed since
        if b[0] == 'call' and b in self.owned and not any(conf_log(e, p) and any(b in prefixes_c(x) for x in ([e[1]] if e[0] == 'w' else e[1])) for e in s.log):
            return p            # a value of its own, made by that call and untouched since
        k = 0
        for e in reversed(s.log):
            if e[0] == 'w':
                q = e[1]
                if q == p:
                    return e[2] if k == 0 else ('ver', p, k)
                if q in prefixes_c(p):
                    suf = rel_suffix(q, p)
                    if suf is not None:
                        if k:
                            return ('ver', p, k)
                        v = e[2]
                        for kind, n in suf:
                            v = mk_field(v, n) if kind == 'f' else mk_payload(v, 'Some', '0')
                        return v
                    k += 1
                elif overlaps(q, p) and not distinct_ix(q, p):
                    k += 1
            elif conf_log(e, p):
                k += 1
        return ('ver', p, k) if k else unslot(p)

    def peek(self, s, v):
        return self.load(s, v) if v[0] == 'slot' else v

    def place(self, s, pl):
        """-> (term, through_memory)"""
        ctx = s.ctx
        L = pl[0]
        e = s.env.get((ctx.id, L))
        if e is None:
            e = ('loc', L)
        mem = e[0] == 'slot'
        if e[0] == 'slot' and len(pl) > 1 and not (pl[1] in ('*', '*raw')) :
            base = self.load(s, e)
            if base[0] != 'ver':
                e, mem = base, False
        elif e[0] == 'slot' and len(pl) > 1 and not is_ref_ty(ctx.fn.local_ty(L)):
            mem = True
            if not (isinstance(pl[1], list) and pl[1][0] == 'f'):
                e = self.load(s, e)
        skip = e[0] == 'slot' and is_ref_ty(ctx.fn.local_ty(L))
        variant = None
        for p in pl[1:]:
            if p in ('*', '*raw'):
                if e[0] == 'slot' and not skip:
                    x = self.load(s, e)
                    if is_ref_like(x):
                        e = x
                skip = False
                mem = mem or not (p == '*' and isval(ctx, L))
                continue
            if isinstance(p, str):
                e = UNK
                continue
            k = p[0]
            if k == 'v':
                variant = p[1]
                continue
            if e[0] == 'slot':
                x = self.load(s, e)
                if x[0] == 'ver' and k == 'f' and variant is None:
                    e = self.load(s, ('f', e, p[1]))        # the component may be as it was
                    continue
                e = x
            if k == 'f':
                if variant is not None:
                    e = self.an.fix_app(mk_payload(self._ld(s, e, mem), variant, p[1]))
                    variant = None
                else:
                    e = mk_field(e, p[1])
            elif k == 'i':
                ix = s.env.get((ctx.id, p[1])) or UNK
                e = mk_elem(e, self.peek(s, ix))
            elif k == 'ci':
                e = mk_elem(e, C(p[1]) if not p[2] else ('fromend', p[1]))
            else:
                e = ('call', 'subslice', (e,))
        return e, mem

    def slot_base(self, s, pl):
        """(slot, projections) when place pl is a component of an aggregate held in a local slot"""
        ctx = s.ctx
        e = s.env.get((ctx.id, pl[0]))
        # a reference to a local of a caller: what the local holds is a value of its own
        own = e is not None and e[0] == 'slot' and len(pl) > 2 and pl[1] == '*' and is_ref_ty(ctx.fn.local_ty(pl[0])) \
            and all(isinstance(q, list) and q[0] == 'f' for q in pl[2:])
        for i, p in enumerate(pl[1:]):
            if e is None:
                return None
            if p in ('*', '*raw'):
                if e[0] == 'slot' and not own:
                    x = self.load(s, e)
                    if is_ref_like(x):
                        e = x
            elif isinstance(p, list) and p[0] == 'f':
                if e[0] == 'slot':
                    x = self.load(s, e)
                    if (x[0] in ('agg', 'with') or own) \
                            and all(isinstance(q, list) and q[0] == 'f' for q in pl[1 + i:]):
                        return e, pl[1 + i:]
                    e = x
                e = mk_field(e, p[1])
            else:
                return None
        return None

    def _ld(self, s, e, mem):
        return self.load(s, e) if mem else e

    def operand(self, s, o, dty=''):
        if o[0] in 'cm':
            e, mem = self.place(s, o[1])
            ctx = s.ctx
            if len(o[1]) == 1:
                if e[0] == 'slot':
                    ty = ctx.fn.local_ty(o[1][0])
                    return e if is_ref_ty(ty) else self.load(s, e)
                return e
            if mem and e[0] == 'slot' and is_ref_ty(dty) and any(x[0] == 'f' for x in o[1][1:] if not isinstance(x, str)) and s.ctx.fn.local_ty(o[1][0]).startswith(('&mut {closure', '&{closure', '{closure')):
                return e         # a captured reference to a local is that local
            return self.load(s, e, is_ref_ty(dty) or (o[0] == 'c' and dty.startswith('Box<'))) if mem else e
        return self.an.operand(s.ctx, s.bb, 0, o)

    def rvalue(self, s, r, dty=''):
        k = r[0]
        if k == 'use':
            return self.operand(s, r[1], dty)
        if k in ('ref', 'raw'):
            e, mem = self.place(s, r[1])
            return e
        if k == 'cast':
            e = self.operand(s, r[1])
            return mk_cast(e, r)
        if k == 'bin':
            a, b = self.operand(s, r[2]), self.operand(s, r[3])
            if r[1] in ('BitAnd', 'BitOr') and (dty == 'bool' or a[0] in BOOLK or b[0] in BOOLK or any(o[0] in 'cm' and len(o[1]) == 1 and s.ctx.fn.local_ty(o[1][0]) == 'bool' for o in r[2:4])):
                if r[1] == 'BitAnd':
                    return mk_and2(a, b)
                return mk_not(mk_and2(mk_not(a), mk_not(b)))
            return mk_bin(r[1], a, b)
        if k == 'un':
            a = self.operand(s, r[2])
            if r[1] == 'Not':
                if a[0] == 'c' and isinstance(a[1], int) and a[1] not in (0, 1):
                    return C(~a[1])
                if dty and dty != 'bool' and dty in SCALAR:
                    return ('un', 'BitNot', a)
                return mk_not(a)
            if r[1] == 'Neg':
                return mk_add(C(0), a, -1)
            if r[1] == 'PtrMetadata':
                return ('call', 'len', (a,))
            return ('un', r[1], a)
        if k == 'discr':
            e, mem = self.place(s, r[1])
            return ('discr', self.load(s, e) if mem or e[0] == 'slot' else e, tuple((a, b) for a, b in r[3]))
        if k == 'agg':
            ops = [mark_bool(self.operand(s, o), o) for o in r[3]]
            if r[1] == 'adt':
                adt, var, names = r[2]
                if adt in ('Box', 'Rc', 'Arc', 'Cell', 'RefCell', 'NonNull', 'Reverse'):
                    return ops[0] if ops else UNK
                return fn_update(('agg', adt, var, tuple(zip(names, ops))))
            if r[1] == 'closure':
                own = own_state(self.an.prog.fn(r[2]))
                for x, o in enumerate(ops):
                    if o[0] not in PLACEY and str(x) in own:
                        n = sum(1 for y in s.slots if y == o)
                        s.slots = s.slots + (o,)
                        ops[x] = ('slot', n, o)
                return ('closure', r[2], tuple((str(x), o) for x, o in enumerate(ops)))
            if r[1] == 'tuple' and not ops:
                return ('c', 't:()')
            return ('agg', r[1], None, tuple((str(x), o) for x, o in enumerate(ops)))
        if k == 'rep':
            return ('call', 'repeat', (self.operand(s, r[1]), ('c', r[2])))
        return UNK

    def setlocal(self, s, L, v):
        ctx = s.ctx
        if L in addr_taken(ctx.fn) and not is_ref_ty(ctx.fn.local_ty(L)):
            v = unslot1(v)
            lit = None
            if v[0] == 'c' and isinstance(v[1], str) and v[1].startswith('s:') and ctx.fn.local_ty(L) == 'String':
                v, lit = ('call', 'String::new', ()), v         # text that will grow
            n = sum(1 for x in s.slots if x == v)
            s.slots = s.slots + (v,)
            v = ('slot', n, v)
            if lit is not None:
                self._append(s, 'String::push_str', v, lit, None)
        s.env[(ctx.id, L)] = v

    def _stmts(self, s, b, work):
        fn = s.ctx.fn
        isclo = fn.j.get('closure')
        sts = b['s']
        df = droplfags(fn)
        while s.i < len(sts):
            pl, rv, sp = sts[s.i]
            s.i += 1
            L = pl[0]
            if rv[0] == 'setdiscr':
                continue
            if len(pl) == 1:
                if L in df:
                    continue
                if rv[0] == 'cast' and rv[3] == 'IntToInt' and len(rv) > 4 and rv[4] == 'bool':
                    v = self.an.fix_app(self.operand(s, rv[1]))
                    if v[0] != 'c':     # a condition counted: one path per truth value
                        self.fork(s, [(v if q else mk_not(v), lambda n, q=q: self.setlocal(n, L, C(q))) for q in (1, 0)], work)
                        return True
                self.setlocal(s, L, self.rvalue(s, rv, fn.local_ty(L)))
                continue
            v = self.rvalue(s, rv)
            deref = '*' in pl[1:] or '*raw' in pl[1:]
            if not deref and not (isclo and L == 1):
                cur = s.env.get((s.ctx.id, L))
                slot = None
                if cur is not None and cur[0] == 'slot':
                    slot = cur
                    cur = self.load(s, cur)
                if cur is None:
                    ty = fn.local_ty(L)
                    cur = ('agg', 'tuple' if ty.startswith('(') else ty.split('<')[0].split('::')[-1], None, ())
                nv = upd(cur, pl[1:], v, lambda l: s.env.get((s.ctx.id, l)) or UNK)
                if slot is not None:
                    nv = ('slot', slot[1], nv)
                s.env[(s.ctx.id, L)] = nv
                continue
            path, _ = self.place(s, pl)
            if path[0] not in PLACEY or deref:
                b = self.slot_base(s, pl)
                if b is not None:       # a component of a local aggregate
                    path, v = b[0], upd(self.load(s, b[0]), b[1], v, lambda l: s.env.get((s.ctx.id, l)) or UNK)
                    held = [k for k, x in s.env.items() if x == path]
                    if held and sum(1 for x in s.env.values() if contains(x, path)) == len(held):
                        for k in held:      # as if assigned where the local lives
                            s.env[k] = ('slot', path[1], v)
                        continue
            if v[0] in BOOLK and not is_local_path(path) and path[0] != 'slot':
                # a condition stored in memory: one path per truth value
                self.fork(s, [(v if q else mk_not(v), lambda n, q=q: self.write(n, path, C(q), sp, fn)) for q in (1, 0)], work)
                return True
            self.write(s, path, v, sp, fn)
        return False

    def write(self, s, path, v, sp, fn):
        old = self.load(s, path)
        if path[0] != 'slot' and (old == v or (v[0] == 'c' and v[1] in (0, 1) and s.val.get(old) == bool(v[1]))):
            return                      # stores what is already there
        pre = s.log
        s.log = s.log + (('w', path, v),)
        if path[0] == 'slot' or is_local_path(path) and not in_coll(path):
            s.trail = s.trail + ((sp, '%s := ..' % show(path)[:60]),)
            return
        for q, x in self.fieldwise(s, pre, path, v):
            e = Ev('w', None, (q,), x, sp, (q,), fn.name)
            s.ev = s.ev + (e,)
            s.trail = s.trail + ((sp, e.text()[:160]),)

    def fieldwise(self, s, log, path, v):
        """a store of a whole struct is the stores of its fields"""
        if v[0] == 'agg' and v[2] is None and v[1] in self.prog.adts and v[3]:
            out = []
            for k, x in v[3]:
                out += self.fieldwise(s, log, mk_field(path, k), x)
            return out
        if v[0] == 'with' and v[1] == path:
            out = []
            for k, x, st in v[2]:
                if k != '[..]':
                    out += self.fieldwise(s, log, mk_field(path, k), x)
            return out
        n = s.copy()
        n.log = log
        if self.load(n, path) == v:
            return []
        return [(path, v)]

    # --- branching
    def fork(self, s, conds, work):
        """conds: list of (formula, action(state)).  pushes feasible successors"""
        for f, act in conds[::-1]:
            for lits in dnf(f, True)[::-1]:
                n = s.copy()
                ok = True
                new = []
                for a, p in lits:
                    if not assume(n.val, a, p):
                        ok = False
                        break
                    new.append(('' if p else '!') + show(a)[:100])
                if not ok:
                    continue
                if new:
                    n.trail = n.trail + ((None, '[' + ', '.join(new) + ']'),)
                act(n)
                if n.bb is not None:
                    work.append(n)

    def _switch(self, s, b, t, work):
        fn = s.ctx.fn
        o = t[1]
        L = o[1][0] if o[0] in 'cm' and len(o[1]) == 1 else None
        def goto(bb):
            def act(n):
                n.bb, n.i = bb, 0
                if n.inv:
                    self._passed(n, fn, src, bb)
            return act
        src = s.bb
        if L is not None and L in droplfags(fn):
            # drop flags only decide whether a destructor runs
            tg = dict.fromkeys([a[1] for a in t[2]] + [t[3]])
            pick = [x for x in tg if fn.bbs[x]['t'][0] != 'drop'] or list(tg)
            s.bb, s.i = pick[0], 0
            work.append(s)
            return
        e = self.an.fix_app(self.operand(s, o))
        conds = []
        if e[0] == 'discr':
            m = dict(e[2])
            for v, x in t[2]:
                conds.append((mk_is(e[1], m.get(v, str(v))), x))
        elif t[4] == 'bool':
            for v, x in t[2]:
                conds.append((e if v else mk_not(e), x))
        else:
            for v, x in t[2]:
                conds.append((mk_cmp('Eq', e, C(v)), x))
        out = []
        neg = []
        for c, x in conds:
            if is_c(c, 0):
                continue
            f = c
            out.append((f, goto(x)))
            if is_c(c, 1):
                neg = None
                break
            neg.append(c)
        if neg is not None:
            ob = fn.bbs[t[3]]
            if not (ob['t'][0] == 'unreachable' and not ob['s']):
                f = ('and', tuple(mk_not(c) for c in neg)) if len(neg) != 1 else mk_not(neg[0])
                if e[0] == 'discr':
                    left = [nm for v, nm in e[2] if v not in [x for x, _ in t[2]]]
                    if len(left) == 1:
                        f = mk_is(e[1], left[0])
                out.append((f, goto(t[3])))
        self.fork(s, out, work)

    # --- returns
    def _return(self, s, work):
        ctx = s.ctx
        rv = s.env.get((ctx.id, 0), ('c', 't:()'))
        rv = self.peek(s, rv)
        sp = ctx.fn.bbs[s.bb]['sp']
        for k in [k for k in s.env if k[0] == ctx.id]:
            del s.env[k]
        if s.clos and s.clos[-1][0] == ctx.id:
            _, pctx, pbb, mode, hof, key = s.clos[-1]
            s.clos = s.clos[:-1]
            t = pctx.fn.bbs[pbb]['t']
            s.ctx = pctx
            s.bb = pbb
            if mode == 'loop':
                self._hofloop(s, pctx, pbb, hof, key, rv, work)
                return False
            if mode == 'iter':
                self._fed(s, key[0], key[1], key[2], key[3], rv, work)
                return False
            if mode == 'sink':
                self._hofret(s, key[0], key[1], key[2], rv, work)
                return False
            return self._hofdone(s, t, pbb, mode, hof, key, rv, work)
        if ctx.parent is None:
            self._final(s, rv, sp)
            return False
        p = ctx.parent
        t = p.fn.bbs[ctx.site]['t']
        s.ctx = p
        s.bb = ctx.site
        self._dest(s, t, rv)
        return True

    def _hofdone(self, s, t, pbb, mode, hof, key, rv, work):
        """the function argument of an Option/Result combinator returned rv"""
        r = rv
        if mode == 'orins':
            key[0](s, rv)
            s.bb = pbb
            self._dest(s, t, key[1])
            return True
        if mode in ('some', 'true') and hof in ('Option::map', 'bool::then'):
            r = ('agg', 'Option', 'Some', (('0', rv),))
        elif mode == 'some' and hof == 'Result::map':
            r = ('agg', 'Result', 'Ok', (('0', rv),))
        elif mode == 'none' and hof in ('Result::map_err', 'Option::ok_or_else'):
            r = ('agg', 'Result', 'Err', (('0', rv),))
        elif mode == 'some' and hof == 'Option::filter':
            recv = key
            def a1(n):
                self._dest(n, t, recv)
            def a2(n):
                self._dest(n, t, ('agg', 'Option', 'None', ()))
            self.fork(s, [(boolf(rv), a1), (mk_not(boolf(rv)), a2)], work)
            return False
        self._dest(s, t, r)
        return True

    def _final(self, s, rv, sp):
        rv = self.an.fix_app(rv)
        if rv[0] in BOOLK or (rv[0] in ('call', 'f', 'arg', 'ver', 'elem', 'some') and s.ctx.fn.local_ty(0) == 'bool'):
            for pol in (True, False):
                for lits in dnf(rv, pol):
                    n = s.copy()
                    if all(assume(n.val, a, p) for a, p in lits):
                        self._out(n, 'ret', ret=C(int(pol)), span=sp)
            return
        self._out(s, 'ret', ret=rv, span=sp)

    def _dest(self, s, t, v):
        d = t[3]
        if len(d) == 1:
            if v == ('c', 's:') and s.ctx.fn.local_ty(d[0]) == 'String':
                v = ('call', 'String::new', ())
            self.setlocal(s, d[0], v)
        else:
            deref = '*' in d[1:] or '*raw' in d[1:]
            if deref or (s.ctx.fn.j.get('closure') and d[0] == 1):
                path, _ = self.place(s, d)
                self.write(s, path, v, s.ctx.fn.bbs[s.bb]['sp'], s.ctx.fn)
            else:
                cur = s.env.get((s.ctx.id, d[0])) or ('agg', 'tuple', None, ())
                slot = cur if cur[0] == 'slot' else None
                if slot:
                    cur = self.load(s, cur)
                nv = upd(cur, d[1:], v, lambda l: s.env.get((s.ctx.id, l)) or UNK)
                s.env[(s.ctx.id, d[0])] = ('slot', slot[1], nv) if slot else nv
        if t[4] is None:
            s.bb = None
        else:
            s.bb, s.i = t[4], 0

    # --- calls
    def _call(self, s, b, t, work):
        an, ctx = self.an, s.ctx
        name, r, f = an.callee(ctx, s.bb)
        self.sites += 1
        args, tys = [], []
        for o in t[2]:
            if o[0] in 'cm':
                ty = ctx.fn.local_ty(o[1][0]) if len(o[1]) == 1 else '?'
                e, mem = self.place(s, o[1])
                if len(o[1]) == 1 and is_ref_ty(ty):
                    v = e           # a reference: denotes the place
                elif len(o[1]) == 1:
                    v = self.load(s, e) if e[0] == 'slot' else e
                else:
                    v = self.load(s, e) if mem else e
                args.append(an.fix_app(v))
                tys.append(ty)
            else:
                args.append(an.operand(ctx, s.bb, 0, o))
                tys.append(o[2] if len(o) > 2 and isinstance(o[2], str) else '')
        vals = [self.load(s, a) if a[0] == 'slot' else a for a in args]
        own = [o[0] in 'cm' and len(o[1]) == 1 and isval(ctx, o[1][0]) for o in t[2]]
        sp = b['sp']
        # one name for the ways to append a string
        if name == 'String::push':
            name, r, f = 'String::push_str', None, None
            if vals[1][0] == 'c' and type(vals[1][1]) is int:
                args[1] = vals[1] = ('c', 's:' + chr(vals[1][1]))
        elif name == 'AddAssign::add_assign' and tys[0] == '&mut String':
            name, r, f = 'String::push_str', None, None
        elif name in ('Extend::extend', 'String::extend') and tys[0] == '&mut String' and vals[1][0] == 'call' and vals[1][1] == 'str::chars':
            name, r, f = 'String::push_str', None, None
            args[1] = vals[1] = vals[1][2][0]
            tys[1] = '&str'
        elif name in ('Vec::drain', 'VecDeque::drain') and len(vals) == 2:
            args[1] = vals[1] = norm_range(vals[1])
            if args[0][0] == 'slot' and vals[1] == ('agg', 'RangeFrom', None, (('start', C(0)),)):
                self._drained(s, args[0], t, 'Vec::new')
                return s.bb is not None
        elif name in ('HashMap::drain', 'HashSet::drain') and args[0][0] == 'slot':
            self._drained(s, args[0], t, name.split(':')[0] + '::new')
            return s.bb is not None
        # closures called directly
        cc = an.closure_call(name, vals)
        if name == '<ptr>' and 'ptr' in t[1]:
            pe, pm = self.place(s, t[1]['ptr'][1]) if t[1]['ptr'][0] in 'cm' else (an.operand(ctx, s.bb, 0, t[1]['ptr']), False)
            pv = self.load(s, pe) if pm or pe[0] == 'slot' else pe
            if pv[0] in ('closure', 'fn'):
                cc = (pv, tuple(args))
        if cc is not None and cc[0][0] == 'closure' and an.prog.fn(cc[0][1]) and cc[0][1] not in ctx.chain:
            self._enter(s, cc[0], cc[1], 'call', name, None)
            return True
        if cc is not None and cc[0][0] == 'fn' and an.prog.fn(cc[0][1]):
            ff = an.prog.fn(cc[0][1])
            if an.should_inline(ctx, cc[0][1], cc[0][1], ff):
                return self._inline(s, ff, cc[1])
            name, r, f, args, vals = cc[0][1], cc[0][1], ff, cc[1], cc[1]
            tys = [''] * len(args)
        opq = name in an.opaque or (r in an.opaque)
        # value-splitting std calls
        if not opq:
            if name in ('Option::unwrap_or', 'Result::unwrap_or'):
                ok = 'Some' if name.startswith('Option') else 'Ok'
                cond = mk_is(vals[0], ok)
                self.fork(s, [(cond, lambda n: self._dest(n, t, an.fix_app(mk_payload(vals[0], ok, '0')))),
                              (mk_not(cond), lambda n: self._dest(n, t, vals[1]))], work)
                return False
            if name in ('core::cmp::min', 'core::cmp::max', 'Ord::min', 'Ord::max') and len(vals) == 2 and len(t[3]) == 1 and ctx.fn.local_ty(t[3][0]) in core.INTTY:
                x, y = sorted(vals, key=show) if name.endswith('min') else sorted(vals, key=show, reverse=True)
                cond = mk_cmp('Le', x, y)
                lo, hi = (x, y) if name.endswith('min') else (y, x)
                self.fork(s, [(cond, lambda n: self._dest(n, t, lo)), (mk_not(cond), lambda n: self._dest(n, t, hi))], work)
                return False
            if name in ('Option::unwrap_or_default', 'Result::unwrap_or_default') and len(t[3]) == 1:
                ok = 'Some' if name.startswith('Option') else 'Ok'
                cond = mk_is(vals[0], ok)
                dv = self.default_of(ctx.fn.local_ty(t[3][0]))
                def dflt(n):
                    if dv[0] == 'fn':
                        ff = an.prog.fn(dv[1])
                        if an.should_inline(ctx, dv[1], dv[1], ff):
                            self._inline(n, ff, [])
                            return
                    self._dest(n, t, ('call', dv[1], ()) if dv[0] == 'fn' else dv)
                self.fork(s, [(cond, lambda n: self._dest(n, t, an.fix_app(mk_payload(vals[0], ok, '0')))), (mk_not(cond), dflt)], work)
                return False
            if name in ('Option::get_or_insert', 'Option::get_or_insert_with') and len(vals) == 2:
                pl = args[0]
                cond = mk_is(self.load(s, pl), 'Some')
                def put(n, v):
                    self.write(n, pl, ('agg', 'Option', 'Some', (('0', v),)), sp, ctx.fn)
                def fresh(n):
                    if name == 'Option::get_or_insert':
                        put(n, vals[1])
                    elif self.enterable(n, vals[1]):
                        self._enter(n, vals[1], [], 'orins', name, (put, ('some', pl)))
                        return
                    else:
                        put(n, self._callfn(n, vals[1], ()) if vals[1][0] == 'fn' else an.apply(vals[1], ()))
                    self._dest(n, t, ('some', pl))
                self.fork(s, [(cond, lambda n: self._dest(n, t, ('some', pl))), (mk_not(cond), fresh)], work)
                return False
            if name in SPLIT and tys and tys[0].startswith(('Option<', 'Result<', 'bool')):
                some = lambda v: ('agg', 'Option', 'Some', (('0', v),))
                none = ('agg', 'Option', 'None', ())
                okv = lambda v: ('agg', 'Result', 'Ok', (('0', v),))
                err = lambda v: ('agg', 'Result', 'Err', (('0', v),))
                x, y = vals[0], vals[1] if len(vals) > 1 else None
                pay = lambda k='Some': an.fix_app(mk_payload(x, k, '0'))
                k, yes, no = {
                    'Option::flatten': ('Some', pay, lambda: none),
                    'Option::and': ('Some', lambda: y, lambda: none),
                    'Option::ok_or': ('Some', lambda: okv(pay()), lambda: err(y)),
                    'Result::ok': ('Ok', lambda: some(pay('Ok')), lambda: none),
                    'Result::err': ('Err', lambda: some(pay('Err')), lambda: none),
                    'bool::then_some': (None, lambda: some(y), lambda: none),
                }[name]
                cond = mk_is(x, k) if k else boolf(x)
                self.fork(s, [(cond, lambda n: self._dest(n, t, yes())), (mk_not(cond), lambda n: self._dest(n, t, no()))], work)
                return False
            if name == 'Option::or':
                cond = mk_is(vals[0], 'Some')
                self.fork(s, [(cond, lambda n: self._dest(n, t, vals[0])), (mk_not(cond), lambda n: self._dest(n, t, vals[1]))], work)
                return False
            if name == 'Try::branch' and tys and tys[0].startswith(('Option<', 'Result<')):
                ok = 'Some' if tys[0].startswith('Option') else 'Ok'
                cond = mk_is(vals[0], ok)
                cont = ('agg', 'ControlFlow', 'Continue', (('0', an.fix_app(mk_payload(vals[0], ok, '0'))),))
                res = ('agg', 'Option', 'None', ()) if ok == 'Some' else ('agg', 'Result', 'Err', (('0', mk_payload(vals[0], 'Err', '0')),))
                brk = ('agg', 'ControlFlow', 'Break', (('0', res),))
                self.fork(s, [(cond, lambda n: self._dest(n, t, cont)), (mk_not(cond), lambda n: self._dest(n, t, brk))], work)
                return False
            if name == 'FromResidual::from_residual' and vals[0][0] == 'agg':
                self._dest(s, t, vals[0])
                return s.bb is not None
            nt = ctx.fn.local_ty(t[3][0]) if len(t[3]) == 1 and (name == 'Default::default' or name.endswith(('::new', '::with_capacity'))) and f is None else ''
            ty0 = nt.split('<')[0].split('::')[-1]
            if ty0 in ('Vec', 'String', 'HashMap', 'HashSet', 'BitSet', 'VecDeque') and (name == 'Default::default' or name in (ty0 + '::new', ty0 + '::with_capacity')):
                self._dest(s, t, ('call', ty0 + '::new', ()))
                return s.bb is not None
            if name == 'RangeInclusive::new' and len(vals) == 2:
                self._dest(s, t, ('agg', 'RangeInclusive', None, (('start', vals[0]), ('end', vals[1]))))
                return s.bb is not None
            if name == 'Iterator::next' and f is None:
                return self._next_call(s, t, args, tys, vals, sp, work)
            if name == 'Vec::append' and f is None and len(args) == 2 and args[1][0] == 'slot' and tys[1].startswith('&mut Vec<'):
                # v.append(&mut w)  is  v.extend(take(w))
                it, log0, trail0 = self.load(s, args[1]), s.log, s.trail
                self.write(s, args[1], ("call", "Vec::new", ()), sp, ctx.fn.name)
                h = self._sink_call(s, t, 'Vec::extend', args, [tys[0], tys[1][5:]], [vals[0], it], sp, work)
                if h is not None:
                    return h
                s.log, s.trail = log0, trail0
            if name == 'HashMap::into_values':
                self._dest(s, t, ('call', 'Iterator::map', (vals[0], ('tbl', (((), ('f', ('arg', 90, 'x'), '1')),)))))
                return s.bb is not None
            if name == 'BitSet::union_with' and len(args) == 2:
                h = self._sink_call(s, t, 'Extend::extend', args, tys, vals, sp, work)
                if h is not None:
                    return h
            if name in SINKS and not (f is not None):
                h = self._sink_call(s, t, name, args, tys, vals, sp, work)
                if h is not None:
                    return h
            if name in core.UNWRAP and name != 'Option::unwrap_or_default' and tys and tys[0].startswith(('Option<', 'Result<')):
                ok = 'Some' if name.startswith('Option') else 'Ok'
                cond = mk_is(vals[0], ok)
                def bad(n):
                    self._out(n, 'upanic', span=sp)
                    n.bb = None
                if name == 'Option::unwrap_unchecked':
                    bad = lambda n: setattr(n, 'bb', None)
                self.fork(s, [(cond, lambda n: self._dest(n, t, an.fix_app(mk_payload(vals[0], ok, '0')))), (mk_not(cond), bad)], work)
                return False
            if name in MEMW and len(args) == 2:
                old = self.load(s, args[0])
                v = vals[1]
                if name in ('Option::replace', 'Option::insert'):
                    v = ('agg', 'Option', 'Some', (('0', v),))
                self.write(s, args[0], v, sp, ctx.fn)
                self._dest(s, t, old if name not in ('Option::insert', 'Cell::set') else (args[0] if name == 'Option::insert' else ('c', 't:()')))
                return s.bb is not None
            if name in MEMT:
                old = self.load(s, args[0])
                dv = ('agg', 'Option', 'None', ()) if name == 'Option::take' else ('call', 'Default::default', ())
                self.write(s, args[0], dv, sp, ctx.fn)
                self._dest(s, t, old)
                return s.bb is not None
            if name in READS:
                v = self.load(s, args[0])
                if v[0] == 'ver' and v[1] == args[0] and args[0][0] == 'call' and tys[0].startswith('Option<&'):
                    # whether there is a reference does not depend on what it refers to
                    c = mk_is(args[0], 'Some')
                    self.fork(s, [(c, lambda n: self._dest(n, t, ('agg', 'Option', 'Some', (('0', self.load(n, mk_payload(args[0], 'Some', '0'))),)))),
                                  (mk_not(c), lambda n: self._dest(n, t, ('agg', 'Option', 'None', ())))], work)
                    return False
                self._dest(s, t, v)
                return s.bb is not None
            if name in ('IntoIterator::into_iter',) and not (r and an.prog.fn(r)):
                self._dest(s, t, vals[0])
                return s.bb is not None
            if name in ('Cell::update', 'RefCell::replace_with') and len(vals) == 2:
                self.write(s, args[0], an.fix_app(an.apply(vals[1], (self.load(s, args[0]),))), sp, ctx.fn)
                self._dest(s, t, ('c', 't:()'))
                return s.bb is not None
            if name in HOF:
                hc = [(i, vals[i]) for i in HOF[name] if i < len(vals) and (vals[i][0] == 'closure' and an.prog.fn(vals[i][1]) and vals[i][1] not in ctx.chain or vals[i][0] == 'fn')]
                if hc and len(hc) == len(HOF[name]):
                    return self._hof(s, t, name, HOF[name], hc, vals, work)
        if name in VALREADS:
            vals = [self.load(s, a) if a[0] in PLACEY and not own[0] and a not in self.ownedv and ty.startswith('&') and not ty.startswith('&mut ') else a for a, ty in zip(vals, tys)]
        if name in ('IndexMut::index_mut', '[T]::get_unchecked_mut') and args[0][0] == 'slot' and not (r and an.prog.fn(r)):
            self._dest(s, t, mk_elem(args[0], vals[1]))
            return s.bb is not None
        bi = an.builtin(name, vals, r) if not opq else None
        if bi is not None:
            bi = an.fix_app(bi)
            if name in COPIES and args and bi == vals[0] and not own[0] and tys[0].startswith('&'):
                bi = self.load(s, bi) if bi not in self.ownedv else bi
            elif name in core.IDENTITY and args[0][0] == 'slot' and is_ref_ty(ctx.fn.local_ty(t[3][0]) if len(t[3]) == 1 else '?'):
                bi = args[0]
                if GUARDTY.match(tys[0]) and is_ref_like(vals[0]):
                    bi = vals[0]        # a borrow guard stands for what it guards
            else:
                bi = self.version(s, bi, args, tys, name, own) if name not in core.IDENTITY else bi
            self._dest(s, t, bi)
            return s.bb is not None
        if name == 'ExactSizeIterator::len' and f is None and not opq:
            x = init_iter(vals[0], tys[0].replace('&mut ', '').lstrip('&'))
            x = x if x is not None and x[0] == 'agg' and x[1] in ('Iter', 'Range', 'Rev') else None
            if x is not None:
                d = dict(x[3])
                self._dest(s, t, mk_add(d.get('end') or ('call', 'len', (d['coll'],)), d['k'] if x[1] == 'Iter' else d['start'], -1))
                return s.bb is not None
        hasclo = f is not None and any(x[0] == 'closure' for x in vals) and f.name not in ctx.chain and '{closure' not in f.name
        if not opq and (hasclo or an.should_inline(ctx, name, r, f)):
            return self._inline(s, f, args)
        if name in ('Entry::or_insert_with', 'Entry::or_insert', 'Entry::or_default') and vals[0][0] == 'call' and vals[0][1] == 'HashMap::entry':
            mp, ky = vals[0][2][0], vals[0][2][1]
            got = self.version(s, ('call', 'HashMap::get', (self.load(s, mp) if mp[0] == 'slot' else mp, ky)), [mp], ['&mut HashMap'], 'HashMap::get')
            cond = mk_is(got, 'Some')
            slot = ('elem', mp, ky)
            def ins(n, v):
                ev = Ev('call', 'HashMap::insert', (mp, ky, v), None, sp, (mp,), ctx.fn.name)
                n.ev = n.ev + (ev,)
                n.log = n.log + (('w', slot, v),)
            if name == 'Entry::or_insert_with' and vals[1][0] == 'closure':
                self.fork(s, [(cond, lambda n: self._dest(n, t, slot)), (mk_not(cond), lambda n: self._enter(n, vals[1], [], 'orins', name, (ins, slot)))], work)
            else:
                v = (('call', (rty_ + '::new'), ()) if (rty_ := coll_name(ctx.fn.local_ty(t[3][0]) if len(t[3]) == 1 else '')) else ('call', 'Default::default', ())) if name == 'Entry::or_default' else (vals[1] if name == 'Entry::or_insert' else an.apply(vals[1], ()))
                def miss(n):
                    ins(n, v)
                    self._dest(n, t, slot)
                self.fork(s, [(cond, lambda n: self._dest(n, t, slot)), (mk_not(cond), miss)], work)
            return False
        if name == 'HashMap::contains_key' and not opq and len(vals) == 2:
            mp, ky = vals
            self._dest(s, t, mk_is(self.version(s, ('call', 'HashMap::get', (mp, ky)), [mp], ['&mut HashMap'], 'HashMap::get'), 'Some'))
            return s.bb is not None
        if name in core.IDENTITY and not opq and args and not (f is not None and name == 'From::from'):
            v = args[0]
            if name in COPIES and not own[0]:
                v = self.load(s, v)
            self._dest(s, t, v)
            return s.bb is not None
        if name in ('Iterator::copied', 'Iterator::cloned') and not opq:
            self._dest(s, t, vals[0])
            return s.bb is not None
        if name == 'Iterator::map' and not opq and len(vals) == 2 and vals[1][0] == 'closure' and an.prog.fn(vals[1][1]) and self.clo_table(vals[1], name, vals) == ('tbl', (((), ('arg', 90, 'x')),)):
            self._dest(s, t, vals[0])
            return s.bb is not None
        if name in LAYER and SEQ.search(tys[0]) and args[0][0] in PLACEY:
            args[0] = vals[0] = init_iter(vals[0], tys[0]) or vals[0]
        # the extreme (last) element of a sequence: there is one iff the sequence is not empty
        if name in ('Iterator::max_by', 'Iterator::min_by', 'Iterator::max', 'Iterator::min', 'Iterator::max_by_key', 'Iterator::min_by_key', 'Iterator::last') and f is None and not opq:
            x = init_iter(vals[0], tys[0])
            if x is not None and x[0] == 'agg' and x[1] == 'Iter' and dict(x[3])['k'] == C(0) and 'end' not in dict(x[3]):
                coll = dict(x[3])['coll']
                if name == 'Iterator::last':
                    name, vals, args = '[T]::last', [coll], [coll]
                    self._dest(s, t, self.version(s, ('call', name, (coll,)), args, tys, name, own))
                    return s.bb is not None
                tb = [self.clo_table(z, name, vals) if z[0] == 'closure' else self.fn_table(ctx, z) if z[0] == 'fn' and an.prog.fn(z[1]) else z for z in vals[1:]]
                if all(z is not None for z in tb):
                    v = self.version(s, ('call', name, tuple([coll] + tb)), [coll], tys, name, own)
                    cond = step_counter(x)[0]
                    self.fork(s, [(cond, lambda n: self._dest(n, t, ('agg', 'Option', 'Some', (('0', ('some', v)),)))), (mk_not(cond), lambda n: self._dest(n, t, ('agg', 'Option', 'None', ())))], work)
                    return False
        # closures handed to library functions
        clos = [(i, x) for i, x in enumerate(vals) if x[0] == 'closure' and an.prog.fn(x[1]) and x[1] not in ctx.chain]
        if clos and not opq and len(s.clos) < 5 and not (name in LAYER and (tys[0].startswith(('slice::Iter', 'vec::', 'Range', 'Map<', 'Filter', 'iter::', 'Box<dyn Iterator', '<impl IntoIterator', 'impl Iterator', '<impl Iterator')) or tys[0] == 'Chars' and collected(ctx.fn, t[3][0]))):
            hof = HOF.get(name)
            if hof is not None:
                return self._hof(s, t, name, hof, clos, vals, work)
            sig = {i: self.clo_table(x, name, vals) for i, x in clos}
            sig.update({i: self.fn_table(ctx, x) for i, x in enumerate(vals) if x[0] == 'fn' and an.prog.fn(x[1])})
            pure = all(sig[i] is not None for i, _ in clos)
            if name in ('Iterator::any', 'Iterator::all', 'Iterator::for_each') or not pure:
                return self._hofstart(s, t, name, clos, vals, args, tys, work)
            vals2 = [sig.get(i, v) for i, v in enumerate(vals)]
            args = vals2
        if f is None:
            args = [self.fn_table(ctx, x) if x[0] == 'fn' and an.prog.fn(x[1]) else x for x in args]
        retty = ctx.fn.local_ty(t[3][0]) if len(t[3]) == 1 else ''
        setv = None
        if name in SETOPS and not opq and len(args) == 2 and tys[0].startswith('&mut ') and len(t[3]) == 1 and t[3][0] in used_locals(ctx.fn):
            # a set's insert and remove tell whether the element was there; without it (or with it) they change nothing
            had = self.version(s, ('call', SETOPS[name][0], (self.argview(s, args[0], '&'), args[1])), args, ['&', '&'], SETOPS[name][0])
            if boolf(had)[0] != 'c' and name.endswith('remove'):
                setv = had
            elif boolf(had)[0] != 'c':
                go = mk_not(boolf(had)) if SETOPS[name][1] else boolf(had)
                def act(n):
                    n.ev = n.ev + (Ev('call', name, tuple(self.argview(n, a, ty) for a, ty in zip(args, tys)), None, sp, (args[0],), ctx.fn.name),)
                    n.log = n.log + (('e', (args[0],)),)
                    n.trail = n.trail + ((sp, ('%s(..)' % name)[:100]),)
                    self._dest(n, t, C(1))
                self.fork(s, [(go, act), (mk_not(go), lambda n: self._dest(n, t, C(0)))], work)
                return False
        shown = [self.argview(s, a, ty) for a, ty in zip(args, tys)]
        if name.endswith('::ptr_eq'):
            shown.sort(key=show)
        if f is not None and any(x[0] == 'with' for x in shown):
            # what the function does not read need not be told apart
            import mods
            rd = mods.reads(self.prog).get(f.name, ())
            for i, x in enumerate(shown):
                if x[0] == 'with' and i < len(rd) and rd[i] is not None and not tys[i].startswith('&mut '):
                    shown[i] = keep_with(x, rd[i])
        v = ('call', an.cname(name, r), tuple(shown))
        pure = self.purity(name, r, f, tys, retty)
        if retty and '&' not in retty and '*' not in retty:
            self.owned.add(v)
        if retty and not retty.startswith(('&', '*')):
            self.ownedv.add(v)
        v = self.version(s, v, args, tys, name, own) if setv is None else setv
        if t[4] is None:
            s.trail = s.trail + ((sp, 'panic ' + name),)
            self._out(s, 'panic', ret=None, span=sp)
            return False
        if not pure:
            eff = tuple(a for a, ty in zip(args, tys) if ty.startswith('&mut ')) or tuple(a for a, ty in zip(args, tys) if a[0] in PLACEY and ty.strip() not in SCALAR)
            ce = self.cells(name, r, f, args, tys)
            e = Ev('call', an.cname(name, r), tuple(shown), None, sp, eff + tuple(x for x in ce if x not in eff), ctx.fn.name)
            s.ev = s.ev + (e,)
            hit = self.modified(f, args, eff) + ce
            shared = {a for a, ty in zip(args, tys) if ty.startswith(('&', 'Rc<', 'Arc<')) and not ty.startswith('&mut ')} if eff and not any(ty.startswith('&mut ') for ty in tys) else set()
            s.log = s.log + (('e', tuple(x for x in hit if x not in shared)), ('d', tuple(x for x in hit if x in shared))) if shared else s.log + (('e', hit),)
            s.trail = s.trail + ((sp, e.text()[:160]),)
        else:
            s.trail = s.trail + ((sp, ('%s(..)' % name)[:100]),)
        self._dest(s, t, v)
        return s.bb is not None

    def _drained(self, s, slot, t, empty):
        """everything is moved out of a local collection"""
        v = self.load(s, slot)
        s.log = s.log + (('w', slot, ('call', empty, ())),)
        self._dest(s, t, v)

    def default_of(self, ty):
        """Default::default() of a type"""
        if ty in core.INTTY:
            return C(0)
        if ty in ('bool', 'char'):
            return C(0)
        if ty == '()':
            return ('c', 't:()')
        if ty.startswith('Option<'):
            return ('agg', 'Option', 'None', ())
        if ty.startswith(('Vec<', 'String')):
            return ('call', ty.split('<')[0] + '::new', ())
        n = '<%s as Default>::default' % ty.split('<')[0]
        if self.prog.fn(n) is not None:
            return ('fn', n)
        return ('call', 'Default::default', ())

    def purity(self, name, r, f, tys, retty):
        last = name.rsplit('::', 1)[-1]
        if ACCESSOR.match(last):
            return True
        if READONLY.match(last):
            return f is None or 'hash' in last or last == 'fmt' or not self.fills(f)
        if f is not None:
            return f.name not in effectful(self.prog)
        return is_pure(name, tys, retty)

    def fills(self, f):
        """the function writes through a &mut parameter other than its receiver"""
        import mods
        m = mods.mods(self.prog).get(f.name)
        return m is not None and any(isinstance(i, int) and 0 < i < f.nargs and f.local_ty(i + 1).startswith('&mut ') and not f.local_ty(i + 1).startswith('&mut dyn ') for i, qs in m.p.items() if qs)

    def modified(self, f, args, eff):
        """the places a call can change through its &mut arguments"""
        if f is None:
            return eff
        import mods
        m = mods.mods(self.prog).get(f.name)
        if m is None:
            return eff
        out = []
        for i, qs in m.p.items():
            if not isinstance(i, int) or i >= len(args):
                continue
            a = args[i]
            if a[0] not in PLACEY:
                out += list(places(a))
                continue
            for q in qs:
                x = a
                for n in q:
                    x = mk_field(x, n)
                if x[0] in PLACEY:
                    out.append(x)
        return tuple(out)

    def cells(self, name, r, f, args, tys):
        """the cells a call can change through its shared-reference arguments"""
        ce = cell_writers(self.prog)
        if not ((f is not None and f.name in ce) or (f is None and ('dyn ' + name) in ce)):
            return ()
        out = []
        for a, ty in zip(args, tys):
            if ty.startswith('&') and not ty.startswith('&mut ') and a[0] in PLACEY:
                out += cell_paths(self.prog, ty, a, 3)
        return tuple(out)

    def argview(self, s, a, ty):
        """what is shown for an argument: the place for &mut, the current contents for & and values"""
        if a[0] == 'slot' and not ty.startswith('&mut '):
            return self.load(s, a)
        return a

    def version(self, s, v, args, tys, name, own=()):
        if not s.log or v[0] not in ('call', 'eq', 'lt', 'is', 'isok', 'elem', 'some', 'not', 'last', 'f', 'ver') or not args:
            return v
        if v[0] == 'not':
            return mk_not(self.version(s, v[1], args, tys, name, own))
        if ACCESSOR.match(name.rsplit('::', 1)[-1]) and v[0] == 'call':
            return v
        k = 0
        ps = [a for a, ty in zip(args, tys) if a[0] in PLACEY and ty.strip() not in SCALAR and a[0] != 'ver']
        deep = v[0] == 'call'
        held = {a for a, o in zip(args, own) if o and a[0] in ('some', 'f')} if deep else ()
        for e in s.log:
            # a store to the place a value was copied from does not change the copy
            if any(conf_log(e, p, deep) and not (p in held and e[0] == 'w' and strip_ix(e[1]) in {strip_ix(x) for x in prefixes_c(p)}) for p in ps):
                k += 1
        if k == 0:
            return v
        if v[0] in ('eq', 'lt', 'is', 'isok', 'f', 'some'):
            return verterm(v, k, ps, s, self.ownedv if v[0] in ('is', 'isok') else self.owned)
        if v[0] == 'ver' or fresh_len(v, s.log):
            return v
        return ('ver', v, k)

    def _inline(self, s, f, args):
        ctx = s.ctx
        c = self.an.child(ctx, s.bb, f, args)
        os_ = ctx.fn.bbs[s.bb]['t'][2]
        c.valargs = {i + 1 for i, o in enumerate(os_) if len(os_) == len(args) and o[0] in 'cm' and len(o[1]) == 1 and isval(ctx, o[1][0])}
        self.ctxfn[c.id] = f
        s.ctx, s.bb, s.i = c, 0, 0
        for i, a in enumerate(args):
            if i + 1 in addr_taken(f) and not is_ref_ty(f.local_ty(i + 1)):
                a = ('slot', 0, unslot1(a))
            s.env[(c.id, i + 1)] = a
        return True

    def enterable(self, s, clo):
        f = self.an.prog.fn(clo[1]) if clo[0] in ('closure', 'fn') else None
        if f is None or f.name in s.ctx.chain:
            return False
        return clo[0] == 'closure' or self.an.should_inline(s.ctx, clo[1], clo[1], f)

    def _callfn(self, s, clo, cargs):
        """a function item called by a library function; not entered"""
        f = self.an.prog.fn(clo[1])
        w = clo[1].split('::')
        if f is None and len(w) > 1 and len(cargs) == 1 and (w[-2] in ('Option', 'Result', 'Cow') and w[-1] in ('Some', 'Ok', 'Err', 'Owned', 'Borrowed') or w[-2] in self.prog.adts and any(v['n'] == w[-1] for v in self.prog.adts[w[-2]]['variants'])):
            return ('agg', w[-2], w[-1], (('0', cargs[0]),))
        rv = self.an.fix_app(self.an.apply(clo, tuple(cargs))) if f is None else ('call', self.an.cname(clo[1], f.name), tuple(cargs))
        if f is not None and f.name in effectful(self.prog):
            eff = tuple(a for i, a in enumerate(cargs) if f.local_ty(i + 1).startswith('&mut ')) or tuple(a for a in cargs if a[0] in PLACEY)
            s.ev = s.ev + (Ev('call', rv[1], tuple(cargs), None, None, eff, s.ctx.fn.name),)
            s.log = s.log + (('e', eff),)
        return rv

    def _enter(self, s, clo, cargs, mode, hof, key, bb=None):
        ctx = s.ctx
        f = self.an.prog.fn(clo[1])
        bb = s.bb if bb is None else bb
        kk = ('clo', bb, clo[1], mode)
        c = ctx.kids.get(kk)
        if c is None:
            c = Ctx(self.an, f, ctx, bb, ([clo] if clo[0] == 'closure' else []) + list(cargs))
            ctx.kids[kk] = c
        self.ctxfn[c.id] = f
        s.clos = s.clos + ((c.id, ctx, bb, mode, hof, key),)
        s.ctx, s.bb, s.i = c, 0, 0
        for i, a in enumerate(([clo] if clo[0] == 'closure' else []) + list(cargs)):
            if clo[0] == 'fn' and i + 1 in addr_taken(f) and not is_ref_ty(f.local_ty(i + 1)) and a[0] != 'slot':
                a = ('slot', 0, a)
            if i + 1 <= f.nargs:
                s.env[(c.id, i + 1)] = a

    def _hof(self, s, t, name, hof, clos, vals, work):
        an = self.an
        ok = 'Ok' if name.startswith('Result') else 'Some'
        recv = vals[0]
        conds = []
        left = []
        for i, clo in clos:
            mode = hof.get(i)
            if mode is None:
                continue
            cond = boolf(recv) if mode == 'true' else mk_is(recv, ok)
            if mode == 'none':
                cond = mk_not(cond)
            if mode == 'some':
                cargs = [an.fix_app(mk_payload(recv, ok, '0'))]
            elif mode == 'none' and name.startswith('Result'):
                cargs = [mk_payload(recv, 'Err', '0')]
            else:
                cargs = []
            def act(n, clo=clo, cargs=cargs, mode=mode):
                if self.enterable(n, clo):
                    self._enter(n, clo, cargs, mode, name, recv)
                else:
                    rv = self._callfn(n, clo, cargs)
                    if self._hofdone(n, t, n.bb, mode, name, recv, rv, work) is False:
                        n.bb = None
            conds.append((cond, act))
            left.append(mk_not(cond))
        v2 = vals[0]
        if name in ('Option::map', 'Option::and_then', 'bool::then', 'Option::filter'):
            v2 = ('agg', 'Option', 'None', ())
        elif name in ('Result::map', 'Result::and_then'):
            v2 = ('agg', 'Result', 'Err', (('0', mk_payload(recv, 'Err', '0')),))
        elif name in ('Result::map_err', 'Option::ok_or_else'):
            v2 = ('agg', 'Result', 'Ok', (('0', an.fix_app(mk_payload(recv, ok, '0'))),))
        elif name in ('Option::unwrap_or_else', 'Result::unwrap_or_else'):
            v2 = an.fix_app(mk_payload(recv, ok, '0'))
        elif name == 'Option::map_or':
            v2 = vals[1]
        elif name in ('Option::is_some_and', 'Result::is_ok_and'):
            v2 = C(0)
        elif name == 'Option::is_none_or':
            v2 = C(1)
        elif name == 'Option::get_or_insert_with':
            v2 = ('some', vals[0])
        f = ('and', tuple(left)) if len(left) != 1 else left[0]
        conds.append((f, lambda n: self._dest(n, t, v2)))
        self.fork(s, conds, work)
        return False

    # iterator-style higher-order calls: a loop whose body is the closure
    def _hofstart(self, s, t, name, clos, vals, args, tys, work):
        key = (s.ctx.id, s.bb, 'hof')
        label, n, ex = self._arrive(s, key, (), self._clo_slots(s, [x for _, x in clos]), tuple(x for _, x in clos))
        self.startq.append((key, label, n))
        n.i = ('hof0', name, tuple((i, x) for (i, _), x in zip(clos, ex)), tuple(vals), tuple(args), tuple(tys), label)
        return False

    def _clo_writes(self, f):
        import mods
        md = mods.mods(self.prog).get(f.name)
        return md is None or bool(md.p.get(0, ()))

    def _clo_slots(self, s, clos):
        """locals the closures change"""
        import mods
        mut = []
        for clo in clos:
            if self._clo_pure(clo):
                continue
            f = self.an.prog.fn(clo[1])
            md = mods.mods(self.prog).get(f.name)
            ps = md.p.get(0, ()) if md is not None else None
            for un, u in clo[2]:
                if ps is not None and un not in own_state(f) and not any(q[:1] in ((), (un,)) for q in ps):
                    continue
                r = root_slot(u)
                if r is not None and r not in mut and not iter_counters(self.load(s, r)):
                    mut.append(r)
        return mut

    def _hofloop(self, s, pctx, pbb, name, key, rv, work):
        s.bb = pbb
        t = pctx.fn.bbs[pbb]['t']
        _, clos, vals, args, tys, label = key
        if name in ('Iterator::any', 'Iterator::all'):
            stop = boolf(rv) if name == 'Iterator::any' else mk_not(boolf(rv))
            res = C(1) if name == 'Iterator::any' else C(0)
            def again(n):
                self._rearrive(n, key)
                n.bb = None
            self.fork(s, [(stop, lambda n: self._dest(n, t, res)), (mk_not(stop), again)], work)
            return
        if rv[0] in BOOLK:
            for pol in (True, False):
                def again(n, pol=pol):
                    n.trail = n.trail
                    self._rearrive(n, key, C(int(pol)))
                    n.bb = None
                self.fork(s, [(rv if pol else mk_not(rv), again)], work)
            return
        self._rearrive(s, key, rv if rv != ('c', 't:()') else None)

    def _rearrive(self, s, key, rv=None):
        lab = key[-1]
        if rv is not None:
            s.ev = s.ev + (Ev('call', 'yield', (rv,), None, None, (), s.ctx.fn.name),)
        mut = self._clo_slots(s, [x for _, x in key[1]])
        if mut:
            hk = (s.ctx.id, s.bb, 'hof')
            self._arrive(s, hk, (), mut, tuple(x for _, x in key[1]))
            return
        self._out(s, lab)
        fv = {}
        for a, p in s.val.items():
            if has_ver(a) or any(conf_log(e, x) for e in s.log for x in places(a)):
                continue
            fv[a] = p
        self.arrivals.append((self.cur, lab, fv))
        old = self.arr.get(lab)
        self.arr[lab] = fv if old is None else {a: p for a, p in old.items() if fv.get(a) == p}

    def fn_table(self, ctx, x):
        """a function item shown as |x| f(x) would be"""
        f = self.an.prog.fn(x[1])
        if self.an.should_inline(ctx, x[1], x[1], f):
            return self.clo_table(x, 'fn', ()) or x
        if f.name in effectful(self.prog):
            return x
        xs = tuple(('arg', 90 + i, 'x' if i == 0 else 'y%d' % i) for i in range(f.nargs))
        return ('tbl', (((), ('call', self.an.cname(x[1], f.name), xs)),))

    def clo_table(self, clo, name, vals):
        """a closure without effects as a canonical table term; None if it has effects or loops"""
        key = (clo, name)
        if key in self._clo:
            return self._clo[key]
        f = self.an.prog.fn(clo[1])
        if clo[0] == 'closure' and (own_state(f) or not self._clo_pure(clo) and self._clo_writes(f)):
            return None
        np_ = f.nargs - (clo[0] == 'closure')
        sub = Paths(self.prog, self.an.inline_only, self.an.opaque, self.an.maxdepth, 400, 4000, bulk=self.bulk)
        c = Ctx(sub.an, f, None, None, ([clo] if clo[0] == 'closure' else []) + [('arg', 90 + i, 'x' if i == 0 else 'y%d' % i) for i in range(np_)])
        r = None
        try:
            outs = sub._run(c, {(c.id, i + 1): a for i, a in enumerate(c.args)})
            if all(o.start == 'E' and o.end in ('ret', 'panic') and not o.ev for o in outs):
                rows = {(tuple(sorted(o.val.items(), key=lambda z: show(z[0]))), o.ret) for o in outs}
                r = ('tbl', tuple(sorted(rows, key=lambda z: tbl_text(('tbl', (z,))))))
            self.funcs |= sub.funcs
        except Too:
            pass
        self._clo[key] = r
        return r


# resume of hof starts is handled by overriding _step entry
_orig_step = Paths._step

def _step(self, s, work, resume=False):
    if isinstance(s.i, tuple) and s.i[0] == 'hof':
        _, st, it = s.i
        s.i = 0
        core_, layers = peel(it)
        if s.inv == 'hof':
            s.inv = None
            for lits in dnf(step_counter(core_)[0], True)[:1]:
                for a, p in lits:
                    assume(s.val, a, p)
        self._advance(s, core_, layers, it, None, ('hof', st, it), s.ctx.fn.bbs[s.bb]['sp'], work)
        return
    if isinstance(s.i, tuple) and s.i[0] == 'hof0':
        _, name, clos, vals, args, tys, label = s.i
        s.i = 0
        t = s.ctx.fn.bbs[s.bb]['t']
        an = self.an
        nxt = mk_is(('call', 'Iterator::next', (vals[0],)), 'Some') if name.startswith('Iterator::') else ('is', ('call', name + '~more', (vals[0],)), 'Some')
        conds = []
        for i, clo in clos:
            np_ = an.prog.fn(clo[1]).nargs - 1
            el = an.fix_app(elem_of(vals[0]))
            cargs = [el] * np_
            if name == 'Iterator::fold' and np_ == 2:
                cargs = [('mu', 'fold', 'acc'), el]
            conds.append((nxt, lambda n, clo=clo, cargs=cargs: self._enter(n, clo, cargs, 'loop', name, (None, clos, vals, args, tys, label))))
        def done(n):
            if name == 'Iterator::any':
                v = C(0)
            elif name == 'Iterator::all':
                v = C(1)
            elif name == 'Iterator::for_each':
                v = ('c', 't:()')
            else:
                v = ('call', name, tuple(x if x[0] != 'closure' else ('tbl', 'closure') for x in vals))
            self._dest(n, t, v)
        conds.append((mk_not(nxt), done))
        self.fork(s, conds, work)
        return
    return _orig_step(self, s, work, resume)

Paths._step = _step

SINKS = {'Iterator::any', 'Iterator::all', 'Iterator::for_each', 'Iterator::find', 'Iterator::find_map', 'Iterator::position', 'Iterator::fold',
         'Iterator::sum', 'Iterator::count', 'Iterator::collect', 'FromIterator::from_iter', 'Extend::extend', 'Vec::extend', 'String::extend', 'HashSet::extend', 'BitSet::extend'}
BUILD = {'Iterator::collect', 'FromIterator::from_iter'}

def collected(fn, L):
    """is the local handed to a collecting call"""
    return any(b['t'][0] == 'call' and any(o[0] == 'm' and o[1] == [L] or o[0] == 'm' and tuple(o[1]) == (L,) for o in b['t'][2]) and 'collect' in str(b['t'][1]) for b in fn.bbs)

def coll_name(ty):
    """the collection type ty refers to, or ''"""
    m = re.match(r'(&mut |&)?(Vec|String|HashMap|HashSet|BitSet|VecDeque)\b', ty)
    return m.group(2) if m else ''

def coll_kind(ty):
    """(constructor, insertion) of a growing collection"""
    if ty.startswith('<[') and ty.endswith('] as ToOwned>::Owned'):
        return 'Vec::new', 'Vec::push'
    ty = ty.split('<')[0].split('::')[-1]
    return {'Vec': ('Vec::new', 'Vec::push'), 'String': ('String::new', 'String::push_str'), 'BitSet': ('BitSet::new', 'BitSet::insert'), 'HashSet': ('HashSet::new', 'HashSet::insert')}.get(ty)

# an iterator whose position is explicit:  Iter{coll, k}, Range{start, end}, RangeInclusive{start, end} under adaptors
SEQ = re.compile(r'(slice::Iter|slice::IterMut|vec::IntoIter|vec::Drain)<')
OPSEQ = re.compile(r'(^|[<, ])(Iter|IntoIter|Values|Keys|Chars|CharIndices|Bytes|Drain)\b|(^|<)Box<dyn Iterator')
PASS = {'Iterator::cloned', 'Iterator::copied', 'Iterator::by_ref', 'Iterator::fuse', 'Iterator::peekable', 'IntoIterator::into_iter', '[T]::iter', '[T]::iter_mut', 'Vec::iter', 'Vec::into_iter'}
LAYER = {'Iterator::map': 'map', 'Iterator::filter': 'filter', 'Iterator::filter_map': 'filter_map'}

def fn_update(a):
    """S{x: v, ..make()}  is  make() with x replaced"""
    b = {v[1] for n, v in a[3] if v[0] == 'f' and v[2] == n and v[1][0] == 'call'}
    if a[2] is not None or len(b) != 1:
        return a
    b = b.pop()
    ch = tuple(sorted((n, v, True) for n, v in a[3] if v != ('f', b, n)))
    return ('with', b, ch) if ch and len(ch) < len(a[3]) else a

def norm_range(g):
    """an integer range as start..end"""
    if g[0] != 'agg':
        return g
    d = dict(g[3])
    if g[1] == 'RangeTo':
        return ('agg', 'Range', None, (('start', C(0)), ('end', d['end'])))
    if g[1] == 'RangeToInclusive':
        return ('agg', 'Range', None, (('start', C(0)), ('end', mk_add(d['end'], C(1)))))
    if g[1] == 'RangeInclusive' and 'end' in d:
        return ('agg', 'Range', None, (('start', d['start']), ('end', mk_add(d['end'], C(1)))))
    if g[1] == 'RangeFull':
        return ('agg', 'RangeFrom', None, (('start', C(0)),))
    return g

def init_iter(it, ty):
    if it[0] in PLACEY and re.match(r'(&\w* ?)?&?BitSet\b', ty) and it[0] != 'slot':
        return ('agg', 'Iter', None, (('coll', ('call', 'BitSet::iter', (it,))), ('k', C(0))))
    if it[0] == 'agg' and it[1] != 'array':
        return it if it[1] in ('Range', 'RangeInclusive', 'Iter', 'Enum', 'Rev') else None
    if it[0] == 'call':
        n, a = it[1], it[2]
        if n == 'slice' and a[1][0] == 'agg' and a[1][1] in ('Range', 'RangeFrom'):
            d = dict(a[1][3])
            return ('agg', 'Iter', None, (('coll', a[0]), ('k', d['start'])) + ((('end', d['end']),) if 'end' in d else ()))
        if n == 'Iterator::rev':
            x = init_iter(a[0], ty)
            if x is not None and x[0] == 'agg' and x[1] == 'Range':
                return ('agg', 'Rev', None, x[3])
            if x is not None and x[0] == 'agg' and x[1] == 'RangeInclusive':
                d = dict(x[3])
                return ('agg', 'Rev', None, (('start', d['start']), ('end', mk_add(d['end'], C(1)))))
            if x is not None and x[0] == 'agg' and x[1] == 'Iter':
                d = dict(x[3])
                return ('agg', 'Rev', None, (('start', d['k']), ('end', d.get('end') or ('call', 'len', (d['coll'],))), ('coll', d['coll'])))
            return None
        if n in PASS:
            return init_iter(a[0], ty)
        if n in LAYER and len(a) == 2 and a[1][0] in ('closure', 'fn'):
            x = init_iter(a[0], ty)
            return None if x is None else ('call', n, (x, a[1]))
        if n == 'Iterator::skip':
            x = init_iter(a[0], ty)
            if x is not None and x[0] == 'agg' and x[1] in ('Range', 'Iter', 'Enum'):
                p, c = iter_counters(x)[0]
                return set_counter(x, p, mk_add(c, a[1]))
            return None
        if n == 'Iterator::enumerate':
            x = init_iter(a[0], ty)
            if x is not None and x[0] == 'agg' and x[1] in ('Range', 'Iter'):
                return ('agg', 'Enum', None, (('it', x), ('off', iter_counters(x)[0][1])))
            if x is not None:
                return ('call', n, (x,))
            return None
        if n == 'Iterator::zip':
            x, y = init_iter(a[0], ty), init_iter(a[1], ty)
            if x is not None and y is not None and x[0] == 'agg' and y[0] == 'agg':
                return ('agg', 'Zip', None, (('a', x), ('b', y)))
            return None
        if n in BUILD:
            return ('agg', 'Iter', None, (('coll', it), ('k', C(0)))) if SEQ.search(ty) else None
        if n.startswith(('Iterator::', 'DoubleEndedIterator::')):
            return None
    if OPSEQ.search(ty) and not SEQ.search(ty) and (it[0] in PLACEY and it[0] != 'slot' or it[0] == 'call') and it[0] != 'arg':
        return ('agg', 'Iter', None, (('coll', it if it[0] == 'call' else ('call', 'entries', (it,))), ('k', C(0))))
    if it[0] == 'agg' and it[1] == 'array' and ('Iter<' in ty or '[' in ty):
        return ('agg', 'Iter', None, (('coll', it), ('k', C(0)), ('end', C(len(it[3])))))
    if SEQ.search(ty) or ty.startswith(('&Vec<', 'Vec<', '&mut Vec<', '&[')):
        if it[0] in PLACEY or it[0] in ('slice', 'slot'):
            return ('agg', 'Iter', None, (('coll', it), ('k', C(0))))
    return None

def literal_iter(x):
    if x[0] != 'agg' or x[1] != 'Iter':
        return False
    d = dict(x[3])
    return d['coll'][0] == 'agg' and d['coll'][1] == 'array' and d['k'][0] == 'c' and len(d['coll'][3]) <= 6

def iter_counters(x):
    """[(path, position term)]"""
    if not isinstance(x, tuple) or not x:
        return []
    if x[0] == 'agg':
        if x[1] in ('Range', 'RangeInclusive') and len(x[3]) >= 2:
            return [((('start',)), dict(x[3])['start'])]
        if x[1] == 'Iter':
            return [(('k',), dict(x[3])['k'])]
        if x[1] == 'Rev':
            return [(('end',), dict(x[3])['end'])]
        if x[1] == 'Enum':
            return [(('it',) + p, c) for p, c in iter_counters(dict(x[3])['it'])]
        if x[1] == 'Zip':
            d = dict(x[3])
            return [(('a',) + p, c) for p, c in iter_counters(d['a'])] + [(('b',) + p, c) for p, c in iter_counters(d['b'])]
        return []
    if x[0] == 'call' and (x[1] in LAYER or x[1] == 'Iterator::enumerate') and x[2]:
        return [((0,) + p, c) for p, c in iter_counters(x[2][0])]
    return []

def set_counter(x, path, v):
    if not path:
        return v
    p = path[0]
    if p == 0:
        return ('call', x[1], (set_counter(x[2][0], path[1:], v),) + x[2][1:])
    return ('agg', x[1], x[2], tuple((k, set_counter(y, path[1:], v) if k == p else y) for k, y in x[3]))

def peel(it):
    """-> (core iterator, layers inner to outer)"""
    ls = []
    while it[0] == 'call':
        if it[1] in LAYER and len(it[2]) == 2 and it[2][1][0] in ('closure', 'fn'):
            ls.append((LAYER[it[1]], it[2][1]))
            it = it[2][0]
        elif it[1] == 'Iterator::enumerate' and iter_counters(it):
            ls.append(('enumerate', None))
            it = it[2][0]
        elif it[1] in PASS:
            it = it[2][0]
        else:
            break
    return it, tuple(ls[::-1])

UNLAYER = {'map': 'Iterator::map', 'filter': 'Iterator::filter', 'filter_map': 'Iterator::filter_map'}

def rebuild(core_, layers):
    for k, c in layers:
        core_ = ('call', 'Iterator::enumerate', (core_,)) if k == 'enumerate' else ('call', UNLAYER[k], (core_, c))
    return core_

def step_counter(x):
    """(condition, element, advanced) of a positioned iterator"""
    if x[0] != 'agg':
        return None
    d = dict(x[3])
    if x[1] in ('Range', 'RangeInclusive') and 'end' in d:
        c = mk_cmp('Lt' if x[1] == 'Range' else 'Le', d['start'], d['end'])
        return c, d['start'], set_counter(x, ('start',), mk_add(d['start'], C(1)))
    if x[1] == 'Iter':
        c = mk_cmp('Lt', d['k'], d.get('end') or ('call', 'len', (d['coll'],)))
        return c, mk_elem(d['coll'], d['k']), set_counter(x, ('k',), mk_add(d['k'], C(1)))
    if x[1] == 'Rev':
        i = mk_add(d['end'], C(1), -1)
        return mk_cmp('Lt', d['start'], d['end']), (mk_elem(d['coll'], i) if 'coll' in d else i), set_counter(x, ('end',), i)
    if x[1] == 'Enum':
        r = step_counter(d['it'])
        if r is None:
            return None
        pos = iter_counters(d['it'])[0][1]
        return r[0], ('agg', 'tuple', None, (('0', mk_add(pos, d['off'], -1)), ('1', r[1]))), ('agg', 'Enum', None, (('it', r[2]), ('off', d['off'])))
    if x[1] == 'Zip':
        r, q = step_counter(d['a']), step_counter(d['b'])
        if r is None or q is None:
            return None
        return ('and', (r[0], q[0])), ('agg', 'tuple', None, (('0', r[1]), ('1', q[1]))), ('agg', 'Zip', None, (('a', r[2]), ('b', q[2])))
    return None

def subst_t(e, m):
    if not isinstance(e, tuple) or not e:
        return e
    if e in m:
        return m[e]
    return tuple(subst_t(x, m) if isinstance(x, tuple) else x for x in e)

def root_slot(e):
    while e[0] in ('f', 'elem', 'some', 'last', 'err', 'as', 'ver'):
        e = e[1]
    return e if e[0] == 'slot' else None

def ref_source(fn, body, l):
    """local whose mutable borrow is held in temporary l"""
    for b in body:
        for st in fn.bbs[b]['s']:
            if st[0] == [l] and st[1][0] == 'ref':
                pl = st[1][1]
                if len(pl) == 1:
                    return pl[0]
                if len(pl) == 2 and pl[1] == '*':
                    return ref_source(fn, body, pl[0])
    return None

def mutbor(fn, body):
    """locals mutably borrowed in the loop body, and locals of type &mut used there"""
    c = getattr(fn, '_mb', None)
    if c is None:
        c = fn._mb = {}
    k = frozenset(body)
    if k in c:
        return c[k]
    out = []
    def add(l):
        if l not in out:
            out.append(l)
    for b in sorted(body):
        for st in fn.bbs[b]['s']:
            r = st[1]
            if r[0] in ('ref', 'raw') and (len(r) < 3 or r[2]):
                add(r[1][0])
            elif r[0] == 'use' and r[1][0] in 'cm' and fn.local_ty(r[1][1][0]).startswith('&mut '):
                add(r[1][1][0])
            pl = st[0]
            if len(pl) > 1 and pl[1] == '*':
                add(pl[0])
            elif len(pl) > 1:
                add(pl[0])
        t = fn.bbs[b]['t']
        if t[0] == 'call':
            for o in t[2]:
                if o[0] in 'cm' and len(o[1]) == 1 and fn.local_ty(o[1][0]).startswith('&mut '):
                    add(o[1][0])
    out.sort()
    c[k] = out
    return out

MEMW = {'Cell::set', 'mem::replace', 'core::mem::replace', 'std::mem::replace', 'Cell::replace', 'RefCell::replace', 'Option::replace', 'Option::insert'}
MEMT = {'Option::take', 'mem::take', 'core::mem::take', 'std::mem::take', 'Cell::take', 'RefCell::take'}
VALREADS = {'Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err'}
COPIES = {'Option::as_ref', 'Option::as_deref', 'Option::cloned', 'Option::copied', 'Result::as_ref', 'Clone::clone', 'ToOwned::to_owned', 'ToString::to_string', 'Into::into', 'From::from'}
READS = {'Cell::get', 'Option::cloned', 'Option::copied'}


def mk_and2(a, b):
    for x, y in ((a, b), (b, a)):
        if x[0] == 'c' and x[1] in (0, 1):
            return y if x[1] else C(0)
    return ('and', (a, b))


def boolf(e):
    return e

def is_ref_ty(ty):
    return ty.startswith('&') or ty.startswith('*')

def is_ref_like(x):
    return x[0] in PLACEY

def unslot(p):
    return p

def unslot1(v):
    return v[2] if v[0] == 'slot' else v

def own_state(f):
    """captures a closure holds by value and changes"""
    if f is None:
        return ()
    c = getattr(f, '_own', None)
    if c is None:
        c = set()
        for b in f.bbs:
            for pl, rv, sp in b['s']:
                for q in [pl] + ([rv[1]] if rv[0] == 'ref' and rv[2] else []):
                    if q and q[0] == 1 and len(q) > 2 and q[1] == '*' and isinstance(q[2], list) and q[2][0] == 'f' and not ('*' in q[3:]):
                        c.add(q[2][1])
            t = b['t']
            if t[0] == 'call' and t[3] and t[3][0] == 1 and len(t[3]) > 2 and t[3][1] == '*' and isinstance(t[3][2], list) and '*' not in t[3][3:]:
                c.add(t[3][2][1])
        f._own = c
    return c

def in_coll(p):
    """an element of a local collection (stores to those are effects on it, like a push)"""
    while p[0] in ('f', 'elem', 'some', 'last', 'err', 'as', 'ver'):
        if p[0] == 'elem':
            return True
        p = p[1]
    return False

def is_local_path(p):
    x = p
    while x[0] in ('f', 'elem', 'some', 'last', 'err', 'as', 'ver'):
        x = x[1]
    return x[0] in ('slot',)

def distinct_ix(p, q):
    a, b = [], []
    def ix(x, out):
        while x[0] in ('f', 'elem', 'some', 'last', 'err', 'as', 'ver'):
            if x[0] == 'elem':
                out.append(x[2])
            x = x[1]
    ix(p, a)
    ix(q, b)
    for x, y in zip(a[::-1], b[::-1]):
        if x is not None and y is not None and x[0] == 'c' and y[0] == 'c' and x != y:
            return True
    return False

def conf_log(e, p, deep=False):
    if e[0] == 'w':
        return overlaps(e[1], p) and not distinct_ix(e[1], p)
    if e[0] == 'd' and not deep:       # something reached through a shared reference: not the reference itself
        return any(strip_ix(x) in deep_prefixes(p) for x in e[1])
    return any(overlaps(x, p) for x in e[1])

@lru_cache(maxsize=None)
def memread(v):
    """does the value of this term depend on memory"""
    if not isinstance(v, tuple) or not v or v[0] in ('slot', 'closure', 'arg', 'mu', 'c', 'static', 'tbl'):
        return False
    if v[0] in ('f', 'elem', 'some', 'last', 'err', 'as', 'ver', 'call', 'pcall'):
        return any(x[0] in ('arg', 'static', 'slot') for x in roots(v))
    return any(memread(x) for x in v if isinstance(x, tuple))

def roots(e):
    k = e[0]
    if k in ('f', 'elem', 'some', 'last', 'err', 'as', 'ver', 'slice'):
        return roots(e[1])
    if k in ('call', 'pcall'):
        return [r for a in e[2] if a[0] in PLACEY for r in roots(a)]
    if k == 'phi':
        return [r for a in e[1] if a[0] in PLACEY for r in roots(a)]
    return [e]

def hits(log, e):
    """how many of the logged effects change what e reads"""
    if e[0] == 'call':
        return sum(1 for x in log if any(conf_log(x, a, True) for a in e[2] if a[0] in PLACEY))
    return sum(1 for x in log if conf_log(x, e))

def current(v, log):
    """is the value v, read earlier, what reading the same place would give now"""
    if not isinstance(v, tuple) or not v:
        return True
    if v[0] == 'ver':
        return hits(log, v[1]) == v[2]
    if v[0] in PLACEY and v[0] not in ('arg', 'mu', 'slot'):
        if hits(log, v):
            return False
        if v[0] != 'call':
            return True
    return all(current(x, log) for x in v if isinstance(x, tuple))

@lru_cache(maxsize=None)
def strip_ver(e):
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] == 'ver':
        return strip_ver(e[1])
    return tuple(strip_ver(x) if isinstance(x, tuple) else x for x in e)

@lru_cache(maxsize=None)
def places(a):
    out = set()
    def go(e):
        if not isinstance(e, tuple) or not e:
            return
        if isinstance(e[0], str) and e[0] in PLACEY:
            out.add(e)
            if e[0] in ('call',):
                for x in e[2]:
                    go(x)
            return
        for x in e:
            if isinstance(x, tuple):
                go(x)
    go(a)
    return frozenset(out)

def keep_with(x, names):
    keep = tuple(q for q in x[2] if q[0] in names or q[0] == '[..]')
    return x if len(keep) == len(x[2]) else ('with', x[1], keep) + x[3:] if keep else x[1]

@lru_cache(maxsize=None)
def contains(e, x):
    return e == x or isinstance(e, tuple) and any(contains(y, x) for y in e if isinstance(y, tuple))

@lru_cache(maxsize=None)
def has_closure(e):
    if not isinstance(e, tuple):
        return False
    if e and e[0] == 'closure':
        return True
    return any(has_closure(x) for x in e if isinstance(x, tuple))

@lru_cache(maxsize=None)
def has_with(e):
    if not isinstance(e, tuple):
        return False
    if e and e[0] == 'with':
        return True
    return any(has_with(x) for x in e if isinstance(x, tuple))

@lru_cache(maxsize=None)
def has_ver(e):
    if not isinstance(e, tuple):
        return False
    if e and e[0] == 'ver':
        return True
    return any(has_ver(x) for x in e if isinstance(x, tuple))

@lru_cache(maxsize=None)
def has_mu(e, key=None):
    if not isinstance(e, tuple):
        return False
    if len(e) == 3 and e[0] == 'mu' and (key is None or e[1] == key):
        return True
    return any(has_mu(x, key) for x in e if isinstance(x, tuple))

def unver(e):
    return e

def fresh_len(e, log):
    """the length of something read as it is now"""
    return e[0] == 'call' and e[1] == 'len' and e[2][0][0] == 'ver' and e[2][0][2] == hits(log, e[2][0][1])

def verterm(v, k, ps, s, owned):
    """version the place-reading parts of a comparison"""
    def go(e):
        if e in owned or fresh_len(e, s.log):
            return e
        if e[0] in PLACEY and e[0] != 'ver' and any(overlaps(p, e) for p in ps):
            n = sum(1 for x in s.log if conf_log(x, e))
            return ('ver', e, n) if n else e
        return e
    if v[0] in ('eq', 'lt'):
        return (v[0], go(v[1]), go(v[2]))
    if v[0] == 'is':
        return ('is', go(v[1]), v[2])
    return (v[0], go(v[1])) + v[2:]

def upd(cur, proj, v, ixf):
    """functional update of a local aggregate"""
    if not proj:
        return v
    p = proj[0]
    if isinstance(p, list) and p[0] == 'v':
        return upd(cur, proj[1:], v, ixf)
    if isinstance(p, list) and p[0] == 'f':
        sub = upd(mk_field(cur, p[1]), proj[1:], v, ixf) if len(proj) > 1 else v
        if cur[0] == 'agg':
            d = dict(cur[3])
            order = [k for k, _ in cur[3]]
            if p[1] not in d:
                order.append(p[1])
            d[p[1]] = sub
            return ('agg', cur[1], cur[2], tuple((k, d[k]) for k in order))
        if cur[0] == 'with':
            d = [(k, x, st) for k, x, st in cur[2] if k != p[1]]
            return ('with', cur[1], tuple(sorted(d + [(p[1], sub, True)], key=lambda z: z[0])))
        return ('with', cur, ((p[1], sub, True),))
    return ('with', cur, (('[..]', v, True),))


def effectful(prog):
    """names of crate functions that may write through a reference or a cell (transitively)"""
    c = getattr(prog, '_eff', None)
    if c is not None:
        return c
    import mods
    md = mods.mods(prog)
    hard = set()         # effects that are not just writes through the function's own &mut parameters
    calls = {}
    for n, f in prog.fns.items():
        cs = set()
        for b in f.bbs:
            if b['cl']:
                continue
            t = b['t']
            if t[0] == 'call':
                c = t[1]
                nm = c.get('n', '<ptr>')
                r = c.get('r')
                g = prog.fn(r) if r and c.get('local') and not c.get('virt') else None
                if g is not None:
                    cs.add(g.name)
                    continue
                tys = [f.local_ty(o[1][0]) if o[0] in 'cm' and len(o[1]) == 1 else '' for o in t[2]]
                if nm in MEMW or nm in MEMT or nm == 'Cell::update':
                    if not (tys and tys[0].startswith('&mut ')):
                        hard.add(n)
                    continue
                if prog_trait_method(prog, nm):
                    cs.add('dyn ' + nm)
                    continue
                if not is_pure(nm, tys, '') and not any(x.startswith('&mut ') for x in tys):
                    hard.add(n)
            for st in b['s']:
                if st[1][0] == 'agg' and st[1][1] == 'closure':
                    cs.add(st[1][2])
        calls[n] = cs
        if md[n].other:
            hard.add(n)
    # trait methods: effectful if any in-crate body is, or (no body) by signature
    impls = {}
    for n, f in prog.fns.items():
        if n.startswith('<') and ' as ' in n:
            tr = n.split(' as ', 1)[1].rsplit('>::', 1)
            if len(tr) == 2:
                impls.setdefault('dyn %s::%s' % (tr[0].split('<')[0], tr[1]), set()).add(n)
    for n in prog.fns:
        impls.setdefault('dyn ' + n, set()).add(n) if not n.startswith('<') else None
    ch = True
    while ch:
        ch = False
        for n, cs in calls.items():
            if n in hard:
                continue
            for c in cs:
                hit = c in hard
                if not hit and c.startswith('dyn '):
                    last = c.rsplit('::', 1)[-1]
                    if ACCESSOR.match(last) or READONLY.match(last):
                        continue
                    bodies = impls.get(c, ())
                    hit = any(x in hard for x in bodies) or bool(IMPURE_SHARED.match(last))
                if hit:
                    hard.add(n)
                    ch = True
                    break
    eff = set(hard)
    for n, f in prog.fns.items():
        for i in md[n].p:
            if isinstance(i, int) and (f.local_ty(i + 1).startswith('&mut ') or '{closure' in n or mods.has_mut(prog, f.local_ty(i + 1))):
                eff.add(n)
    prog._eff = eff
    return eff

CELLW = re.compile(r'(Cell::(set|replace|take|swap|update)|RefCell::(borrow_mut|replace\w*|take|swap|try_borrow_mut)|RwLock::(write|try_write)|Mutex::(lock|try_lock))$')

def cell_types(prog):
    c = getattr(prog, '_celltypes', None)
    if c is None:
        c, ch = set(), True
        while ch:
            ch = False
            for n, a in prog.adts.items():
                if n in c:
                    continue
                tys = [fl['ty'] for v in a['variants'] for fl in v['f']]
                if any(is_cell_ty(t) or any(w in c for w in re.findall(r'\w+', t)) for t in tys):
                    c.add(n)
                    ch = True
        prog._celltypes = c
    return c

def is_cell_ty(t):
    return re.search(r'\b(Cell|RefCell|RwLock|Mutex)<', t) is not None

def cell_paths(prog, ty, p, depth):
    base = re.sub(r"^&('\w+ )?(mut )?", '', ty)
    while True:
        m = re.match(r'(Rc|Arc|Box)<(.*?)(,Global)?>$', base)
        if not m:
            break
        base = m.group(2)
    if re.match(r'(Cell|RefCell|RwLock|Mutex)<', base):
        return [p]
    nm = base.split('<')[0]
    a = prog.adts.get(nm)
    if a is None:
        return [p] if is_cell_ty(base) else []
    if nm not in cell_types(prog):
        return []
    if a['enum'] or depth == 0:
        return [p]
    out = []
    for fl in a['variants'][0]['f']:
        out += cell_paths(prog, fl['ty'], mk_field(p, fl['n']), depth - 1)
    return out

def cell_writers(prog):
    """crate functions (and `dyn Trait::method`) that can change a cell behind a shared reference"""
    c = getattr(prog, '_cellw', None)
    if c is not None:
        return c
    eff, calls, impls = set(), {}, {}
    for n, f in prog.fns.items():
        cs = set()
        for b in f.bbs:
            if b['cl']:
                continue
            t = b['t']
            if t[0] == 'call':
                nm, r = t[1].get('n', '<ptr>'), t[1].get('r')
                if CELLW.match(nm):
                    eff.add(n)
                g = prog.fn(r) if r and t[1].get('local') and not t[1].get('virt') else None
                if g is not None:
                    cs.add(g.name)
                elif prog_trait_method(prog, nm):
                    cs.add('dyn ' + nm)
            for st in b['s']:
                if st[1][0] == 'agg' and st[1][1] == 'closure':
                    cs.add(st[1][2])
        calls[n] = cs
        if n.startswith('<') and ' as ' in n:
            tr = n.split(' as ', 1)[1].rsplit('>::', 1)
            if len(tr) == 2:
                impls.setdefault('dyn %s::%s' % (tr[0].split('<')[0], tr[1]), set()).add(n)
        elif not n.startswith('<'):
            impls.setdefault('dyn ' + n, set()).add(n)
    ch = True
    while ch:
        ch = False
        for k, bs in impls.items():
            if k not in eff and any(x in eff for x in bs):
                eff.add(k)
                ch = True
        for n, cs in calls.items():
            if n not in eff and any(x in eff for x in cs):
                eff.add(n)
                ch = True
    prog._cellw = eff
    return eff

def prog_trait_method(prog, nm):
    p = nm.rsplit('::', 1)
    return len(p) == 2 and p[0] in prog.traits


"""Inlined control-flow graph of an entry function: one node per effect, labelled edges.

Nodes are (context, block, environment) states; the environment maps locals that have several
definitions to the provenance term reaching on that path (path-sensitive copy propagation), so
joins do not blur which value goes with which branch.  Loop-carried values are not tracked (they
stay joined terms), so the graph is finite.
"""
from core import *
from collections import deque

class Op:
    __slots__ = ('kind', 'name', 'rname', 'args', 'val', 'span', 'ctx', 'bb', 'idx', 'ty')
    # kind: 'w' write (args[0]=path, val), 'call' (name, rname, args), 'ret' (val), 'drop', 'panic'

    def __init__(self, kind, ctx, bb, idx, span, name=None, rname=None, args=(), val=None, ty=None):
        self.kind, self.ctx, self.bb, self.idx, self.span = kind, ctx, bb, idx, span
        self.name, self.rname, self.args, self.val, self.ty = name, rname, tuple(args), val, ty

    @property
    def path(self):
        return show(self.args[0])

    def a(self, i):
        return show(self.args[i]) if i < len(self.args) else None

    @property
    def v(self):
        return show(self.val)

    def __repr__(self):
        if self.kind == 'w':
            return '%s := %s' % (show(self.args[0]), show(self.val))
        if self.kind == 'call':
            return '%s(%s)' % (self.name, ', '.join(show(x) for x in self.args))
        if self.kind == 'ret':
            return 'return-value := %s' % show(self.val)
        if self.kind == 'drop':
            return 'drop %s : %s' % (show(self.args[0]), self.ty)
        return self.kind


class Node:
    __slots__ = ('id', 'op', 'succ', 'pred', 'where', 'ret')

    def __init__(self, id, op, where):
        self.id, self.op, self.where = id, op, where
        self.succ, self.pred = [], []     # (node, labels)
        self.ret = None


MEMWRITE = {'Cell::set', 'mem::replace', 'core::mem::replace', 'std::mem::replace', 'Cell::replace', 'RefCell::replace',
            'Option::replace', 'Option::insert'}
MEMTAKE = {'Option::take', 'mem::take', 'core::mem::take', 'std::mem::take', 'Cell::take', 'RefCell::take'}
PURE_PREFIX = ('fmt::', 'core::fmt', 'std::fmt', 'Arguments::', 'Argument::', 'alloc::fmt')
DEFAULT = ('call', 'Default::default', ())
PATHY = ('arg', 'f', 'elem', 'call', 'some', 'static', 'as', 'last', 'err')


class Graph:
    def __init__(self, an, root, maxnodes=80000):
        self.an = an
        self.root = an.root(root) if isinstance(root, str) else root
        self.nodes = []
        self.exits = []
        self.panics = []
        self.funcs = set()
        self.maxnodes = maxnodes
        self.overflow = False
        self._guards = None
        self._build()

    def _new(self, op, where):
        n = Node(len(self.nodes), op, where)
        self.nodes.append(n)
        return n

    def _edge(self, a, b, labels=()):
        a.succ.append((b, labels))
        b.pred.append((a, labels))

    def _chain(self, n, op, where):
        m = self._new(op, where)
        self._edge(n, m)
        return m

    # ------------------------------------------------------------------ construction
    def _build(self):
        self.entry = self._new(None, (self.root, -1))
        self._start = {}
        self.work = [(self.root, 0, frozenset(), (), self.entry, ())]
        while self.work:
            ctx, bb, env, clostack, frm, labels = self.work.pop()
            key = (ctx.id, bb, env, clostack)
            if key in self._start:
                self._edge(frm, self._start[key], labels)
                continue
            if len(self.nodes) > self.maxnodes:
                self.overflow = True
                break
            n = self._new(None, (ctx, bb))
            self._start[key] = n
            self._edge(frm, n, labels)
            self._block(ctx, bb, dict(env), clostack, n)

    def _go(self, ctx, bb, env, clostack, frm, labels=()):
        live = ctx.fn.flow()[1][bb]
        cid = ctx.id
        fr = frozenset((k, v) for k, v in env.items() if k[0] != cid or k[1] in live)
        self.work.append((ctx, bb, fr, clostack, frm, labels))

    def _lpath(self, e):
        return e if e[0] in PATHY else ('loc', '?')

    def _block(self, ctx, bb, env, clostack, n):
        an, fn = self.an, ctx.fn
        self.funcs.add(fn.name)
        b = fn.bbs[bb]
        track = fn.flow()[0]
        multi = fn.multi
        cid = ctx.id
        isclo = fn.j.get('closure')
        for i, (pl, rv, sp) in enumerate(b['s']):
            L = pl[0]
            if len(pl) == 1:
                if rv[0] == 'setdiscr':
                    continue
                v = None
                if L in track:
                    if L in multi or L == 0 or any((cid, x) in env for x in rv_all_locals(rv)):
                        v = an.fix_app(an.rvalue(ctx, bb, i, rv, env))
                if rv[0] == 'ref' and rv[2] and len(rv[1]) == 1:
                    env.pop((cid, rv[1][0]), None)
                if v is None:
                    env.pop((cid, L), None)
                else:
                    env[(cid, L)] = v
                if L == 0 and ctx is self.root:
                    if v is None:
                        v = an.fix_app(an.rvalue(ctx, bb, i, rv, env))
                    n = self._chain(n, Op('ret', ctx, bb, i, sp, val=v), (ctx, bb))
                continue
            if rv[0] == 'ref' and rv[2] and len(rv[1]) == 1:
                env.pop((cid, rv[1][0]), None)
            deref = '*' in pl[1:] or '*raw' in pl[1:]
            if not deref and not (isclo and L == 1):
                env.pop((cid, L), None)
                continue
            if rv[0] == 'setdiscr':
                continue
            path = self._lpath(an.place(ctx, bb, i, pl, env))
            n = self._chain(n, Op('w', ctx, bb, i, sp, args=(path,), val=an.fix_app(an.rvalue(ctx, bb, i, rv, env))), (ctx, bb))
        t = b['t']
        k = t[0]
        ns = len(b['s'])
        if k == 'goto':
            self._go(ctx, t[1], env, clostack, n)
        elif k == 'assert':
            self._go(ctx, t[3], env, clostack, n)
        elif k == 'drop':
            n = self._chain(n, Op('drop', ctx, bb, ns, b['sp'], args=(an.place(ctx, bb, ns, t[1], env),), ty=t[3]), (ctx, bb))
            self._go(ctx, t[2], env, clostack, n)
        elif k == 'switch':
            self._switch(ctx, bb, t, env, clostack, n)
        elif k == 'return':
            self._return(ctx, bb, env, clostack, n)
        elif k == 'call':
            self._call(ctx, bb, t, env, clostack, n)

    def _branch(self, ctx, tgt, env, clostack, n, cond, refine):
        """edges for boolean formula `cond` being true"""
        for labels in dnf(cond, True):
            env2 = dict(env)
            refine(env2)
            self._go(ctx, tgt, env2, clostack, n, labels)

    def _switch(self, ctx, bb, t, env, clostack, n):
        an, fn = self.an, ctx.fn
        ns = len(fn.bbs[bb]['s'])
        o = t[1]
        L = o[1][0] if o[0] in 'cm' and len(o[1]) == 1 else None
        if L is not None and L in fn.flow()[2]:
            for s in dict.fromkeys([a[1] for a in t[2]] + [t[3]]):
                self._go(ctx, s, env, clostack, n)
            return
        e = an.fix_app(an.operand(ctx, bb, ns, o, env))
        conds = []
        if e[0] == 'discr':
            m = dict(e[2])
            for v, s in t[2]:
                conds.append((mk_is(e[1], m.get(v, str(v))), s, v))
        elif t[4] == 'bool':
            for v, s in t[2]:
                conds.append((e if v else mk_not(e), s, v))
        else:
            for v, s in t[2]:
                conds.append((mk_cmp('Eq', e, C(v)), s, v))
        src = self._discr_src(ctx, bb, o)
        neg = []
        for c, s, v in conds:
            if is_c(c, 0):
                continue
            def refine(env2, v=v):
                if L is not None and L in fn.multi:
                    env2[(ctx.id, L)] = C(v)
                if src and (ctx.id, src[0]) in env2 and v in src[1]:
                    env2[(ctx.id, src[0])] = narrow(env2[(ctx.id, src[0])], src[1][v])
            self._branch(ctx, s, env, clostack, n, c, refine)
            if is_c(c, 1):
                return
            neg.append(c)
        ob = fn.bbs[t[3]]
        if ob['t'][0] == 'unreachable' and not ob['s']:
            return
        def refine(env2):
            if L is not None and L in fn.multi and t[4] == 'bool' and len(t[2]) == 1:
                env2[(ctx.id, L)] = C(1 - t[2][0][0])
            if src and (ctx.id, src[0]) in env2:
                rest = [x for x in src[1] if x not in [v for v, _ in t[2]]]
                if len(rest) == 1:
                    env2[(ctx.id, src[0])] = narrow(env2[(ctx.id, src[0])], src[1][rest[0]])
        f = ('and', tuple(mk_not(c) for c in neg)) if len(neg) != 1 else mk_not(neg[0])
        self._branch(ctx, t[3], env, clostack, n, f, refine)

    def _discr_src(self, ctx, bb, o):
        if o[0] not in 'cm' or len(o[1]) != 1:
            return None
        for st in reversed(ctx.fn.bbs[bb]['s']):
            if st[0] == [o[1][0]]:
                if st[1][0] == 'discr' and all(x == '*' for x in st[1][1][1:]):
                    return st[1][1][0], dict((a, b) for a, b in st[1][3])
                return None
        return None

    def _return(self, ctx, bb, env, clostack, n):
        an = self.an
        rv = env.get((ctx.id, 0))
        env2 = {k: v for k, v in env.items() if k[0] != ctx.id}
        if clostack and clostack[-1][0] == ctx.id:
            _, pctx, pbb, mode, hof, recv = clostack[-1]
            rest = clostack[:-1]
            t = pctx.fn.bbs[pbb]['t']
            if rv is None:
                rv = an.ret_value(ctx)
            if mode == 'loop':
                self._go(ctx, 0, env2, clostack, n)
                env2.pop((pctx.id, t[3][0]), None)
                self._dest(pctx, pbb, t, env2, rest, n, None)
                return
            r = None
            if mode == 'call':
                r = rv
            elif mode in ('some', 'true') and hof in ('Option::map', 'bool::then'):
                r = ('agg', 'Option', 'Some', (('0', rv),))
            elif mode == 'some' and hof == 'Result::map':
                r = ('agg', 'Result', 'Ok', (('0', rv),))
            elif mode == 'none' and hof in ('Result::map_err', 'Option::ok_or_else'):
                r = ('agg', 'Result', 'Err', (('0', rv),))
            elif mode == 'some' and hof == 'Option::filter':
                r = None
            elif mode in ('some', 'none'):
                r = rv
            self._dest(pctx, pbb, t, env2, rest, n, r)
            return
        if ctx.parent is None:
            m = self._new(None, ('exit', ctx.fn.bbs[bb]['sp']))
            m.ret = rv if rv is not None else an.ret_value(ctx)
            self._edge(n, m)
            self.exits.append(m)
            return
        p = ctx.parent
        t = p.fn.bbs[ctx.site]['t']
        self._dest(p, ctx.site, t, env2, clostack, n, rv)

    def _dest(self, ctx, bb, t, env, clostack, n, val):
        """store a call result (val: path-sensitive value or None = by provenance) and continue"""
        an = self.an
        dest = t[3]
        if len(dest) == 1:
            L = dest[0]
            v = val
            if v is None and L in ctx.fn.multi and L in ctx.fn.flow()[0]:
                v = an.fix_app(an.call_value(ctx, bb))
            if v is not None and L in ctx.fn.flow()[0]:
                env[(ctx.id, L)] = v
            else:
                env.pop((ctx.id, L), None)
            if L == 0 and ctx is self.root:
                v = v if v is not None else an.fix_app(an.call_value(ctx, bb))
                n = self._chain(n, Op('ret', ctx, bb, 'T', ctx.fn.bbs[bb]['sp'], val=v), (ctx, bb))
        elif '*' in dest[1:] or (ctx.fn.j.get('closure') and dest[0] == 1):
            ns = len(ctx.fn.bbs[bb]['s'])
            v = val if val is not None else an.fix_app(an.call_value(ctx, bb))
            n = self._chain(n, Op('w', ctx, bb, 'T', ctx.fn.bbs[bb]['sp'], args=(self._lpath(an.place(ctx, bb, ns, dest, env)),), val=v), (ctx, bb))
        if t[4] is not None:
            self._go(ctx, t[4], env, clostack, n)

    def _call(self, ctx, bb, t, env, clostack, n):
        an = self.an
        name, r, f = an.callee(ctx, bb)
        ns = len(ctx.fn.bbs[bb]['s'])
        args = [an.fix_app(x) for x in an.args(ctx, bb, env)]
        b = ctx.fn.bbs[bb]
        envd = any(a[0] in 'cm' and (ctx.id, a[1][0]) in env for a in t[2])
        cc = an.closure_call(name, args)
        if cc is not None and cc[0][0] == 'closure' and an.prog.fn(cc[0][1]) and cc[0][1] not in ctx.chain:
            self._enter_closure(ctx, bb, cc[0], cc[1], 'call', name, env, clostack, n, ())
            return
        bi = an.builtin(name, args, r) if name not in an.opaque else None
        if bi is None and an.should_inline(ctx, name, r, f):
            c = an.child(ctx, bb, f, an.args(ctx, bb))
            env2 = dict(env)
            track = f.flow()[0]
            if envd:
                for i, o in enumerate(t[2]):
                    if i + 1 in track and o[0] in 'cm' and (ctx.id, o[1][0]) in env:
                        env2[(c.id, i + 1)] = args[i]
            self._go(c, 0, env2, clostack, n)
            return
        op = self._call_op(ctx, bb, name, r, args, b, bi)
        if op is not None:
            n = self._chain(n, op, (ctx, bb))
        if t[4] is None:
            n = self._chain(n, Op('panic', ctx, bb, 'T', b['sp'], name=name, args=args), (ctx, bb))
            self.panics.append(n)
            return
        val = None
        if envd:
            if bi is not None:
                val = bi
            elif name in IDENTITY and name not in an.opaque and args:
                val = args[0]
            else:
                val = ('call', an.cname(name, r), tuple(args))
        clos = []
        for i, a in enumerate(args):
            for x in alts(a):
                if x[0] == 'closure' and an.prog.fn(x[1]) and x[1] not in ctx.chain:
                    clos.append((i, x))
        if clos and len(clostack) < 6:
            hof = HOF.get(name, {})
            lab = []
            for i, clo in clos:
                mode = hof.get(i, 'loop')
                recv = args[0]
                ok = 'Ok' if name.startswith('Result') else 'Some'
                if mode in ('some', 'none', 'true'):
                    cond = recv if mode == 'true' else mk_is(recv, ok)
                    if mode == 'none':
                        cond = mk_not(cond)
                    if is_c(cond, 0):
                        continue
                    if mode == 'some':
                        cargs = [an.fix_app(mk_payload(recv, ok, '0'))]
                    elif mode == 'none' and name.startswith('Result'):
                        cargs = [mk_payload(recv, 'Err', '0')]
                    else:
                        cargs = []
                    for labels in dnf(cond, True):
                        self._enter_closure(ctx, bb, clo, cargs, mode, name, env, clostack, n, labels)
                    lab.append(mk_not(cond))
                else:
                    np_ = an.prog.fn(clo[1]).nargs - 1
                    el = an.fix_app(elem_of(recv))
                    cargs = [el] * np_
                    if name == 'Iterator::fold' and np_ == 2:
                        cargs = [args[1], el]
                    if name in ('[T]::sort_by', '[T]::sort_by_key', 'Vec::retain', '[T]::binary_search_by'):
                        cargs = [el] * np_
                    self._enter_closure(ctx, bb, clo, cargs, 'loop', name, env, clostack, n, ())
            if any(is_c(x, 0) for x in lab):
                return
            v2 = val
            if name in ('Option::map', 'Option::and_then', 'bool::then'):
                v2 = ('agg', 'Option', 'None', ())
            elif name in ('Result::map', 'Result::and_then'):
                v2 = ('agg', 'Result', 'Err', (('0', mk_payload(args[0], 'Err', '0')),))
            elif name in ('Result::map_err', 'Option::ok_or_else'):
                v2 = ('agg', 'Result', 'Ok', (('0', an.fix_app(mk_payload(args[0], 'Some', '0'))),))
            elif name in ('Option::unwrap_or_else', 'Result::unwrap_or_else'):
                v2 = an.fix_app(mk_payload(args[0], 'Some', '0'))
            elif name == 'Option::map_or':
                v2 = args[1]
            elif name in ('Option::is_some_and', 'Result::is_ok_and'):
                v2 = C(0)
            elif name == 'Option::is_none_or':
                v2 = C(1)
            elif name in ('Option::or_else',):
                v2 = args[0]
            if lab:
                cond = ('and', tuple(lab)) if len(lab) > 1 else lab[0]
                for labels in dnf(cond, True):
                    m = self._new(None, (ctx, bb))
                    self._edge(n, m, labels)
                    self._dest(ctx, bb, t, dict(env), clostack, m, v2)
            else:
                self._dest(ctx, bb, t, dict(env), clostack, n, v2)
            return
        self._dest(ctx, bb, t, env, clostack, n, val)

    def _enter_closure(self, ctx, bb, clo, cargs, mode, hof, env, clostack, n, labels):
        an = self.an
        f = an.prog.fn(clo[1])
        key = ('clo', bb, clo[1], mode)
        c = ctx.kids.get(key)
        if c is None:
            c = Ctx(an, f, ctx, bb, [clo] + list(cargs))
            ctx.kids[key] = c
        env2 = dict(env)
        track = f.flow()[0]
        for i, x in enumerate([clo] + list(cargs)):
            if i < len(c.args) and c.args[i] != x and i + 1 in track:
                env2[(c.id, i + 1)] = x
        self._go(c, 0, env2, clostack + ((c.id, ctx, bb, mode, hof, None),), n, labels)

    def _call_op(self, ctx, bb, name, r, args, b, bi):
        an = self.an
        sp = b['sp']
        if name in MEMWRITE and len(args) == 2:
            v = args[1]
            if name in ('Option::replace', 'Option::insert'):
                v = ('agg', 'Option', 'Some', (('0', v),))
            return Op('w', ctx, bb, 'T', sp, args=(self._lpath(args[0]),), val=v, name=name)
        if name in MEMTAKE:
            return Op('w', ctx, bb, 'T', sp, args=(self._lpath(args[0]),), val=DEFAULT, name=name)
        if name in an.opaque or r in an.opaque or name in GUARDS:
            return Op('call', ctx, bb, 'T', sp, name=name, rname=r, args=args)
        if bi is not None or name in IDENTITY:
            return None
        if name.startswith(PURE_PREFIX):
            return None
        return Op('call', ctx, bb, 'T', sp, name=an.cname(name, r), rname=r, args=args)

    # ------------------------------------------------------------------ queries
    def ops(self, pred=None):
        return [n for n in self.nodes if n.op is not None and (pred is None or pred(n.op))]

    def calls(self, *names):
        return [n for n in self.nodes if n.op is not None and n.op.kind == 'call' and (n.op.name in names or n.op.rname in names)]

    def writes(self, rx):
        r = re.compile(rx)
        return [n for n in self.nodes if n.op is not None and n.op.kind == 'w' and r.fullmatch(n.op.path)]

    def guards(self):
        """node id -> {atom: polarity}: conditions whose latest evaluation is known on every path"""
        if self._guards is not None:
            return self._guards
        G = [None] * len(self.nodes)
        G[self.entry.id] = {}
        work = [self.entry]
        inq = {self.entry.id}
        while work:
            n = work.pop()
            inq.discard(n.id)
            g = G[n.id]
            for m, labels in n.succ:
                h = g
                if labels:
                    h = dict(g)
                    for a, p in labels:
                        h[a] = p
                if G[m.id] is None:
                    G[m.id] = dict(h)
                    ch = True
                else:
                    old = G[m.id]
                    new = {k: v for k, v in old.items() if h.get(k) == v}
                    ch = len(new) != len(old)
                    if ch:
                        G[m.id] = new
                if ch and m.id not in inq:
                    inq.add(m.id)
                    work.append(m)
        self._guards = G
        return G

    def gs(self, n):
        g = self.guards()[n.id] or {}
        return {(show(a) if p else '!' + show(a)) for a, p in g.items()}

    def path(self, starts, goal, avoid=None, edge_ok=None):
        """a shortest path (list of nodes) from a start to a node satisfying goal, avoiding nodes/edges"""
        par = {}
        dq = deque()
        for s in starts:
            par[s.id] = None
            dq.append(s)
        while dq:
            n = dq.popleft()
            for m, lab in n.succ:
                if m.id in par:
                    continue
                if edge_ok is not None and not edge_ok(n, m, lab):
                    continue
                if avoid is not None and avoid(m):
                    continue
                par[m.id] = n
                if goal(m):
                    out = [m]
                    while par[out[-1].id] is not None:
                        out.append(par[out[-1].id])
                    return out[::-1]
                dq.append(m)
        return None

    def describe(self, path, limit=14):
        out = []
        prev = None
        for n in path:
            if prev is not None:
                for m, lab in prev.succ:
                    if m is n and lab:
                        out.append('[' + ', '.join(('' if p else '!') + show(a)[:90] for a, p in lab) + ']')
                        break
            if n.op is not None:
                out.append('%s %s' % (n.op.span, repr(n.op)[:140]))
            elif n.where and n.where[0] == 'exit':
                out.append('exit')
            prev = n
        if len(out) > limit:
            out = out[:limit // 2] + ['...'] + out[-limit // 2:]
        return ' -> '.join(out)


def narrow(e, variant):
    """restrict a joined term to the given enum variant"""
    if e[0] == 'phi':
        keep = [a for a in e[1] if not (a[0] == 'agg' and a[2] is not None and a[2] != variant)]
        if keep:
            return mk_phi(keep)
    return e

def atom(e):
    if e[0] == 'not':
        a, p = atom(e[1])
        return a, not p
    return e, True

def dnf(c, pol):
    """label tuples, one per disjunct, for formula c having truth value pol"""
    if c[0] == 'not':
        return dnf(c[1], not pol)
    if c[0] == 'c':
        return [()] if bool(c[1]) == pol else []
    if c[0] == 'and':
        parts = c[1]
        if pol:
            out = [()]
            for x in parts:
                out = [a + b for a in out for b in dnf(x, True)]
            return out
        out = []
        pre = [()]
        for x in parts:
            out += [a + b for a in pre for b in dnf(x, False)]
            pre = [a + b for a in pre for b in dnf(x, True)]
        return out
    return [((c, pol),)]

"""Contract conformance: every function a property names is compared, path by path, with its reviewed contract.

The contract of a function is the set of its canonical path outcomes (conditions -> effects in order, result,
loop state) in the reviewed reference facts (spec/ref.json.gz).  Functions are compared by what their paths do, so
helpers that were added, inlined, renamed or turned into trait defaults are resolved first.
"""
import re, json, gzip, os, tempfile, difflib, signal, time
from core import Program, Missing
from paths import Paths, Too
from relate import canon, compare
from policy import Policy
import core

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')


def load_program(text):
    f = tempfile.NamedTemporaryFile('w', delete=False, suffix='.json')
    try:
        f.write(text)
        f.close()
        return Program(f.name)
    finally:
        os.unlink(f.name)


def load_reference():
    return load_program(gzip.open(os.path.join(SPEC, 'ref.json.gz'), 'rt').read())


def rx(glob):
    return re.compile('.*'.join(re.escape(x) for x in glob.split('*')) + r'\Z')


def skip(name, fn):
    return '{closure' in name or 'Debug' in name or name.endswith('assert_fields_are_eq') or name.endswith('::assert_receiver_is_total_eq')


def members(prog, globs):
    out, empty = set(), []
    for g in globs:
        r = rx(g)
        m = {n for n in prog.fns if r.match(n) and not skip(n, prog.fns[n])}
        if not m:
            empty.append(g)
        out |= m
    return out, empty


def container(n):
    return n.rsplit('::', 1)[0] if '::' in n else ''


def last(n):
    return n.rsplit('::', 1)[-1]


def sig(f):
    return (f.nargs, tuple(t for t, _ in f.j['locals'][:f.nargs + 1]))


def callees(fn):
    for b in fn.bbs:
        t = b['t']
        if t[0] == 'call' and 'n' in t[1]:
            yield t[1]['n'], t[1].get('r')


def callers_of(prog):
    m = {}
    for n, f in prog.fns.items():
        owner = n.split('::{closure')[0]
        for a, r in callees(f):
            for x in (a, r):
                if x:
                    m.setdefault(x, set()).add(owner)
    return m


def aliases(ref, text):
    """functions and fields that were only renamed: rewritten to their reference names in the facts"""
    d = json.loads(text)
    names = {}
    for j in d['fns']:
        names.setdefault(j['name'], j)
    have = set(names)
    rnames = {j['name'] for j in ref.d['fns']}
    gone = [n for n in rnames if n not in have and '{closure' not in n]
    gone = [n for n in gone if n in ref.fns and not ref.fns[n].j.get('derived')]
    new = [n for n in have if n not in rnames and '{closure' not in n and not names[n].get('derived')]
    sg = lambda j: (j['nargs'], tuple(t for t, _ in j['locals'][:j['nargs'] + 1]))
    ren = {}
    calls_ref = callers_of(ref)
    used = set()
    for g in sorted(gone):
        cand = [n for n in new if n not in used and (container(n) == container(g) or last(n) == last(g)) and sg(names[n]) == sg(ref.fns[g].j)]
        if not cand:
            continue
        cand.sort(key=lambda n: -difflib.SequenceMatcher(None, last(n), last(g)).ratio())
        ren[cand[0]] = g
        used.add(cand[0])
    # fields
    rf = {}
    for a in ref.d['adts']:
        rf[a['path']] = a
    allref = {f['n'] for a in ref.d['adts'] for v in a['variants'] for f in v['f']}
    fren = {}
    for a in d['adts']:
        b = rf.get(a['path'])
        if not b or len(a['variants']) != len(b['variants']):
            continue
        for v, w in zip(a['variants'], b['variants']):
            vn, wn = {f['n'] for f in v['f']}, {f['n'] for f in w['f']}
            fresh = [f for f in v['f'] if f['n'] not in wn and f['n'] not in allref]
            lost = [f for f in w['f'] if f['n'] not in vn]
            for f in fresh:
                m = [g for g in lost if g['ty'] == f['ty']]
                if len(m) == 1 and len([x for x in fresh if x['ty'] == f['ty']]) == 1:
                    fren[f['n']] = m[0]['n']
                elif len(fresh) == len(lost) == 1:
                    fren[f['n']] = lost[0]['n']
    for a, b in ren.items():
        text = re.sub(r'"%s(?="|::\{closure)' % re.escape(json.dumps(a)[1:-1]), lambda m, b=b: '"' + json.dumps(b)[1:-1], text)
    for a, b in fren.items():
        text = text.replace('"%s"' % a, '"%s"' % b)
    return text, ren, fren


def callnames(rows, prog, me=None):
    """the crate functions named in the rows; me: the function they are of, whose own type's trait methods on self count"""
    out = set()
    m = re.match(r'<(\S+) as [^>]*>::|((?:\w+::)*\w+)::\w+$', me or '')
    own = m and (m.group(1) or m.group(2))
    def go(e):
        if isinstance(e, tuple) and e:
            if e[0] == 'call' and len(e) > 2 and isinstance(e[1], str):
                out.add(e[1])
            for x in e:
                if isinstance(x, tuple):
                    go(x)
    for r in rows:
        for a in r.val:
            go(a)
        for e in r.ev:
            out.add(e[1])
            if own and e[2] and core.show(e[2][0]) == 'self' and e[1] and '::' in e[1]:
                t, _, x = e[1].rpartition('::')
                out.add('<%s as %s>::%s' % (own, t, x))
            for x in e[2]:
                go(x)
            if e[3] is not None:
                go(e[3])
        if r.ret is not None:
            go(r.ret)
        for v in r.mu.values():
            go(v)
    return {n for n in out if n in prog.fns}


class Late(BaseException):
    pass

START = time.time()

def limited(seconds, f):
    """f(), or Late after so many seconds"""
    def late(*_):
        raise Late()
    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def conform(ref, cur, pol, rn, cn, selfarg=None, first=None):
    """-> (mismatches, contract rows, current rows).  The two functions are compared as they stand; if that fails, with
    the crate functions only one of them calls analysed in place, and with their loops entered after the loop test."""
    a = canon(Paths(ref, pol).run(rn))
    try:
        b = canon(Paths(cur, pol).run(cn, selfarg))
    except Too as e:
        return [e], a, []
    bad = compare(a, b)
    if first is not None:
        first.append((bad, a, b))
    if not bad:
        return bad, a, b
    extra = set()
    ra, rb = a, b
    for rnd in range(3):
        na, nb = callnames(ra, ref, rn), callnames(rb, cur, cn)
        d = {n for n in na ^ nb if n not in (rn, cn)}
        if not d - extra:
            break
        extra |= d
        p2 = lambda f: pol(f) or f.name in extra
        try:
            ra, rb = canon(Paths(ref, p2).run(rn)), canon(Paths(cur, p2).run(cn, selfarg))
        except (Too, RecursionError):
            break
        if not compare(ra, rb):
            return [], a, b
    tried = set()
    for size in (12, 5):
        small = {n for pr, rows in ((ref, a), (cur, b)) for n in callnames(rows, pr) if n not in (rn, cn) and len(pr.fns[n].bbs) <= size and not pr.fns[n].j.get('derived')}
        if not small or small == tried:
            continue
        tried = small
        p2 = lambda f: pol(f) or f.name in extra or f.name in small
        try:
            if not compare(canon(Paths(ref, p2).run(rn)), canon(Paths(cur, p2).run(cn, selfarg))):
                return [], a, b
        except (Too, RecursionError):
            pass
    if any(r.end.startswith('L') for r in a + b):
        for p2 in [pol] + ([lambda f: pol(f) or f.name in extra] if extra else []):
            modes = {}
            def rows(side, inv, bulk, strong=False):
                k = (side, inv, bulk, strong)
                if k not in modes:
                    try:
                        modes[k] = canon(Paths(ref, p2, inv=inv, bulk=bulk).run(rn) if side == 'r' else Paths(cur, p2, inv=inv, bulk=bulk, strong=strong).run(cn, selfarg))
                    except (Too, RecursionError):
                        modes[k] = None
                return modes[k]
            # (contract, current) loops entered after their test or before it; filling a collection as a loop or as one step
            for x, y, bulk in ((True, True, False), (False, True, False), (True, False, False), (False, False, True), (True, True, True)):
                ra, rb = rows('r', x, bulk), rows('c', y, bulk)
                if ra is not None and rb is not None and not compare(ra, rb):
                    return [], a, b
            for x in (False, True):
                ra, rb = rows('r', x, False), rows('c', x, False, True)
                if ra is not None and rb is not None and not compare(ra, rb):
                    return [], a, b
    return bad, a, b


class Conformance:
    def __init__(self, ref, cur):
        self.ref, self.cur = ref, cur
        self.pol = Policy(ref, cur)
        self.rcall = callers_of(ref)
        self.ccall = callers_of(cur)
        self.memo = {}
        self.dmemo = {}
        self.vals = None
        self.stats = dict(functions=0, contract_rows=0, current_rows=0, effects=0, conditions=0)

    def default_of(self, n, prog):
        """trait default a method `<T as Tr>::m` falls back to"""
        m = re.match(r'<.* as (\w+)(?:<.*)?>::(\w+)', n)
        if m:
            d = '%s::%s' % (m.group(1), m.group(2))
            return d if d in prog.fns else None
        return None

    def targets(self, names):
        """(reference function, current function) pairs to compare, and functions that vanished"""
        pairs, lost, seen = [], [], set()
        work = sorted(names)
        while work:
            n = work.pop()
            if n in seen:
                continue
            seen.add(n)
            f, g = self.ref.fns[n], self.cur.fns.get(n)
            if g is not None and g.nargs == f.nargs:
                pairs.append((n, n))
                continue
            if g is None:
                d = self.default_of(n, self.cur)
                if d and self.cur.fns[d].nargs == f.nargs:
                    pairs.append((n, d))
                    continue
            if f.j.get('derived'):
                # a derive replaced by std behaviour or removed together with all uses
                lost.append(n)
                continue
            up = [c for c in self.rcall.get(n, ()) if c in self.ref.fns and c != n]
            if up:
                work.extend(up)
            else:
                lost.append(n)
        # overrides that did not exist: must behave as the default they replace
        for n in self.cur.fns:
            if n in self.ref.fns or skip(n, self.cur.fns[n]):
                continue
            d = self.default_of(n, self.ref)
            if d and d in names and self.cur.fns[n].nargs == self.ref.fns[d].nargs:
                pairs.append((d, n))
        return sorted(set(pairs)), lost

    def reachable(self, names):
        """the functions and everything of the crate they call, directly or not (resolved calls)"""
        own = {}
        for n in self.ref.fns:
            own.setdefault(n.split('::{closure')[0], []).append(n)
        out, work = set(), list(names)
        while work:
            n = work.pop()
            if n in out:
                continue
            out.add(n)
            for m in own.get(n, ()):
                for a, r in callees(self.ref.fns[m]):
                    for x in (r, a):
                        if x in self.ref.fns and not skip(x, self.ref.fns[x]):
                            work.append(x)
        return out

    def rows(self, prog, name, selfarg=None):
        return canon(Paths(prog, self.pol).run(name, selfarg))

    def check(self, rn, cn):
        k = (rn, cn)
        if k not in self.memo:
            self.memo[k] = self._check(rn, cn)
        return self.memo[k]

    def direct(self, rn, cn, more=frozenset()):
        """conform, with the functions in more analysed in place"""
        k = (rn, cn, more)
        if k not in self.dmemo:
            f = self.ref.fns[rn]
            sa = f.nargs > 0 and f.locals[1][1] == 'self'
            pol = (lambda g: self.pol(g) or g.name in more) if more else self.pol
            first = []
            try:
                self.dmemo[k] = limited(60 if time.time() - START < 400 else 25, lambda: conform(self.ref, self.cur, pol, rn, cn, sa, first))
            except Late:        # what was found before looking for another reading of the two functions
                self.dmemo[k] = first[0] if first else (['%s: paths of %s cannot be compared within the time given' % (f.j['span'], rn)], [], [])
            except (Too, Missing, RecursionError) as e:
                self.dmemo[k] = ['%s: paths of %s cannot be enumerated within bounds (%r)' % (f.j['span'], rn, e)], [], []
        return self.dmemo[k]

    def passed(self, n):
        """is the function also used as a value, which may be called from anywhere"""
        if self.vals is None:
            self.vals = set()
            st = [j for pr in (self.ref, self.cur) for j in pr.d['fns']]
            while st:
                x = st.pop()
                if isinstance(x, dict):
                    if isinstance(x.get('fn'), str):
                        self.vals.add(x['fn'])
                    st += [y for y in x.values() if isinstance(y, (dict, list))]
                else:
                    st += [y for y in x if isinstance(y, (dict, list))]
        return n in self.vals

    def private(self, n):
        """only called from this crate, so nothing but its callers depends on what it takes and returns"""
        f, g = self.ref.fns.get(n), self.cur.fns.get(n)
        return f is not None and g is not None and not n.startswith('<') and not any(x.j.get('pub', True) or x.j.get('derived') or '{closure' in n for x in (f, g)) \
            and n not in self.rcall.get(n, ()) and n not in self.ccall.get(n, ()) and bool(self.rcall.get(n)) and not self.passed(n)

    def around(self, rn, cn, more=frozenset()):
        """compare with the private functions it calls analysed in place where these changed themselves"""
        bad, a, b = self.direct(rn, cn, more)
        if not bad or not a or not b:
            return bad, a, b
        x, y = a, b
        for _ in range(3):
            called = {n for pr, rows in ((self.ref, x), (self.cur, y)) for n in callnames(rows, pr)} - more - {rn, cn}
            new = {n for n in called if self.private(n) and self.direct(n, n)[0]}
            if not new:
                break
            more = more | new
            bad2, x, y = self.direct(rn, cn, more)
            if not bad2:
                return [], a, b
            if not x or not y:
                break
        return bad, a, b

    def _check(self, rn, cn):
        f, g = self.ref.fns[rn], self.cur.fns[cn]
        bad, a, b = self.around(rn, cn)
        if bad and rn == cn and self.private(rn) and time.time() - START < 500:
            up = [c for c in sorted(self.rcall[rn] | {c for c in self.ccall.get(rn, ()) if c in self.ref.fns})]
            if all(c in self.ref.fns and c in self.cur.fns and self.ref.fns[c].nargs == self.cur.fns[c].nargs and not self.around(c, c, frozenset([rn]))[0] for c in up):
                bad = []
        out = []
        for m in bad:
            if isinstance(m, str):
                out.append(m)
            elif isinstance(m, Exception):
                out.append('%s %s: paths cannot be enumerated within bounds (%s)' % (g.j['span'], cn, m))
            else:
                out.append('%s %s: %s' % (m.loc() or g.j['span'], cn, m.text()))
        return out, len(a), len(b)

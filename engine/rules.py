"""Repository-specific dataflow and type rules (see DESIGN.md).

Each rule takes the reviewed reference program and the current one and returns
(violations [(key, text)], coverage).  The path contracts treat lock operations as transparent and
never look inside a hasher, so these rules decide what they cannot see.
"""
import re

GUARD = re.compile(r'(?<![&\w])(RwLockReadGuard|RwLockUpgradableReadGuard|RwLockWriteGuard|MutexGuard|MappedRwLock\w+Guard)<')
REFD = re.compile(r'&(?:\'\w+ )?(?:mut )?(?:&(?:mut )?)*(?:\w+<)?(RwLockReadGuard|RwLockUpgradableReadGuard|RwLockWriteGuard|MutexGuard)?')
KIND = {'RwLockReadGuard': 'shared', 'RwLockUpgradableReadGuard': 'upgradable', 'RwLockWriteGuard': 'exclusive', 'MutexGuard': 'exclusive'}
ACQ = {'read': 'shared', 'write': 'exclusive', 'upgradable_read': 'upgradable', 'lock': 'exclusive',
       'try_read': 'shared', 'try_write': 'exclusive', 'try_upgradable_read': 'upgradable', 'try_lock': 'exclusive',
       'read_recursive': 'shared'}


def calls(f):
    """(block, callee, args, dest, target) of the non-cleanup calls"""
    for i, b in enumerate(f.bbs):
        if not b['cl'] and b['t'][0] == 'call' and isinstance(b['t'][1], dict) and 'n' in b['t'][1]:
            yield i, b['t'][1], b['t'][2], b['t'][3], b['t'][4]


def span(f, i):
    b = f.bbs[i]
    return b.get('sp') or (b['s'][-1][2] if b['s'] else f.span)


def everything(p):
    """each function with its closures (closures are functions of their own) and promoteds"""
    for f in p.fns.values():
        yield f


def closure_names(f):
    """closure bodies created in f"""
    out = []
    for b in f.bbs:
        for s in b['s']:
            rv = s[1]
            if rv and rv[0] == 'agg' and rv[1] == 'closure':
                out.append((s[0][0] if len(s[0]) == 1 else None, rv[2] if isinstance(rv[2], str) else (rv[2][0] if rv[2] else None)))
    return out


def callees(p, f):
    out = set()
    for _, c, _, _, _ in calls(f):
        for n in (c.get('r'), c.get('n')):
            if n in p.fns:
                out.add(n)
                break
    for _, n in closure_names(f):
        if n in p.fns:
            out.add(n)
    return out


# ------------------------------------------------------------------------------------------------
# lock protocol (C26)

def protected(c):
    ta = [t for t in c.get('ta', []) if not t.startswith('Raw')]
    return ta[0] if ta else '?'


def holders(p):
    """structs that own guards: type name -> kinds"""
    out = {}
    for a in p.adts:
        a = p.adts[a] if isinstance(a, str) else a
        for v in a['variants']:
            for fl in v['f']:
                if GUARD.search(fl['ty']):
                    out[a['name']] = 'handed'
    return out


def guard_of(ty, hold):
    """(class, kind, by_ref) of a guard-carrying type, else None"""
    ref = ty.startswith('&')
    m = re.search(r'(RwLockReadGuard|RwLockUpgradableReadGuard|RwLockWriteGuard|MutexGuard)<(.*)', ty)
    if m:
        pre = ty[:m.start()]
        inner = '&' in pre.lstrip('&').replace('&mut ', '', 0) if not ref else False
        if not ref and '&' in pre:
            return None                      # Option<&Guard>: a borrow of a guard held elsewhere
        body, depth = '', 1
        for ch in m.group(2):
            depth += (ch == '<') - (ch == '>')
            if not depth:
                break
            body += ch
        parts, depth, curp = [], 0, ''
        for ch in body:
            depth += (ch in '<(') - (ch in '>)')
            if ch == ',' and not depth:
                parts.append(curp)
                curp = ''
            else:
                curp += ch
        parts.append(curp)
        parts = [x for x in parts if not x.startswith('Raw')]
        return parts[0] if parts else '?', KIND[m.group(1)], ref
    for h in hold:
        if re.match(r'(&(mut )?)*%s<' % re.escape(h), ty):
            return 'DFA', 'handed', ref
    return None


class Locks:
    def __init__(self, p):
        self.p = p
        self.hold = {h: 1 for h in holders(p)}
        self.acq = {}            # fn -> [(bb, class, kind)]
        self.leaks = []
        for n, f in p.fns.items():
            for i, c, args, dest, tgt in calls(f):
                nm = c['n'].rsplit('::', 1)[-1]
                head = c['n'].rsplit('::', 1)[0]
                if nm in ACQ and head.rsplit('::', 1)[-1] in ('RwLock', 'Mutex'):
                    self.acq.setdefault(n, []).append((i, protected(c), ACQ[nm]))
                if nm in ('upgrade', 'try_upgrade') and head.endswith('UpgradableReadGuard'):
                    self.acq.setdefault(n, []).append((i, protected(c), 'upgrade'))
                if nm in ('leak', 'forget', 'data_ptr', 'force_unlock', 'force_unlock_read', 'force_unlock_write', 'raw', 'make_read_guard_unchecked', 'make_write_guard_unchecked', 'bump', 'unlocked', 'unlocked_fair') \
                        and (head.endswith('RwLock') or any('Guard<' in t for t in c.get('ta', [])) or 'Guard' in head):
                    self.leaks.append((n, i, c['n']))
        # transitive acquisitions
        self.trans = {n: {(c, k) for _, c, k in v} for n, v in self.acq.items()}
        self.cal = {n: callees(p, f) for n, f in p.fns.items()}
        ch = True
        while ch:
            ch = False
            for n, cs in self.cal.items():
                s = self.trans.get(n, set())
                t = set(s)
                for c in cs:
                    t |= self.trans.get(c, set())
                if t != s:
                    self.trans[n] = t
                    ch = True

    def live(self, f):
        """guards that may be held before each block's terminator: {bb: set of (local, class, kind)}"""
        gl = {}
        for l, (ty, _) in enumerate(f.locals):
            g = guard_of(ty, self.hold)
            if g and not g[2]:
                gl[l] = g
        byref = set()
        for l in range(1, f.nargs + 1):
            g = guard_of(f.local_ty(l), self.hold)
            if g and g[2]:
                byref.add((-l, g[0], 'handed' if f.local_ty(l).startswith('&mut') else g[1]))
        entry = {l for l in gl if 1 <= l <= f.nargs}
        inn = {0: set(entry)}
        work = [0]
        at = {}

        def kill(st, o):
            if isinstance(o, list) and o and o[0] == 'm' and o[1] and o[1][0] in gl and '*' not in [x for x in o[1][1:] if isinstance(x, str)]:
                st.discard(o[1][0])

        while work:
            i = work.pop()
            st = set(inn[i])
            b = f.bbs[i]
            for s in b['s']:
                pl, rv = s[0], s[1]
                if rv and rv[0] == 'use':
                    kill(st, rv[1])
                elif rv and rv[0] == 'agg':
                    for o in rv[3]:
                        kill(st, o)
                elif rv and rv[0] == 'cast':
                    for o in rv:
                        kill(st, o)
                if pl and pl[0] in gl and len(pl) >= 1 and not (rv and rv[0] == 'agg' and len(pl) == 1 and rv[1] == 'adt' and rv[2] and rv[2][1] == 'None'):
                    st.add(pl[0])
            t = b['t']
            if t[0] == 'call':
                for o in t[2]:
                    kill(st, o)
            at[i] = {(l,) + gl[l][:2] for l in st} | byref
            if t[0] == 'call' and t[3] and t[3][0] in gl:
                st = st | {t[3][0]}
            if t[0] == 'drop' and t[1][0] in gl and len(t[1]) == 1:
                st.discard(t[1][0])
            for x in f.succ[i]:
                if x not in inn:
                    inn[x] = set(st)
                    work.append(x)
                elif not st <= inn[x]:
                    inn[x] |= st
                    work.append(x)
        return at

    def edges(self):
        """(held class, held kind, wanted class, wanted kind) -> first site; and sites"""
        out = {}
        nsites = 0
        for n, f in self.p.fns.items():
            mine = {i: (c, k) for i, c, k in self.acq.get(n, [])}
            if not mine and not any(self.trans.get(c) for c in self.cal[n]):
                continue
            at = self.live(f)
            for i, c, args, dest, tgt in calls(f):
                if i not in at:
                    continue
                want = set()
                if i in mine:
                    want = {mine[i]}
                    nsites += 1
                for m in (c.get('r'), c.get('n')):
                    if m in self.p.fns:
                        want |= self.trans.get(m, set())
                        break
                for o in args:
                    if isinstance(o, list) and o[0] in ('m', 'c') and len(o[1]) == 1:
                        ty = f.local_ty(o[1][0])
                        m = re.match(r'\{closure:(.*)\}$', ty)
                        if m and m.group(1) in self.trans:
                            want |= self.trans[m.group(1)]
                for w in want:
                    for h in at[i]:
                        if not (h[0] < 0 and i not in mine and self._passes(args, f, h)):
                            out.setdefault((h[1], h[2]) + w, (n, span(f, i), c['n']))
        return out, nsites

    def _passes(self, args, f, h):
        return False

    def twice(self):
        """functions on one of whose paths (callees included) two separate acquisitions of one class happen"""
        out = {}
        seqs = {}

        def seq(n, stack=()):
            if n in seqs:
                return seqs[n]
            if n in stack:
                return set()
            f = self.p.fns[n]
            mine = {i: (c, k) for i, c, k in self.acq.get(n, [])}
            ev = {}
            for i, c, args, dest, tgt in calls(f):
                if i in mine:
                    ev[i] = {(mine[i],)}
                for m in (c.get('r'), c.get('n')):
                    if m in self.p.fns:
                        if self.trans.get(m):
                            s = seq(m, stack + (n,))
                            if s:
                                ev[i] = s
                        break
                for o in args:
                    if isinstance(o, list) and o[0] in ('m', 'c') and len(o[1]) == 1:
                        m = re.match(r'\{closure:(.*)\}$', f.local_ty(o[1][0]))
                        if m and self.trans.get(m.group(1)):
                            ev[i] = ev.get(i, set()) | seq(m.group(1), stack + (n,))
            # pairs (first, second) of events on a path, within one activation
            res = set()
            for i, s in ev.items():
                res |= s
                seen, work = set(), list(f.succ[i])
                while work:
                    x = work.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    work += f.succ[x]
                for j in seen & set(ev):
                    if j == i:
                        continue               # the next round of a loop is another decision
                    for a in s:
                        for b in ev[j]:
                            if a[0][0] == b[0][0]:
                                res.add((a[0], b[0]))
                                out.setdefault((a[0], b[0]), (n, span(f, j)))
            seqs[n] = res
            return res

        for n in self.p.fns:
            if self.trans.get(n):
                seq(n)
        return out


def lock_protocol(ref, cur):
    a, b = Locks(ref), Locks(cur)
    bad = []
    rk = {(c, k) for v in a.acq.values() for _, c, k in v}
    classes = {c for c, _ in rk}
    for n, v in sorted(b.acq.items()):
        for i, c, k in v:
            if c in classes and (c, k) not in rk:
                bad.append(('lock %s %s %s' % (n, k, c), '%s: %s takes the lock of %s in %s mode, which the protocol of that lock does not allow (allowed: %s)'
                            % (span(b.p.fns[n], i), n, c, k, ', '.join(sorted(k2 for c2, k2 in rk if c2 == c)))))
    ra, _ = a.edges()
    rb, sites = b.edges()
    order = {(e[0], e[2]) for e in ra if e[0] != e[2]}
    for e, (n, sp, what) in sorted(rb.items()):
        if e in ra:
            continue
        if e[0] != e[2] and (e[2], e[0]) not in {(x[0], x[2]) for x in rb}:
            continue
        bad.append(('held %s %s' % (n, '/'.join(e)), '%s: %s requests the lock of %s (%s) at the call of %s while a %s hold on the lock of %s may still be live: the thread can wait for itself'
                    % (sp, n, e[2], e[3], what, e[1], e[0])))
    ta, tb = a.twice(), b.twice()
    for e, (n, sp) in sorted(tb.items()):
        if e not in ta and e[0][0] in classes and 'upgrade' not in (e[0][1], e[1][1]):
            bad.append(('twice %s %s' % (n, e), '%s: on one path %s releases the lock of %s (%s) and takes it again (%s): what it learnt under the first hold may no longer be true'
                        % (sp, n, e[0][0], e[0][1], e[1][1])))
    rl = {x[2] for x in a.leaks}
    for n, i, w in b.leaks:
        if w not in rl:
            bad.append(('leak %s %s' % (n, w), '%s: %s goes around the lock with %s' % (span(b.p.fns[n], i), n, w)))
    if not sites:
        bad.append(('lock none', 'no lock acquisition is left to analyse'))
    return bad, dict(obligations=sites + len(rb) + len(tb), acquisitions=sites, held_then_requested=len(rb), classes=sorted(classes))


# ------------------------------------------------------------------------------------------------
# nothing goes around the type system's thread-safety rules (C26)

def send_sync(ref, cur):
    def marks(p):
        out = {}
        for i in p.impls:
            if i['unsafe'] and (i['trait'] or '').split('<')[0].rsplit('::', 1)[-1] in ('Send', 'Sync', 'RefUnwindSafe'):
                out[(i['trait'], i['head'])] = i.get('span', '?')
        for s in p.statics:
            s = p.statics[s] if isinstance(s, str) else s
            if s.get('mut'):
                out[('static mut', s['path'])] = s.get('span', '?')
        return out
    a, b = marks(ref), marks(cur)
    bad = [('unsync %s %s' % k, '%s: %s for %s asserts thread safety the compiler cannot check' % ((v,) + k)) for k, v in sorted(b.items()) if k not in a]
    return bad, dict(obligations=len(cur.impls) + len(cur.statics))


# ------------------------------------------------------------------------------------------------
# hashes read only what equality compares (C28)

def fields_read(p, n, seen=None, within=None):
    seen = set() if seen is None else seen
    if n in seen or n not in p.fns:
        return set()
    seen.add(n)
    f = p.fns[n]
    out = set()

    def places(x):
        if isinstance(x, list):
            for y in x:
                if isinstance(y, list) and len(y) == 3 and y[0] == 'f' and isinstance(y[1], str):
                    out.add((y[2], y[1]))
                else:
                    places(y)
    for b in f.bbs:
        if b['cl']:
            continue
        for s in b['s']:
            places(s[1])
        if b['t'][0] == 'call':
            places(b['t'][2])
        elif b['t'][0] == 'switch':
            places(b['t'][1])
    for c in callees(p, f):
        out |= fields_read(p, c, seen)
    # std wrappers call back into this crate's own impls for the types they hold
    for _, c, _, _, _ in calls(f):
        tr = (c.get('tr') or '').split('<')[0]
        if tr in ('Hash', 'PartialEq', 'Hasher') and c.get('ta'):
            for h in re.findall(r'\w+', ' '.join(c['ta'])):
                m = '<%s as %s>::%s' % (h, tr, 'hash' if tr == 'Hash' else 'eq')
                if m in p.fns:
                    out |= fields_read(p, m, seen)
    return out


PLUMBING = {'Option', 'Result', 'Range', 'Some', 'Ok', 'Err', 'ControlFlow', 'Box', 'Unique', 'NonNull'}


def hash_eq(ref, cur):
    def table(p):
        out = {}
        heads = {}
        for i in p.impls:
            t = (i['trait'] or '').split('<')[0]
            if t in ('Hash', 'PartialEq'):
                heads.setdefault(i['head'], {})[t] = i
        for h, d in heads.items():
            if 'Hash' not in d:
                continue
            if 'PartialEq' not in d or (d['Hash']['derived'] and d['PartialEq']['derived']):
                out[h] = (set(), set(), True)
                continue
            H = fields_read(p, '<%s as Hash>::hash' % h)
            E = fields_read(p, '<%s as PartialEq>::eq' % h)
            f = lambda s: {x for x in s if x[0] not in PLUMBING}
            out[h] = (f(H), f(E), False)
        return out

    def producers(p):
        out = {}
        for n, f in p.fns.items():
            if any('Hash' in c['n'] and c['n'].rsplit('::', 1)[-1] in ('finish', 'finish32', 'hash_one') for _, c, _, _, _ in calls(f)):
                out[n] = {x for x in fields_read(p, n) if x[0] not in PLUMBING}
        return out
    a, b = table(ref), table(cur)
    bad = []
    n = 0
    for h, (H, E, same) in sorted(b.items()):
        n += 1
        ok = set()
        if h in a:
            ok = a[h][0] - a[h][1]
        for ty, fl in sorted(H - E - ok):
            bad.append(('hash %s %s.%s' % (h, ty, fl), 'the Hash of %s reads %s.%s, which its equality does not compare: equal values can hash differently' % (h, ty, fl)))
        if h in a and not a[h][2] and not same:
            for ty, fl in sorted((a[h][1] - E) & H):
                bad.append(('eq %s %s.%s' % (h, ty, fl), 'the Hash of %s reads %s.%s, which its equality no longer compares' % (h, ty, fl)))
    pa, pb = producers(ref), producers(cur)
    alleq = {h: v[1] for h, v in b.items()}
    for m, R in sorted(pb.items()):
        if m not in pa:
            continue
        n += 1
        for ty, fl in sorted(R - pa[m]):
            if (ty, fl) in alleq.get(ty, ()):
                continue
            bad.append(('digest %s %s.%s' % (m, ty, fl), '%s: the digest %s computes now depends on %s.%s, which the equality of the digested values does not compare' % (cur.fns[m].span, m, ty, fl)))
    return bad, dict(obligations=n, hashed_types=sorted(b), digests=sorted(pb))


# ------------------------------------------------------------------------------------------------
# determinism (C30)

ITER = {'into_iter', 'iter', 'iter_mut', 'keys', 'values', 'values_mut', 'drain', 'retain', 'into_keys', 'into_values', 'difference', 'union',
        'intersection', 'symmetric_difference', 'extract_if'}
SOURCES = re.compile(r'(Instant::now|SystemTime|thread::current|ThreadId|thread_rng|rand::|random\b|env::(var|args|current_dir|temp_dir|vars)|process::id|available_parallelism|'
                     r'Argument::new_pointer|ptr::hash|Pointer::fmt|getrandom|expose_provenance|ptr::addr\b|\baddr_of_val|Location::caller|type_id_of_val|RandomState::(new|default|build_hasher|hash_one)|DefaultHasher)')


def determinism(ref, cur):
    def facts(p):
        its, src, casts = {}, {}, {}
        n = 0
        for name, f in p.fns.items():
            if (f.j.get('trait') or '').split('<')[0] == 'Debug':
                continue
            for i, c, args, dest, tgt in calls(f):
                n += 1
                nm = c['n'].rsplit('::', 1)[-1]
                ta = c.get('ta', [])
                if nm in ITER and any('RandomState' in t for t in ta):
                    head = 'HashMap' if ('HashMap' in c['n'] or any('HashMap<' in t for t in ta)) else 'HashSet'
                    m = re.search(r'Hash(?:Map|Set)<(.*)RandomState', ' '.join(ta))
                    ty = m.group(1).rstrip(',') if m else ','.join(ta[:ta.index('RandomState')]) if 'RandomState' in ta else ' '.join(ta)
                    its.setdefault((head, ty), (name, span(f, i)))
                for w in (c['n'], c.get('r') or ''):
                    m = SOURCES.search(w)
                    if m:
                        src.setdefault(m.group(1), (name, span(f, i)))
            for i, b in enumerate(f.bbs):
                if b['cl']:
                    continue
                for s in b['s']:
                    rv = s[1]
                    if rv and rv[0] == 'cast' and rv[3] == 'PointerExposeProvenance':
                        casts.setdefault(name, []).append((name, s[2]))
        return its, src, casts, n
    (ia, sa, ca, _), (ib, sb, cb, n) = facts(ref), facts(cur)
    bad = []
    for k, (fn, sp) in sorted(ib.items()):
        if k not in ia:
            bad.append(('unordered %s<%s>' % k, '%s: %s iterates a randomly seeded %s<%s>: the order differs from run to run' % ((sp, fn) + k)))
    for k, (fn, sp) in sorted(sb.items()):
        if k not in sa:
            bad.append(('source %s' % k, '%s: %s uses %s, whose result differs from run to run' % (sp, fn, k)))
    if sum(map(len, cb.values())) > sum(map(len, ca.values())):
        for k, v in sorted(cb.items()):
            if len(v) > len(ca.get(k, ())):
                bad.append(('address %s' % k, '%s: %s turns an address into a number' % (v[-1][1], k)))
    return bad, dict(obligations=n, unordered_iterations=len(ib))


# ------------------------------------------------------------------------------------------------
# unchecked reinterpretation keeps its reviewed forms (C29)

def unsafe_forms(ref, cur):
    def forms(p):
        out = {}
        n = 0
        for name, f in p.fns.items():
            for i, c, args, dest, tgt in calls(f):
                n += 1
                if c.get('unsafe') and not c.get('local'):
                    out.setdefault((c['n'], tuple(re.sub(r"'\w+ ?", '', t) for t in c.get('ta', [])) if 'transmute' in c['n'] else ()), (name, span(f, i)))
                elif c.get('unsafe'):
                    out.setdefault((c['n'], ()), (name, span(f, i)))
            for b in f.bbs:
                for st in b['s'] if not b['cl'] else ():
                    rv = st[1]
                    if rv and rv[0] == 'cast':
                        n += 1
                        if rv[3].split('(')[0] in ('PtrToPtr', 'FnPtrToPtr', 'PointerWithExposedProvenance') or rv[3] == 'Transmute' and not rv[4].startswith('NonNull<'):
                            out.setdefault((rv[3], tuple(re.sub(r"'\w+ ?", '', t) for t in (rv[4], rv[2]))), (name, st[2]))
        return out, n
    (a, _), (b, n) = forms(ref), forms(cur)
    names = {k[0] for k in a}
    bad = [('unsafe %s %s' % (k[0], ','.join(k[1])), '%s: %s uses the unchecked operation %s %s, which no reviewed site uses' % (sp, fn, k[0], '<%s>' % ', '.join(k[1]) if k[1] else ''))
           for k, (fn, sp) in sorted(b.items()) if k not in a]
    return bad, dict(obligations=n, unchecked_operations=len(b))

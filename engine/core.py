"""Program model over the MIR facts: reaching definitions, value-provenance expressions,
inlined control-flow graphs ("supergraphs") with branch conditions on edges, and the
dataflow queries (guards, must-pass, ordering) the rules are written in.

Nothing here executes or symbolically executes the analysed crate: values are provenance
terms obtained from reaching definitions (joined at merges), control is a finite graph.
"""
import ast
import json, sys, re
from functools import lru_cache
sys.setrecursionlimit(20000)

# ----------------------------------------------------------------------------- exprs
UNK = ('unk',)
REC = ('rec',)

def C(v):
    if isinstance(v, int) and not isinstance(v, bool):
        if v >= 2 ** 127:
            v -= 2 ** 128
    return ('c', v)

def is_c(e, v=None):
    return e[0] == 'c' and (v is None or e[1] == v)

def mk_phi(alts):
    s = set()
    for a in alts:
        if a[0] == 'phi':
            s |= set(a[1])
        else:
            s.add(a)
    s2 = s - {REC}
    if s2:
        s = s2
    if len(s) == 1:
        return next(iter(s))
    if len(s) > 24:
        return UNK
    return ('phi', tuple(sorted(s, key=show)))

def alts(e):
    return list(e[1]) if e[0] == 'phi' else [e]

def mk_lin(const, terms):
    terms = {k: v for k, v in terms.items() if v != 0}
    if not terms:
        return C(const)
    if const == 0 and len(terms) == 1:
        (k, v), = terms.items()
        if v == 1:
            return k
    return ('lin', const, tuple(sorted(terms.items(), key=lambda kv: show(kv[0]))))

def as_lin(e):
    if e[0] == 'c' and isinstance(e[1], int):
        return e[1], {}
    if e[0] == 'lin':
        return e[1], dict(e[2])
    return 0, {e: 1}

def mk_add(a, b, sign=1):
    if (a[0] == 'c' and not isinstance(a[1], int)) or (b[0] == 'c' and not isinstance(b[1], int)):
        return ('bin', 'Add' if sign == 1 else 'Sub', a, b)
    ca, ta = as_lin(a)
    cb, tb = as_lin(b)
    t = dict(ta)
    for k, v in tb.items():
        t[k] = t.get(k, 0) + sign * v
    return mk_lin(ca + sign * cb, t)

def mk_not(e):
    if e[0] == 'not':
        return e[1]
    if e[0] == 'c':
        return C(0 if e[1] else 1)
    return ('not', e)

SWAP = {'lt'}

def mk_cmp(op, a, b):
    """canonical: eq(a,b) sorted, lt(a,b); everything else by negation / swapping.
    integer comparisons are normalised to strict less-than on a linear form where a side is
    constant: x > c, x >= c+1 and !(x < c+1) are the same atom."""
    if op == 'Ne':
        return mk_not(mk_cmp('Eq', a, b))
    if op == 'Gt':
        return mk_cmp('Lt', b, a)
    if op == 'Ge':
        return mk_not(mk_cmp('Lt', a, b))
    if op == 'Le':
        return mk_not(mk_cmp('Lt', b, a))
    if op == 'Eq':
        if a[0] == 'c' and b[0] == 'c':
            return C(1 if a[1] == b[1] else 0)
        if a == b:
            return C(1)
        if a[0] == 'agg' and b[0] != 'agg':
            a, b = b, a
        if b[0] == 'agg' and b[2] is not None and not b[3]:
            return mk_is(a, b[2])
        if b[0] == 'agg' and b[2] in ('Some', 'Ok') and len(b[3]) == 1:
            i = mk_is(a, b[2])
            if is_c(i, 0):
                return i
            q = mk_cmp('Eq', mk_payload(a, b[2], '0'), b[3][0][1])
            if is_c(i, 1):
                return q
            return ('and', (i, q))
        for x, y in ((a, b), (b, a)):
            if x[0] == 'c' and (len(x) == 3 or (y[0] in BOOLT and x[1] in (0, 1))):
                return y if x[1] else mk_not(y)
        # move constants: lin(c, x) == k  ->  x == k-c
        ca, ta = as_lin(a)
        cb, tb = as_lin(b)
        if is_int(a) and is_int(b) and (ca or cb) and (ta or tb):
            if not tb:
                a, b = mk_lin(0, ta), C(cb - ca)
            elif not ta:
                a, b = mk_lin(0, tb), C(ca - cb)
            elif ta != tb:              # the constant stands on the side where it is positive
                a, b = mk_lin(max(0, ca - cb), ta), mk_lin(max(0, cb - ca), tb)
        if a[0] == 'c' or (b[0] != 'c' and show(b) < show(a)):
            a, b = b, a
        return ('eq', a, b)
    if op == 'Lt':
        if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], int) and isinstance(b[1], int):
            return C(1 if a[1] < b[1] else 0)
        ca, ta = as_lin(a)
        cb, tb = as_lin(b)
        if is_int(a) and is_int(b):
            return lt0(mk_add(a, b, -1))
        return ('lt', a, b)
    return ('bin', op, a, b)

BOOLT = {'eq', 'lt', 'not', 'is', 'isok', 'and'}

def lt0(d):
    """d < 0 for a linear form d, in the canonical orientation"""
    c, t = as_lin(d)
    if not t:
        return C(1 if c < 0 else 0)
    first = sorted(t.items(), key=lambda kv: show(kv[0]))[0]
    if first[1] < 0:                          # -L < -c  <=>  L > c  <=>  !(L < c+1)
        return mk_not(('lt', mk_lin(0, {k: -v for k, v in t.items()}), C(c + 1)))
    return ('lt', mk_lin(0, t), C(-c))

def is_int(e):
    return not (e[0] == 'c' and not isinstance(e[1], int))

OPT_NEG = {'None': 'Some', 'Err': 'Ok', 'Break': 'Continue'}

def mk_is(e, variant):
    if variant in OPT_NEG:
        return mk_not(mk_is(e, OPT_NEG[variant]))
    if e[0] == 'agg' and e[2] is not None:
        return C(1 if e[2] == variant else 0)
    if e[0] == 'phi':
        vs = {mk_is(a, variant) for a in e[1]}
        if len(vs) == 1:
            return next(iter(vs))
    if e[0] == 'call':
        n = e[1]
        if n == 'Try::branch' and variant == 'Continue':
            x = e[2][0]
            k = mk_is(x, 'Ok')
            return ('isok', x) if k == ('is', x, 'Ok') else k
        if variant == 'Some' and n in ('[T]::get', 'Vec::get', '[T]::get_mut') and len(e[2]) == 2 and not (e[2][1][0] == 'agg'):
            return mk_cmp('Lt', e[2][1], ('call', 'len', (e[2][0],)))
        if variant == 'Some' and n in ('[T]::last', '[T]::last_mut', '[T]::first', '[T]::first_mut', 'Vec::last', 'Vec::first', 'Vec::pop'):
            return mk_not(mk_cmp('Eq', ('call', 'len', (e[2][0],)), C(0)))
        if variant == 'Some' and n in ('Option::map', 'Option::cloned', 'Option::copied', 'Option::as_ref'):
            return mk_is(e[2][0], variant)
        if variant == 'Some' and n == 'Result::ok':
            return mk_is(e[2][0], 'Ok')
        if variant == 'Ok' and n in ('Result::map', 'Result::map_err', 'Result::as_ref'):
            return mk_is(e[2][0], variant)
        if variant == 'Ok' and n in ('Option::ok_or', 'Option::ok_or_else'):
            return mk_is(e[2][0], 'Some')
    if e[0] == 'ver' and e[1][0] == 'call' and variant in ('Some', 'Ok'):
        k = mk_is(e[1], variant)
        if k not in (('is', e[1], variant), ('isok', e[1])):
            return ver_cmp(k, e[2])
    if variant == 'Ok':
        return ('isok', e)
    return ('is', e, variant)

def ver_cmp(k, n):
    """version mark pushed into the terms of a comparison"""
    if k[0] == 'not':
        return mk_not(ver_cmp(k[1], n))
    if k[0] in ('eq', 'lt'):
        f = lambda x: x if x[0] in ('c', 'lin', 'mu', 'arg') else ('ver', x, n)
        if k[1][0] == 'lin':
            return (k[0], mk_lin(k[1][1], {(('ver', t, n) if t[0] == 'call' else t): c for t, c in k[1][2]}), k[2])
        return (k[0], f(k[1]), f(k[2]))
    if k[0] in ('is', 'isok'):
        return (k[0], ('ver', k[1], n)) + k[2:]
    return ('ver', k, n)

def mk_field(b, n):
    if b[0] == 'agg':
        for k, v in b[3]:
            if k == n:
                return v[:2] if v[0] == 'c' else v
        return UNK
    if b[0] == 'closure':
        for k, v in b[2]:
            if k == n:
                return v
        return UNK
    if b[0] == 'with':
        strong = [v for k, v, st in b[2] if k == n]
        if strong:
            if any(st for k, v, st in b[2] if k == n):
                return mk_phi(strong)
            return mk_phi(strong + [mk_field(b[1], n)])
        return mk_field(b[1], n)
    if b[0] == 'phi':
        return mk_phi([mk_field(a, n) for a in b[1]])
    if b[0] in ('unk', 'rec'):
        return b
    return ('f', b, n)

def mk_payload(b, variant, n):
    """field n of b viewed as variant"""
    if b[0] == 'agg':
        if b[2] == variant:
            return mk_field(b, n)
        return REC        # infeasible view
    if b[0] == 'phi':
        xs = [mk_payload(a, variant, n) for a in b[1]]
        return mk_phi(xs)
    if b[0] == 'call':
        nm, args = b[1], b[2]
        if nm == 'Try::branch':
            if variant == 'Continue':
                x = args[0]
                some = mk_payload(x, 'Ok', '0')
                if some == REC:
                    some = mk_payload(x, 'Some', '0')
                elif x[0] == 'agg' and x[2] == 'Some':
                    some = mk_payload(x, 'Some', '0')
                return some
            if variant == 'Break':
                return ('residual', args[0])
        if variant in ('Some', 'Ok') and n == '0':
            r = payload_of_call(nm, args)
            if r is not None:
                return r
    if b[0] == 'ver' and b[1][0] == 'call' and variant in ('Some', 'Ok') and n == '0':
        r = payload_of_call(b[1][1], b[1][2])
        if r is not None:
            return ('ver', r, b[2]) if r[0] in ('elem', 'last', 'call') and b[1][1] in VERPAY else r
    if variant in ('Some', 'Ok') and n == '0':
        return ('some', b)
    if variant == 'Err' and n == '0':
        if b[0] == 'call' and b[1] == 'Result::map':
            return mk_payload(b[2][0], 'Err', '0')
        if b[0] == 'residual':
            return mk_payload(b[1], 'Err', '0')
        return ('err', b)
    return ('f', ('as', b, variant), n)

ITER_ID = {'IntoIterator::into_iter', '[T]::iter', '[T]::iter_mut', 'Vec::iter', 'Vec::drain', 'Iterator::cloned', 'Iterator::copied',
           'Iterator::by_ref', 'Iterator::skip', 'Iterator::take', 'Iterator::filter', 'Iterator::take_while',
           'Iterator::skip_while', 'Iterator::peekable', 'Iterator::fuse', 'Iterator::inspect', 'Iterator::step_by',
           'HashSet::iter', 'HashMap::values', 'HashMap::keys', 'HashMap::iter', 'BitSet::iter', '[T]::into_iter',
           'str::chars', 'Option::iter', 'HashMap::drain', 'HashMap::values_mut', 'Iterator::dedup'}

def elem_of(it):
    """provenance of an element yielded by iterator expression `it`"""
    if it[0] == 'call':
        n, a = it[1], it[2]
        if n in ITER_ID:
            return elem_of(a[0])
        if n == 'Iterator::rev':
            return elem_of(a[0])
        if n == 'Iterator::map' and len(a) > 1:
            return ('app', a[1], (elem_of(a[0]),))
        if n == 'Iterator::filter_map' and len(a) > 1:
            return mk_payload(('app', a[1], (elem_of(a[0]),)), 'Some', '0')
        if n == 'Iterator::enumerate':
            return ('agg', 'tuple', None, (('0', ('idx', a[0])), ('1', elem_of(a[0]))))
        if n == 'Iterator::zip':
            return ('agg', 'tuple', None, (('0', elem_of(a[0])), ('1', elem_of(a[1]))))
        if n == 'Iterator::chain':
            return mk_phi([elem_of(a[0]), elem_of(a[1])])
        if n in ('ctor:Range', 'RangeInclusive::new'):
            return ('inrange', a[0], a[1], n == 'RangeInclusive::new')
    if it[0] == 'agg' and it[1] == 'Iter':
        return elem_of(mk_field(it, 'coll'))
    if it[0] == 'agg' and it[1] == 'Enum':
        return ('agg', 'tuple', None, (('0', ('idx', mk_field(it, 'it'))), ('1', elem_of(mk_field(it, 'it')))))
    if it[0] == 'agg' and it[1] == 'Range':
        return ('inrange', mk_field(it, 'start'), mk_field(it, 'end'), False)
    if it[0] == 'phi':
        return mk_phi([elem_of(x) for x in it[1]])
    return ('elem', it, None)

VERPAY = {'[T]::get', 'Vec::get', 'HashMap::get', '[T]::last', 'Vec::last', 'Vec::pop', '[T]::first', 'Vec::first'}

def payload_of_call(nm, args):
    if nm in ('Iterator::next', 'Iterator::last', 'DoubleEndedIterator::next_back', 'Iterator::nth', 'Iterator::find', 'Iterator::next_back'):
        return elem_of(args[0])
    if nm in ('[T]::get', 'Vec::get', '[T]::get_mut', 'HashMap::get', 'HashMap::get_mut'):
        return ('elem', args[0], args[1])
    if nm in ('[T]::last', '[T]::last_mut', 'Vec::last'):
        return ('last', args[0])
    if nm == 'Vec::pop':
        return ('last', args[0])
    if nm in ('[T]::first', 'Vec::first'):
        return ('elem', args[0], C(0))
    if nm in ('Option::map', 'Result::map'):
        return ('app', args[1], (mk_payload(args[0], 'Some', '0'),))
    if nm in ('Option::and_then',):
        return mk_payload(('app', args[1], (mk_payload(args[0], 'Some', '0'),)), 'Some', '0')
    if nm in ('Result::ok', 'Result::map_err', 'Option::ok_or', 'Option::ok_or_else', 'Option::filter'):
        return mk_payload(args[0], 'Some', '0')
    if nm == 'Iterator::min' or nm == 'Iterator::max':
        return ('call', nm, (args[0],))
    return None

def show(e):
    k = e[0]
    if k == 'c':
        return str(int(e[1])) if not isinstance(e[1], str) else json.dumps(e[1])
    if k == 'arg':
        return e[2] if e[2] else 'a%d' % e[1]
    if k == 'f':
        return show(e[1]) + '.' + e[2]
    if k == 'as':
        return '(' + show(e[1]) + ' as ' + e[2] + ')'
    if k == 'elem':
        return show(e[1]) + '[' + (show(e[2]) if e[2] else '_') + ']'
    if k == 'some':
        return show(e[1]) + '?'
    if k == 'err':
        return show(e[1]) + '!'
    if k == 'last':
        return show(e[1]) + '[last]'
    if k == 'lin':
        s = ''
        for t, c in e[2]:
            x = show(t)
            if c == 1:
                s += '+' + x
            elif c == -1:
                s += '-' + x
            else:
                s += '%+d*%s' % (c, x)
        if s.startswith('+'):
            s = s[1:]
        if e[1]:
            s += '%+d' % e[1]
        return '(' + s + ')'
    if k == 'phi':
        return 'phi{' + ' | '.join(sorted(show(a) for a in e[1])) + '}'
    if k == 'call':
        return e[1] + '(' + ', '.join(show(a) for a in e[2]) + ')'
    if k == 'app':
        return show(e[1]) + '(' + ', '.join(show(a) for a in e[2]) + ')'
    if k == 'agg':
        n = e[1] + ('::' + e[2] if e[2] else '')
        return n + '{' + ', '.join(kk + ':' + show(v) for kk, v in e[3]) + '}'
    if k == 'closure':
        return '|' + e[1] + '|'
    if k == 'eq':
        return '(' + show(e[1]) + ' == ' + show(e[2]) + ')'
    if k == 'lt':
        if e[1][0] == 'lin' and e[1][1] == 0 and len(e[1][2]) == 2 and is_c(e[2]):
            (x, cx), (y, cy) = e[1][2]
            if cx == 1 and cy == -1 and e[2][1] in (0, 1):
                return '(' + show(x) + (' < ' if e[2][1] == 0 else ' <= ') + show(y) + ')'
        return '(' + show(e[1]) + ' < ' + show(e[2]) + ')'
    if k == 'not':
        return '!' + show(e[1])
    if k == 'is':
        return '(' + show(e[1]) + ' is ' + e[2] + ')'
    if k == 'isok':
        return '(' + show(e[1]) + ' is Ok)'
    if k == 'bin':
        return e[1] + '(' + show(e[2]) + ', ' + show(e[3]) + ')'
    if k == 'un':
        return e[1] + '(' + show(e[2]) + ')'
    if k == 'with':
        return show(e[1]) + '{with ' + ', '.join(kk + ':' + show(v) for kk, v, st in e[2]) + '}'
    if k == 'inrange':
        return 'in(%s..%s%s)' % (show(e[1]), '=' if e[3] else '', show(e[2]))
    if k == 'fn':
        return 'fn ' + e[1]
    if k in ('unk', 'rec'):
        return '?' if k == 'unk' else 'REC'
    if k == 'idx':
        return 'idx(' + show(e[1]) + ')'
    if k == 'discr':
        return 'discr(' + show(e[1]) + ')'
    if k == 'residual':
        return 'residual(' + show(e[1]) + ')'
    if k == 'and':
        return '(' + ' && '.join(show(x) for x in e[1]) + ')'
    if k == 'static':
        return 'static ' + e[1]
    if k == 'loc':
        return 'loc:' + str(e[1])
    return str(e)

show = lru_cache(maxsize=None)(show)

def splice_format(n, tp, av):
    """format arguments that are string constants, written into the template"""
    v = ('call', n, (tp, av))
    xs = [x for _, x in av[3]]
    isc = lambda x: x[0] == 'call' and x[1].endswith('Argument::new_display') and x[2][0][0] == 'c' and isinstance(x[2][0][1], str) and x[2][0][1].startswith('s:')
    if tp[0] != 'c' or not isinstance(tp[1], str) or not tp[1].startswith('t:b"') or not any(isc(x) for x in xs):
        return v
    try:
        b = ast.literal_eval(tp[1][2:])
    except Exception:
        return v
    out, i, k, rest = [b''], 0, 0, []
    while i < len(b) and b[i]:
        if b[i] < 0x80:
            out[-1] += b[i + 1:i + 1 + b[i]]
            i += 1 + b[i]
        elif b[i] == 0xc0 and k < len(xs):
            if isc(xs[k]):
                out[-1] += xs[k][2][0][1][2:].encode('utf-8', 'surrogatepass')
            else:
                rest.append(xs[k])
                out.append(b'')
            k += 1
            i += 1
        else:
            return v
    if not rest or any(len(x) > 0x7f for x in out):
        return v
    t = b''
    for j, x in enumerate(out):
        t += (b'\xc0' if j else b'') + (bytes([len(x)]) + x if x else b'')
    t += b'\x00'
    esc = ''.join({9: '\\t', 10: '\\n', 13: '\\r', 34: '\\"', 92: '\\\\', 39: "\\'", 0: '\\x00'}.get(c, chr(c) if 32 <= c < 127 else '\\x%02x' % c) for c in t)
    return ('call', n, (('c', 't:b"' + esc + '"'), av[:3] + (tuple((str(j), x) for j, x in enumerate(rest)),)))

# ------------------------------------------------------------------ std call modelling
# calls that return (a view of / a copy of) their first argument
IDENTITY = {
    'Clone::clone', 'ToOwned::to_owned', 'Borrow::borrow', 'BorrowMut::borrow_mut', 'AsRef::as_ref', 'AsMut::as_mut',
    'Deref::deref', 'DerefMut::deref_mut', 'Into::into', 'RefCell::borrow', 'RefCell::borrow_mut', 'Rc::new', 'Arc::new',
    'Box::new', 'Cell::get', 'Cell::new', 'RefCell::new', 'RefCell::into_inner', 'Rc::as_ptr', 'Option::as_ref',
    'Option::as_mut', 'Option::as_deref', 'Option::as_deref_mut', 'Option::cloned', 'Option::copied', 'Result::as_ref',
    'Result::as_mut', 'Rc::downgrade', 'Rc::clone', 'Cow::into_owned', 'Cow::to_mut', 'Box::as_ref', 'String::as_str', 'Vec::as_slice',
    'Vec::as_mut_slice', 'Ref::map', 'convert::identity', 'ManuallyDrop::new', 'From::from', 'char::from', 'ToString::to_string',
    'TryInto::try_into', 'TryFrom::try_from', 'AsRef::as_ref', 'Cell::into_inner', 'mem::ManuallyDrop::new', 'std::hint::black_box',
    'Vec::into_boxed_slice', 'Atomic::new', 'OnceCell::from', 'UnsafeCell::get', 'FromIterator::from_iter_id', 'str::to_owned', 'str::to_string',
    'Ref::clone', 'core::hint::must_use', 'hint::must_use',
    '[T]::iter', '[T]::iter_mut', 'Vec::iter',
}
GUARDS = {'RwLock::read', 'RwLock::write', 'RwLock::upgradable_read', 'RwLockUpgradableReadGuard::upgrade',
          'RwLockWriteGuard::downgrade_to_upgradable', 'RwLockWriteGuard::downgrade', 'RwLockUpgradableReadGuard::downgrade',
          'Mutex::lock', 'RwLockUpgradableReadGuard::try_upgrade'}
UNWRAP = {'Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect', 'Option::unwrap_unchecked', 'Option::unwrap_or_default'}
BINCALLS = {'Add::add': 'Add', 'Sub::sub': 'Sub', 'Mul::mul': 'Mul'}
ARITH = {'wrapping_add': 1, 'wrapping_sub': -1, 'unchecked_add': 1, 'unchecked_sub': -1}
CMPCALLS = {'PartialEq::eq': 'Eq', 'PartialEq::ne': 'Ne', 'PartialOrd::lt': 'Lt', 'PartialOrd::le': 'Le',
            'PartialOrd::gt': 'Gt', 'PartialOrd::ge': 'Ge'}
INTTY = {'isize', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'u8', 'u16', 'u32', 'u64', 'u128', 'num'}

# higher-order std functions: closure position -> (kind)
#  'some' closure runs iff arg0 is Some/Ok ; 'none' iff not ; 'true' iff arg0 is true; 'loop' 0..n times; 'once'
HOF = {
    'Option::map': {1: 'some'}, 'Option::and_then': {1: 'some'}, 'Option::is_some_and': {1: 'some'}, 'Option::filter': {1: 'some'},
    'Option::unwrap_or_else': {1: 'none'}, 'Option::or_else': {1: 'none'}, 'Option::ok_or_else': {1: 'none'},
    'Option::get_or_insert_with': {1: 'none'}, 'Option::map_or': {2: 'some'}, 'Option::map_or_else': {1: 'none', 2: 'some'},
    'Option::inspect': {1: 'some'}, 'Option::is_none_or': {1: 'some'},
    'Result::map': {1: 'some'}, 'Result::and_then': {1: 'some'}, 'Result::map_err': {1: 'none'}, 'Result::unwrap_or_else': {1: 'none'},
    'Result::or_else': {1: 'none'}, 'Result::is_ok_and': {1: 'some'}, 'bool::then': {1: 'true'},
}

def show_set(xs):
    return sorted(show(x) for x in xs)

# --------------------------------------------------------------------------- program
def unbox(bbs):
    """a box and the pointer inside it are the same thing: drop the projections that lead from one to the other"""
    raw = set()
    for b in bbs:
        for st in b['s']:
            if st[1][0] == 'cast' and len(st[1]) > 3 and st[1][3] == 'BoxDerefTransmute' and len(st[0]) == 1:
                raw.add(st[0][0])
    def go(x):
        if not isinstance(x, list):
            return
        if x and isinstance(x[0], int) and not isinstance(x[0], bool) and len(x) > 1:
            i = 1
            while i < len(x):
                p = x[i]
                if isinstance(p, list) and len(p) > 2 and p[0] == 'f' and p[2] in ('Box', 'BoxRaw') and p[1] in ('0', 'pointer'):
                    del x[i]
                    continue
                if p == '*raw' and i == 1 and x[0] in raw:
                    x[i] = '*'
                i += 1
        for y in x:
            go(y)
    for b in bbs:
        for st in b['s']:
            go(st)
        go(b['t'])
    return raw

class Fn:
    def __init__(self, prog, j, owner=None):
        self.prog, self.j = prog, j
        self.name = j.get('uname') or j.get('name', '?')
        self.span = j.get('span', '?')
        self.file = self.span.rsplit(':', 1)[0]
        self.bbs = j['bbs']
        self.rawbox = unbox(self.bbs)
        self.nargs = j['nargs']
        self.locals = j['locals']
        self.promoted = [Fn(prog, p, self) for p in j.get('promoted', [])]
        for i, p in enumerate(self.promoted):
            p.name = self.name + '::promoted%d' % i
        n = len(self.bbs)
        self.succ = [[] for _ in range(n)]
        self.pred = [[] for _ in range(n)]
        for i, b in enumerate(self.bbs):
            if b['cl']:
                continue
            for s in self.targets(b['t']):
                if s not in self.succ[i]:
                    self.succ[i].append(s)
                    self.pred[s].append(i)
        self._rd = {}
        self._flow = None
        self.returns = [i for i, b in enumerate(self.bbs) if not b['cl'] and b['t'][0] == 'return']

    @staticmethod
    def targets(t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [a[1] for a in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[3]]
        return []

    def local_ty(self, l):
        return self.locals[l][0]

    def reaching(self, bb, i, L):
        """definitions of local L reaching (bb, before stmt i): (full, partial)"""
        key = (bb, i, L)
        if key in self._rd:
            return self._rd[key]
        full, partial = [], []
        seen = set()
        stack = [(bb, i, True)]
        while stack:
            b, k, straight = stack.pop()
            stop = False
            sts = self.bbs[b]['s']
            for j in range(k - 1, -1, -1):
                pl = sts[j][0]
                if pl[0] == L:
                    if len(pl) == 1:
                        if sts[j][1][0] == 'setdiscr':
                            continue
                        full.append((b, j))
                        stop = True
                        break
                    if pl[1] not in ('*', '*raw'):
                        partial.append((b, j, straight))
            if stop:
                continue
            if b == 0 and L >= 1 and L <= self.nargs:
                full.append(('param', L))
            ps = self.pred[b]
            st2 = straight and len(ps) == 1
            for p in ps:
                t = self.bbs[p]['t']
                if t[0] == 'call' and t[3][0] == L:
                    if len(t[3]) == 1:
                        if (p, 'T') not in full:
                            full.append((p, 'T'))
                        continue
                    elif t[3][1] not in ('*', '*raw'):
                        partial.append((p, 'T', st2))
                if p not in seen:
                    seen.add(p)
                    stack.append((p, len(self.bbs[p]['s']), st2))
        r = (list(dict.fromkeys(full)), list(dict.fromkeys(partial)))
        self._rd[key] = r
        return r

    def upvar_name(self, idx):
        u = self.j.get('upvars')
        return u[idx] if u and idx < len(u) else str(idx)

    # ---- which locals can decide a branch (for constant tracking) and their liveness
    def flow(self):
        if self._flow is not None:
            return self._flow
        n = len(self.bbs)
        rel = set()
        dropflags = set()
        constdef, nonconst = set(), set()
        sw = {}
        for i, b in enumerate(self.bbs):
            if b['cl']:
                continue
            for st in b['s']:
                if len(st[0]) == 1:
                    if st[1][0] == 'use' and st[1][1][0] == 'k':
                        constdef.add(st[0][0])
                    else:
                        nonconst.add(st[0][0])
            t = b['t']
            if t[0] == 'call' and len(t[3]) == 1:
                nonconst.add(t[3][0])
            if t[0] == 'switch' and t[1][0] in 'cm' and len(t[1][1]) == 1:
                sw.setdefault(t[1][1][0], []).append(i)
        for l, sites in sw.items():
            if self.local_ty(l) == 'bool' and self.locals[l][1] is None and l in constdef and l not in nonconst:
                ok = True
                for i in sites:
                    if not any(self.bbs[s]['t'][0] == 'drop' and not self.bbs[s]['s'] for s in self.succ[i]):
                        ok = False
                if ok:
                    dropflags.add(l)
        # backward closure of value flow into switches / return place
        work = [l for l in sw if l not in dropflags] + [0]
        while work:
            l = work.pop()
            if l in rel:
                continue
            rel.add(l)
            for i, b in enumerate(self.bbs):
                if b['cl']:
                    continue
                for st in b['s']:
                    if st[0] == [l]:
                        for x in rv_locals(st[1]):
                            if x not in rel:
                                work.append(x)
                t = b['t']
                if t[0] == 'call' and t[3] == [l]:
                    for a in t[2][:1]:
                        if a[0] in 'cm' and len(a[1]) == 1 and a[1][0] not in rel:
                            work.append(a[1][0])
        rel -= dropflags
        # locals with several definitions ("phi" locals) are tracked too, unless their value can feed itself
        ndef = {}
        dep = {}
        for i, b in enumerate(self.bbs):
            if b['cl']:
                continue
            for st in b['s']:
                if len(st[0]) == 1:
                    ndef[st[0][0]] = ndef.get(st[0][0], 0) + 1
                    dep.setdefault(st[0][0], set()).update(rv_all_locals(st[1]))
            t = b['t']
            if t[0] == 'call' and len(t[3]) == 1:
                ndef[t[3][0]] = ndef.get(t[3][0], 0) + 1
                for a in t[2]:
                    dep.setdefault(t[3][0], set()).update(op_locals(a))
        def selfdep(l):
            seen, st = set(), list(dep.get(l, ()))
            while st:
                x = st.pop()
                if x == l:
                    return True
                if x in seen:
                    continue
                seen.add(x)
                st += dep.get(x, ())
            return False
        multi = {l for l, c in ndef.items() if c > 1 and l not in dropflags}
        nontrack = {l for l in dep if (l in multi or l in rel) and selfdep(l)}
        # everything whose value derives from a tracked local
        track = {l for l in multi if l not in nontrack}
        ch = True
        while ch:
            ch = False
            for l, ds in dep.items():
                if l not in track and l not in nontrack and l not in dropflags and ds & (track | set(range(1, self.nargs + 1))):
                    track.add(l)
                    ch = True
        track |= set(range(0, self.nargs + 1)) - nontrack
        rel = track
        self.multi = multi
        # liveness of rel locals at block entry
        use = [set() for _ in range(n)]
        de = [set() for _ in range(n)]
        for i, b in enumerate(self.bbs):
            if b['cl']:
                continue
            for st in b['s']:
                for x in rv_all_locals(st[1]) | set(st[0][:1] if len(st[0]) > 1 else []):
                    if x in rel and x not in de[i]:
                        use[i].add(x)
                if len(st[0]) == 1:
                    de[i].add(st[0][0])
            t = b['t']
            tl = set()
            if t[0] == 'switch':
                tl |= op_locals(t[1])
            elif t[0] == 'call':
                for a in t[2]:
                    tl |= op_locals(a)
            elif t[0] == 'return':
                tl.add(0)
            for x in tl:
                if x in rel and x not in de[i]:
                    use[i].add(x)
            if t[0] == 'call' and len(t[3]) == 1:
                de[i].add(t[3][0])
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in self.succ[i]:
                    o |= live[s]
                v = use[i] | (o - de[i])
                if v != live[i]:
                    live[i] = v
                    ch = True
        # params are live through the body only where used; keep as computed
        self._flow = (rel, live, dropflags)
        return self._flow


def op_locals(o):
    return {o[1][0]} if o[0] in 'cm' else set()

def rv_locals(r):
    k = r[0]
    if k == 'use':
        return op_locals(r[1]) if r[1][0] in 'cm' and len(r[1][1]) == 1 else set()
    if k == 'ref':
        return {r[1][0]} if all(p == '*' for p in r[1][1:]) else set()
    if k == 'discr':
        return {r[1][0]} if all(p == '*' for p in r[1][1:]) else set()
    if k == 'un':
        return op_locals(r[2])
    if k == 'cast':
        return op_locals(r[1])
    return set()

def rv_all_locals(r):
    k = r[0]
    if k in ('use', 'cast', 'rep'):
        return op_locals(r[1])
    if k in ('ref', 'raw', 'discr'):
        return {r[1][0]}
    if k == 'un':
        return op_locals(r[2])
    if k == 'bin':
        return op_locals(r[2]) | op_locals(r[3])
    if k == 'agg':
        s = set()
        for o in r[3]:
            s |= op_locals(o)
        return s
    return set()


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.adts = {a['name']: a for a in d['adts']}
        self.impls = d['impls']
        self.traits = {t['name']: t for t in d['traits']}
        self.consts = {c['path']: c for c in d['consts']}
        self.statics = d['statics']
        self.fns = {}
        dup = {}
        for j in d['fns']:
            dup.setdefault(j['name'], []).append(j)
        for n, js in dup.items():
            if len(js) == 1:
                self.fns[n] = Fn(self, js[0])
            else:
                for k, j in enumerate(js):
                    st = j.get('self')
                    nn = n.replace(st.split('<')[0] + ' as', st + ' as', 1) if st else n
                    if nn in self.fns or nn == n:
                        nn = nn + '#%d' % k
                    j['uname'] = nn
                    self.fns[nn] = Fn(self, j)

    def fn(self, name):
        return self.fns.get(name)


# ------------------------------------------------------------------------- evaluation
class Ctx:
    __slots__ = ('an', 'fn', 'parent', 'site', 'args', 'id', 'depth', 'kids', 'cache', 'busy', 'chain', 'ret', 'valargs')

    def __init__(self, an, fn, parent, site, args):
        self.an, self.fn, self.parent, self.site, self.args = an, fn, parent, site, args
        self.depth = parent.depth + 1 if parent else 0
        self.chain = (parent.chain if parent else ()) + (fn.name,)
        self.kids, self.cache, self.busy = {}, {}, set()
        self.ret = None
        self.id = an.nctx
        an.nctx += 1


class Missing(Exception):
    pass


class Analysis:
    """Value provenance + inlining policy.  `opaque`: names (n or r) or predicates that are not inlined."""

    def __init__(self, prog, opaque=(), inline_only=None, maxdepth=10, bind=None):
        self.prog = prog
        self.opaque = set(opaque)
        self.inline_only = inline_only
        self.maxdepth = maxdepth
        self.bind = bind or {}
        self.nctx = 0
        self.rechits = 0
        self.evals = 0
        self.chainstack = []
        self.funcs = set()
        self._app = {}

    def root(self, name, selfarg=None):
        f = self.prog.fn(name)
        if f is None:
            raise Missing(name)
        args = []
        for i in range(1, f.nargs + 1):
            nm = f.locals[i][1]
            isself = nm == 'self' if selfarg is None else (i == 1 and selfarg)
            args.append(('arg', i - 1, 'self' if isself else None))
        return Ctx(self, f, None, None, args)

    # ---- callee resolution
    def callee(self, ctx, bb):
        """-> (n, r, local Fn or None)"""
        c = ctx.fn.bbs[bb]['t'][1]
        if 'n' not in c:
            return ('<ptr>', None, None)
        n, r = c['n'], c.get('r')
        if n in self.bind:
            r = self.bind[n]
            return (n, r, self.prog.fn(r))
        f = None
        if r and not c.get('virt') and c.get('local', False):
            f = self.prog.fn(r)
        return (n, r, f)

    def should_inline(self, ctx, n, r, f):
        if f is None or f.name in ctx.chain or ctx.depth >= self.maxdepth:
            return False
        if n in self.opaque or r in self.opaque or f.name in self.opaque:
            return False
        if self.inline_only is not None and not self.inline_only(f):
            return False
        return True

    # ---- closures
    def apply(self, clo, args):
        if clo[0] == 'phi':
            return mk_phi([self.apply(c, args) for c in clo[1]])
        if clo[0] == 'fn':
            f = self.prog.fn(clo[1])
            if clo[1] in IDENTITY and args:
                return args[0]
            if f is None or f.name in self.opaque:
                return self.builtin(clo[1], list(args)) or ('call', clo[1], tuple(args))
            key = (clo, tuple(args))
            a = list(args)
        elif clo[0] == 'closure':
            f = self.prog.fn(clo[1])
            if f is None:
                return UNK
            key = (clo, tuple(args))
            a = [clo] + list(args)
        else:
            return ('app', clo, tuple(args))
        chain = self.chainstack[-1] if self.chainstack else ()
        if f.name in chain or len(chain) >= self.maxdepth:
            return ('call', f.name, tuple(args))
        if key in self._app:
            return self._app[key]
        c = Ctx(self, f, None, None, a)
        c.depth = len(chain)
        c.chain = chain + (f.name,)
        h0 = self.rechits
        v = self.ret_value(c)
        if self.rechits == h0:
            self._app[key] = v
        return v

    def fix_app(self, e):
        """evaluate ('app', closure, args) left behind by the iterator/option normalisers"""
        if e[0] == 'app':
            return self.apply(e[1], tuple(self.fix_app(x) for x in e[2]))
        if e[0] == 'phi':
            return mk_phi([self.fix_app(x) for x in e[1]])
        if e[0] in ('some', 'err'):
            x = self.fix_app(e[1])
            if x != e[1]:
                return mk_payload(x, 'Some' if e[0] == 'some' else 'Err', '0')
            return e
        if e[0] == 'f':
            x = self.fix_app(e[1])
            if x != e[1]:
                return mk_field(x, e[2])
            return e
        return e

    # ---- values
    def local(self, ctx, bb, i, L):
        key = (bb, i, L)
        if key in ctx.cache:
            return ctx.cache[key]
        if key in ctx.busy:
            self.rechits += 1
            return REC
        ctx.busy.add(key)
        h0 = self.rechits
        self.evals += 1
        fn = ctx.fn
        full, partial = fn.reaching(bb, i, L)
        vals = []
        for d in full:
            if d[0] == 'param':
                vals.append(ctx.args[L - 1] if L - 1 < len(ctx.args) else UNK)
            elif d[1] == 'T':
                vals.append(self.call_value(ctx, d[0]))
            else:
                vals.append(self.rvalue(ctx, d[0], d[1], fn.bbs[d[0]]['s'][d[1]][1]))
        if vals:
            v = mk_phi(vals)
        elif partial:
            v = ('agg', 'tuple' if fn.local_ty(L).startswith('(') else fn.local_ty(L).split('<')[0], None, ())
        else:
            v = ('loc', L)
        if partial and v[0] not in ('unk',):
            ups = []
            seen_strong = set()
            for (b, j, strong) in partial:
                if j == 'T':
                    pl = fn.bbs[b]['t'][3]
                    val = self.call_value(ctx, b)
                else:
                    pl, rv = fn.bbs[b]['s'][j][0], fn.bbs[b]['s'][j][1]
                    if rv[0] == 'setdiscr':
                        continue
                    val = self.rvalue(ctx, b, j, rv)
                if len(pl) == 2 and isinstance(pl[1], list) and pl[1][0] == 'f':
                    ups.append((pl[1][1], val, strong))
            if ups:
                v = ('with', v, tuple(ups))
        ctx.busy.discard(key)
        if self.rechits == h0 or not ctx.busy or self.evals > 100000:
            ctx.cache[key] = v
        return v

    def place(self, ctx, bb, i, pl, env=None):
        fn = ctx.fn
        L = pl[0]
        e = env.get((ctx.id, L)) if env else None
        if e is None:
            e = self.local(ctx, bb, i, L)
        isclo = fn.j.get('closure') and L == 1
        variant = None
        for p in pl[1:]:
            if p in ('*', '*raw'):
                continue
            if isinstance(p, str):
                e = UNK
                continue
            k = p[0]
            if k == 'v':
                variant = p[1]
                continue
            if k == 'f':
                if variant is not None:
                    e = self.fix_app(mk_payload(e, variant, p[1]))
                    variant = None
                else:
                    e = mk_field(e, p[1])
            elif k == 'i':
                ix = (env.get((ctx.id, p[1])) if env else None) or self.local(ctx, bb, i, p[1])
                e = mk_elem(e, ix)
            elif k == 'ci':
                e = mk_elem(e, C(p[1]) if not p[2] else ('fromend', p[1]))
            else:
                e = ('call', 'subslice', (e,))
        if variant is not None:
            pass
        return e

    def operand(self, ctx, bb, i, o, env=None):
        if o[0] in 'cm':
            return self.place(ctx, bb, i, o[1], env)
        if o[0] == 'p':
            f = ctx.fn.promoted[o[1]]
            c = Ctx(self, f, None, None, [])
            return self.ret_value(c)
        v = o[1]
        if isinstance(v, dict):
            if 'str' in v:
                return ('c', 's:' + v['str'])
            if 'fn' in v:
                return ('fn', v['fn'])
            if 'static' in v:
                return ('static', v['static'])
            return ('c', 't:' + (o[3] if len(o) > 3 else v['txt']))
        return C(v)

    def rvalue(self, ctx, bb, i, r, env=None):
        k = r[0]
        if k == 'use':
            return self.operand(ctx, bb, i, r[1], env)
        if k in ('ref', 'raw'):
            return self.place(ctx, bb, i, r[1], env)
        if k == 'cast':
            e = self.operand(ctx, bb, i, r[1], env)
            return mk_cast(e, r)
        if k == 'bin':
            a = self.operand(ctx, bb, i, r[2], env)
            b = self.operand(ctx, bb, i, r[3], env)
            return mk_bin(r[1], a, b)
        if k == 'un':
            a = self.operand(ctx, bb, i, r[2], env)
            if r[1] == 'Not':
                if a[0] == 'c' and isinstance(a[1], int) and a[1] not in (0, 1):
                    return C(~a[1])
                return mk_not(a)
            if r[1] == 'Neg':
                return mk_add(C(0), a, -1)
            if r[1] == 'PtrMetadata':
                return ('call', 'len', (a,))
            return ('un', r[1], a)
        if k == 'discr':
            e = self.place(ctx, bb, i, r[1], env)
            return ('discr', e, tuple((a, b) for a, b in r[3]))
        if k == 'agg':
            ops = [mark_bool(self.operand(ctx, bb, i, o, env), o) for o in r[3]]
            if r[1] == 'adt':
                adt, var, names = r[2]
                if adt in ('Box', 'Rc', 'Arc', 'Cell', 'RefCell', 'NonNull', 'Reverse'):
                    return ops[0] if ops else UNK
                if var is None and len(ops) > 1 and ops[0][0] == 'f' and all(o[0] == 'f' and o[1] == ops[0][1] and o[2] == n for n, o in zip(names, ops)) and re.match(r'<%s(<.*)? as Clone>::clone$' % re.escape(adt), ctx.fn.name):
                    return ops[0][1]
                return ('agg', adt, var, tuple(zip(names, ops)))
            if r[1] == 'closure':
                return ('closure', r[2], tuple((str(x), o) for x, o in enumerate(ops)))
            if r[1] == 'tuple' and not ops:
                return ('c', 't:()')
            return ('agg', r[1], None, tuple((str(x), o) for x, o in enumerate(ops)))
        if k == 'rep':
            return ('call', 'repeat', (self.operand(ctx, bb, i, r[1], env), ('c', r[2])))
        return UNK

    def args(self, ctx, bb, env=None):
        b = ctx.fn.bbs[bb]
        n = len(b['s'])
        return [self.operand(ctx, bb, n, a, env) for a in b['t'][2]]

    def child(self, ctx, bb, f, args):
        if bb in ctx.kids:
            return ctx.kids[bb]
        c = Ctx(self, f, ctx, bb, args)
        ctx.kids[bb] = c
        return c

    def closure_call(self, n, args):
        """direct call of a closure value: Fn*::call*(closure, (args,))"""
        if n in ('FnOnce::call_once', 'Fn::call', 'FnMut::call_mut') and args:
            tup = args[1] if len(args) > 1 else UNK
            if tup[0] == 'agg':
                a = [v for _, v in tup[3]]
            elif tup == ('c', 't:()'):
                a = []
            else:
                a = [UNK]
            return args[0], a
        return None

    def call_value(self, ctx, bb):
        key = ('call', bb)
        if key in ctx.cache:
            return ctx.cache[key]
        if key in ctx.busy:
            self.rechits += 1
            return REC
        ctx.busy.add(key)
        h0 = self.rechits
        self.chainstack.append(ctx.chain)
        v = self._call_value(ctx, bb)
        self.chainstack.pop()
        ctx.busy.discard(key)
        if len(show(v)) > 6000:
            v = ('unk',)
        if self.rechits == h0 or not ctx.busy or self.evals > 100000:
            ctx.cache[key] = v
        return v

    def _call_value(self, ctx, bb):
        n, r, f = self.callee(ctx, bb)
        args = self.args(ctx, bb)
        cc = self.closure_call(n, args)
        if cc is not None and cc[0][0] in ('closure', 'fn', 'phi'):
            return self.apply(cc[0], tuple(cc[1]))
        b = self.builtin(n, args, r)
        if b is not None and n not in self.opaque:
            return b
        if self.should_inline(ctx, n, r, f):
            c = self.child(ctx, bb, f, args)
            return self.ret_value(c)
        if n in IDENTITY and n not in self.opaque and not (f is not None and n == 'From::from'):
            return args[0] if args else UNK
        return ('call', self.cname(n, r), tuple(args))

    def cname(self, n, r):
        if n.startswith('core::') or n.startswith('std::') or n.startswith('alloc::'):
            return n.split('::', 1)[1]
        return n

    def builtin(self, n, args, r=None):
        if n in IDENTITY and args and n not in ('From::from', 'Into::into', 'Clone::clone', 'ToOwned::to_owned', 'ToString::to_string', 'TryFrom::try_from', 'TryInto::try_into', 'Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'Borrow::borrow', 'BorrowMut::borrow_mut', 'AsMut::as_mut'):
            return args[0]
        if n in ('Deref::deref', 'DerefMut::deref_mut', 'Clone::clone', 'AsRef::as_ref', 'Borrow::borrow', 'BorrowMut::borrow_mut', 'AsMut::as_mut', 'ToOwned::to_owned') and not (r and self.prog.fn(r) and not (n == 'Clone::clone' and self.prog.fn(r).j.get('derived'))):
            return args[0]
        if n in GUARDS and args:
            return args[0]
        if n.endswith('Arguments::new') and len(args) == 2 and args[1][0] == 'agg':
            return splice_format(n, args[0], args[1])
        if n.endswith('fmt::format') and args and args[0][0] == 'call' and args[0][1].endswith('Arguments::new') and len(args[0][2]) == 2:
            # format!("{}", x) is x.to_string()
            tp, av = args[0][2]
            if tp == ('c', 't:b"\\xc0\\x00"') and av[0] == 'agg' and len(av[3]) == 1 and av[3][0][1][0] == 'call' and av[3][0][1][1].endswith('Argument::new_display'):
                return av[3][0][1][2][0]
        if n == 'RangeInclusive::contains' or n == 'Range::contains':
            g = args[0]
            if g[0] == 'agg' or (g[0] == 'call' and g[1] == 'RangeInclusive::new'):
                lo, hi = (g[2][0], g[2][1]) if g[0] == 'call' else (mk_field(g, 'start'), mk_field(g, 'end'))
                incl = g[0] == 'call' or g[1] == 'RangeInclusive'
                return ('and', (mk_cmp('Ge', args[1], lo), mk_cmp('Le' if incl else 'Lt', args[1], hi)))
        if n in UNWRAP:
            return self.fix_app(mk_payload(args[0], 'Some' if n.startswith('Option') else 'Ok', '0'))
        if n in CMPCALLS and not (r and self.prog.fn(r) and not self.prog.fn(r).j.get('derived')):
            return mk_cmp(CMPCALLS[n], args[0], args[1])
        if n in BINCALLS:
            return mk_bin(BINCALLS[n], args[0], args[1])
        last = n.rsplit('::', 1)[-1]
        if last in ARITH and n.split('::')[-2] in INTTY and len(args) == 2:
            return mk_add(args[0], args[1], ARITH[last])
        if n == 'str::ends_with' and len(args) == 2 and args[1][0] == 'c' and isinstance(args[1][1], int):
            cs = ('call', 'str::chars', (args[0],))
            return ('and', (mk_not(mk_cmp('Eq', ('call', 'len', (cs,)), C(0))), mk_cmp('Eq', ('last', cs), args[1])))
        if n in ('Option::is_some',):
            return mk_is(args[0], 'Some')
        if n in ('Option::is_none',):
            return mk_is(args[0], 'None')
        if n in ('Result::is_ok',):
            return mk_is(args[0], 'Ok')
        if n in ('Result::is_err',):
            return mk_is(args[0], 'Err')
        if n in ('Vec::len', '[T]::len', 'str::len', 'String::len', 'VecDeque::len', 'HashMap::len', 'HashSet::len', 'BitSet::len'):
            if n == 'BitSet::len':
                return ('call', 'len', (('call', 'BitSet::iter', (args[0],)),))
            return ('call', 'len', (args[0],))
        if n in ('Vec::is_empty', '[T]::is_empty', 'str::is_empty', 'String::is_empty', 'HashMap::is_empty', 'HashSet::is_empty', 'BitSet::is_empty'):
            if n == 'BitSet::is_empty':
                return mk_cmp('Eq', ('call', 'len', (('call', 'BitSet::iter', (args[0],)),)), C(0))
            return mk_cmp('Eq', ('call', 'len', (args[0],)), C(0))
        if n in ('Index::index', 'IndexMut::index_mut', '[T]::get_unchecked', '[T]::get_unchecked_mut') and not (r and self.prog.fn(r)):
            return mk_elem(args[0], args[1])
        if n in ('Option::unwrap_or',):
            if args[0][0] == 'agg':
                return mk_payload(args[0], 'Some', '0') if args[0][2] == 'Some' else args[1]
            return mk_phi([self.fix_app(mk_payload(args[0], 'Some', '0')), args[1]])
        if n in ('Option::unwrap_or_else', 'Result::unwrap_or_else'):
            return mk_phi([self.fix_app(mk_payload(args[0], 'Some', '0')), self.apply(args[1], (() if n.startswith('Option') else (mk_payload(args[0], 'Err', '0'),)))])
        if n == 'Option::map_or':
            return mk_phi([args[1], self.apply(args[2], (mk_payload(args[0], 'Some', '0'),))])
        if n == 'Option::map_or_else':
            return mk_phi([self.apply(args[1], ()), self.apply(args[2], (mk_payload(args[0], 'Some', '0'),))])
        if n in ('mem::replace', 'core::mem::replace', 'std::mem::replace', 'core::mem::take', 'std::mem::take', 'Option::take', 'Cell::replace', 'RefCell::replace', 'Cell::take', 'Option::replace', 'RefCell::take'):
            return args[0]
        if n in ('Option::get_or_insert', 'Option::get_or_insert_with', 'Option::insert'):
            return ('some', args[0])
        if n == 'FromResidual::from_residual':
            x = args[0]
            if x[0] == 'residual':
                return ('agg', 'Result', 'Err', (('0', mk_payload(x[1], 'Err', '0')),))
            return ('agg', 'Result', 'Err', (('0', x),))
        if n.endswith('usize::max_value') or n.endswith('u64::max_value'):
            return C(2 ** 64 - 1)
        if n.endswith('isize::max_value'):
            return C(2 ** 63 - 1)
        if n.endswith('isize::min_value'):
            return C(-2 ** 63)
        if n == 'IntoIterator::into_iter' and not (r and self.prog.fn(r)):
            return args[0]
        return None

    def ret_value(self, ctx):
        if ctx.ret is not None:
            return ctx.ret
        if 'R' in ctx.busy:
            self.rechits += 1
            return REC
        ctx.busy.add('R')
        vals = [self.local(ctx, b, len(ctx.fn.bbs[b]['s']), 0) for b in ctx.fn.returns]
        v = mk_phi(vals) if vals else ('c', 't:!')
        v = self.fix_app(v)
        ctx.busy.discard('R')
        ctx.ret = v
        return v


BITS = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'char': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64, 'u128': 128, 'i128': 128, 'bool': 1}

def mk_cast(e, r):
    """integer casts: constants are wrapped, a narrowing cast stays visible, others keep the value"""
    if r[3] != 'IntToInt':
        return e
    if e[0] == 'c' and isinstance(e[1], int):
        return C(wrap(e[1], r[2]))
    src = r[4] if len(r) > 4 else ''
    if BITS.get(src, 0) > BITS.get(r[2], 999):
        if e[0] == 'call' and e[1] == 'as ' + r[2]:
            return e
        return ('call', 'as ' + r[2], (e,))
    if e[0] == 'call' and e[1].startswith('as ') and e[1][3:] == r[2]:
        return e
    return e

def mark_bool(e, o):
    return ('c', e[1], 'b') if e[0] == 'c' and o[0] == 'k' and len(o) > 2 and o[2] == 'bool' else e

def wrap(v, ty):
    bits = {'u8': 8, 'u16': 16, 'u32': 32, 'i8': 8, 'i16': 16, 'i32': 32, 'char': 32, 'u64': 64, 'usize': 64, 'i64': 64, 'isize': 64}.get(ty)
    if bits:
        v &= (1 << bits) - 1
        if ty.startswith('i') and v >> (bits - 1):
            v -= 1 << bits
    return v

def mk_elem(b, ix):
    if ix is not None and ix[0] == 'agg' and ix[1].startswith('Range'):
        d = dict(ix[3])
        if ix[1] in ('RangeTo', 'RangeToInclusive'):
            ix = ('agg', 'Range', None, (('start', C(0)), ('end', d['end'] if ix[1] == 'RangeTo' else mk_add(d['end'], C(1)))))
        elif ix[1] == 'RangeInclusive' and 'end' in d:
            ix = ('agg', 'Range', None, (('start', d['start']), ('end', mk_add(d['end'], C(1)))))
        return ('call', 'slice', (b, ix))
    if ix[0] == 'c' and b[0] == 'agg' and b[1] == 'array':
        return mk_field(b, str(ix[1]))
    return ('elem', b, ix)

def mk_bin(op, a, b):
    op = op.replace('WithOverflow', '').replace('Unchecked', '')
    if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
        return mk_cmp(op, a, b)
    if op == 'Add':
        return mk_add(a, b)
    if op == 'Sub':
        return mk_add(a, b, -1)
    if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], int) and isinstance(b[1], int):
        try:
            return C({'Mul': lambda: a[1] * b[1], 'Shl': lambda: a[1] << b[1], 'Shr': lambda: a[1] >> b[1],
                      'BitAnd': lambda: a[1] & b[1], 'BitOr': lambda: a[1] | b[1], 'BitXor': lambda: a[1] ^ b[1]}[op]())
        except (KeyError, ValueError):
            pass
    if op == 'BitAnd' and a[0] in ('eq', 'lt', 'not', 'is', 'isok', 'and') and b[0] in ('eq', 'lt', 'not', 'is', 'isok', 'and'):
        return ('and', (a, b))
    if op in ('Mul', 'BitAnd', 'BitOr', 'BitXor') and show(b) < show(a):
        a, b = b, a
    return ('bin', op, a, b)

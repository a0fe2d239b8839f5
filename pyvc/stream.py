"""Byte streams under construction.  A stream is a list of fields: literal bytes, fixed-width integers and floats holding
terms, raw data tokens, and repetitions (one group of fields per element of a sequence of symbolic length)."""
import builtins, struct
import z3
from . import path as P
from .path import Unsupported
from .values import SymInt, Real, Rat, is_sym, mk, simp, term, rterm, intlike
from . import seq as Q

_level = [0]


class Rep:
    """fields(j) for j in 0..n-1; fields(j) -> [(condition, items)]"""

    def __init__(self, n, at):
        self.n, self.at = n, at


HOLE = object()


class Bits:
    """immutable bytes with symbolic fields"""

    def __init__(self, items):
        self.items = items

    def __add__(self, o):
        return Bits(self.items + parts(o))

    def __radd__(self, o):
        return Bits(parts(o) + self.items)

    def __getattr__(self, n):
        raise Unsupported('symbolic bytes: %s' % n)


def parts(o):
    if isinstance(o, (bytes, bytearray)):
        return [bytes(o)] if len(o) else []
    if isinstance(o, (Bits, Stream)):
        return list(o.items)
    raise Unsupported('bytes of %s' % type(o).__name__)


class Stream:
    """bytearray"""

    def __init__(self, src=None):
        self.level = _level[0]
        self.items = [] if src is None or (isinstance(src, builtins.int) and src == 0) else parts(src)

    def _w(self):
        if self.level != _level[0]:
            raise Unsupported('buffer of an enclosing scope written by a symbolic loop')

    def __iadd__(self, o):
        self._w()
        self.items += parts(o)
        return self

    def __add__(self, o):
        return Bits(self.items + parts(o))

    def extend(self, o):
        self._w()
        self.items += parts(o)

    def append(self, b):
        self._w()
        if is_sym(b):
            self.items.append(('u', 1, term(b)))
        else:
            self.items.append(bytes([b]))

    def __getattr__(self, n):
        raise Unsupported('symbolic buffer: %s' % n)
    __hash__ = None

    def __len__(self):
        raise Unsupported('length of a symbolic buffer')


class _BAMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.bytearray, Stream))

    def __call__(cls, *a):
        if P._cur is None:
            return builtins.bytearray(*a)
        return Stream(*a)


class PByteArray(metaclass=_BAMeta):
    pass


def to_bytes(self, length=1, byteorder='big', *, signed=False):
    if is_sym(length) or byteorder != 'little':
        raise Unsupported('to_bytes')
    lo, hi = (-2 ** (8 * length - 1), 2 ** (8 * length - 1)) if signed else (0, 2 ** (8 * length))
    if builtins.bool(self < lo) or builtins.bool(self >= hi):
        raise OverflowError('int too big to convert')
    return Bits([('i' if signed else 'u', length, term(self))])


SymInt.to_bytes = to_bytes
INTS = {'b': (1, 'i'), 'B': (1, 'u'), 'h': (2, 'i'), 'H': (2, 'u'), 'i': (4, 'i'), 'I': (4, 'u'), 'l': (4, 'i'), 'L': (4, 'u'), 'q': (8, 'i'), 'Q': (8, 'u')}


class PStruct:
    def __getattr__(self, n):
        return getattr(struct, n)

    @staticmethod
    def pack(fmt, *xs):
        if not any(is_sym(x) for x in xs):
            return struct.pack(fmt, *xs)
        native = fmt[:1] not in '<>=!'
        f = fmt.lstrip('<=@')
        if len(f) != len(xs):
            raise Unsupported('pack %s' % fmt)
        out = []
        for c, x in zip(f, xs):
            if c in 'fd':
                out.append(('f' if c == 'f' else 'd', 4 if c == 'f' else 8, rterm(x)))
            elif c in INTS:
                n, k = INTS[c]
                if c in 'lL' and native:
                    n = 8
                if len(xs) > 1 and native:
                    raise Unsupported('pack with alignment')
                out += to_bytes(x, n, 'little', signed=k == 'i').items
            else:
                raise Unsupported('pack %s' % fmt)
        return Bits(out)


STRUCT = PStruct()


class SinkFile:
    """what open() gives the code under proof: everything written, in order"""

    def __init__(self):
        self.out = Stream()

    def write(self, b):
        self.out += b

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# ------------------------------------------------------------------ loops that append to buffers
def isbuf(v):
    return isinstance(v, (Stream, Bits, bytes))


def cut(key, s, names, vals, mutated, body):
    """every iteration appends a group of fields that depends on its element only"""
    p = P.cur()
    n = Q.T(s.n)

    def once(j):
        _level[0] += 1
        try:
            st = [Stream() if isinstance(v, Stream) else Bits([HOLE]) if isbuf(v) else Q.Poison() for v in vals]
            after = body(s.at(j), *st)
            eff = []
            for x, v, a, b in zip(names, vals, st, after):
                if isinstance(v, Stream):
                    if b is not a:
                        raise Unsupported('buffer %s rebound inside a symbolic loop' % x)
                    eff.append(a.items)
                elif isbuf(v):
                    if not isinstance(b, Bits) or b.items[:1] != [HOLE]:
                        raise Unsupported('bytes %s not extended by a symbolic loop' % x)
                    eff.append(b.items[1:])
                else:
                    eff.append(None)
            return tuple(eff)
        finally:
            _level[0] -= 1
    for x, v in zip(names, vals):
        if x in mutated and not isbuf(v):
            raise Unsupported('loop updates %s and a buffer' % x)
    k = p.fresh('it')
    inside = z3.And(k >= 0, k < n)
    p.solver.push()
    try:
        p.solver.add(inside)
        outs = P.merge(lambda: once(k))
    finally:
        p.solver.pop()
    if any(kind != 'return' for _, kind, _ in outs):
        if p.sub:
            if any(kind != 'return' and not Q.refuted(p, inside, br) for br, kind, _ in outs):
                raise Unsupported('nested symbolic loop that may raise')
        elif p.choose([('normal', z3.BoolVal(True)), ('exit', inside)]) == 'exit':
            p.ghost.setdefault('exits', []).append(k)
            once(k)
            raise P.Abort()

    def at(idx):
        def f(j):
            inside = z3.And(j >= 0, j < n)
            outs = P.merge(lambda: once(j))
            for br, kind, v in outs:
                if kind != 'return':
                    P.cur().assume(z3.Implies(inside, z3.Not(br)))
            return [(br, v[idx]) for br, kind, v in outs if kind == 'return']
        return f
    new = []
    for idx, v in enumerate(vals):
        if isinstance(v, Stream):
            v._w()
            v.items.append(Rep(s.n, at(idx)))
            new.append(v)
        elif isbuf(v):
            new.append(Bits(parts(v) + [Rep(s.n, at(idx))]))
        else:
            new.append(Q.Poison())
    return tuple(new)


# ------------------------------------------------------------------ comparison
def flat(items):
    """repetitions of known short length spelled out, adjacent literals joined"""
    out = []
    for x in items:
        if isinstance(x, Rep) and isinstance(x.n, builtins.int):
            for j in range(x.n):
                g = x.at(z3.IntVal(j))
                if len(g) != 1:
                    out.append(('alt', g))
                else:
                    for y in flat(g[0][1]):
                        add(out, y)
        else:
            add(out, x)
    return out


def add(out, x):
    if isinstance(x, bytes) and out and isinstance(out[-1], bytes):
        out[-1] += x
    elif not (isinstance(x, bytes) and not x):
        out.append(x)


def compare(exp, got, at=''):
    """goals saying that two field lists are the same bytes"""
    e, g = flat(exp), flat(got)
    i = 0
    while e or g:
        lab = '%s field %d' % (at, i)
        i += 1
        if not e or not g:
            yield lab + (' missing' if e else ' superfluous'), False
            return
        x, y = e[0], g[0]
        if isinstance(x, bytes) and isinstance(y, bytes):
            m = min(len(x), len(y))
            if x[:m] != y[:m]:
                yield '%s literal %r, got %r' % (lab, x[:40], y[:40]), False
                return
            e[:1], g[:1] = ([x[m:]] if x[m:] else []), ([y[m:]] if y[m:] else [])
            continue
        if isinstance(x, bytes) or isinstance(y, bytes):
            b, f, lit = (x, y, e) if isinstance(x, bytes) else (y, x, g)
            if not (isinstance(f, tuple) and f[0] in ('i', 'u')) or len(b) < f[1]:
                yield '%s kind (%s, %s)' % (lab, kind(x), kind(y)), False
                return
            yield lab, f[2] == builtins.int.from_bytes(b[:f[1]], 'little', signed=f[0] == 'i')
            rest = b[f[1]:]
            (g if lit is e else e).pop(0)
            lit[:1] = [rest] if rest else []
            continue
        e.pop(0)
        g.pop(0)
        if isinstance(x, Rep) and isinstance(y, Rep):
            yield lab + ' count', simp(Q.T(x.n) == Q.T(y.n))
            k = P.cur().fresh('any')
            P.cur().assume(z3.And(k >= 0, k < Q.T(x.n)))
            ex, go = x.at(k), y.at(k)
            for ce, ie in ex:
                for cg, ig in go:
                    for l, t in compare(ie, ig, '%s group' % lab):
                        yield l, z3.Implies(z3.And(ce, cg), z3.BoolVal(t) if isinstance(t, bool) else t)
            continue
        if isinstance(x, Rep) or isinstance(y, Rep) or x[0] != y[0] or x[1] != y[1]:
            yield '%s kind (%s, %s)' % (lab, kind(x), kind(y)), False
            return
        if x[0] == 'raw':
            yield lab + ' data', x[2] == y[2]
        else:
            yield lab + ' value', simp(x[2] == y[2])


def kind(x):
    return 'literal' if isinstance(x, bytes) else 'repetition' if isinstance(x, Rep) else '%s%s' % x[:2]


# ------------------------------------------------------------------ symbolic dictionaries
class SymDict:
    """a dict of any size; keys are told apart by their text"""

    def __init__(self, n, key, val):
        self.n, self.key, self.val = n, key, val
        self.mem = {}

    def _k(self, j):
        k = self.key(j)
        self.mem[k] = j
        return k

    def keys(self):
        return Q.SymSeq(self.n, self._k)

    def values(self):
        return Q.SymSeq(self.n, self.val)

    def items(self):
        return Q.SymSeq(self.n, lambda j: (self._k(j), self.val(j)))

    __symseq__ = keys

    def __getitem__(self, k):
        if k in self.mem:
            return self.val(self.mem[k])
        raise Unsupported('lookup of %r' % (k,))

    def get(self, k, d=None):
        return self[k]

    def __contains__(self, k):
        if k in self.mem:
            return True
        raise Unsupported('membership of %r' % (k,))

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        raise Unsupported('length of a symbolic dict')


class Lookup(SymDict):
    """values addressed by the text of keys handed out elsewhere"""

    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        return self.f(k)

    def __contains__(self, k):
        return True


class DataArr:
    """made below: array whose bytes are a token"""


def text(base, *idx):
    """a string only equal to itself at the same indices; mixed case, not ASCII, long"""
    return 'Näme_%s_%s_A long tail that is longer than any buffer/x:0' % (base, '_'.join(simp(Q.T(i)).sexpr().replace('\n', ' ') for i in idx))

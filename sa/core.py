"""Interpreter state, branching and joining.

Analysis = forward abstract interpretation of the syntax tree.  Expressions are evaluated path by path (`explore`),
statements carry sets of abstract states which are joined (facts intersected) whenever nothing but facts differs.
Loops over collections of unknown content are summarised (see stmts.py), so every analysis terminates."""
import ast
from .domain import *
from .domain import _ladd


class PyExc(Exception):
    def __init__(self, value):
        self.value = value


class Undecided(Exception):
    """analysis could not treat a construct soundly"""


class Budget(Undecided):
    pass


# library predicates without a model: a verdict that depends on them is undecided, not wrong
OPAQUE_MODULES = {'re', 'string', 'unicodedata', 'ipaddress', 'difflib', 'fnmatch', 'operator', 'itertools', 'functools', 'math', 'datetime', 'calendar',
                  'email', 'html', 'struct', 'locale', 'textwrap', 'dateutil', 'hmac', 'secrets', 'bisect', 'shlex', 'codecs', 'ast', 'binascii', 'dataclasses'}
_opaque = {}


def opaque_in(x):
    if not isinstance(x, tuple) or not x:
        return None
    try:
        return _opaque[x]
    except KeyError:
        pass
    except TypeError:
        return None
    r = None
    if x[0] == 't' and x[1] == 'call' and x[2][0] == 'ext' and x[2][1].split('.')[0] in OPAQUE_MODULES and len(x) > 3 and not all(a[0] == 'k' for a in x[3]):
        r = x[2][1]
    else:
        for y in x:
            if isinstance(y, tuple):
                r = opaque_in(y)
                if r is not None:
                    break
    if len(_opaque) > 500000:
        _opaque.clear()
    _opaque[x] = r
    return r


class State:
    __slots__ = ('frames', 'heap', 'facts', 'flags', 'nid', 'locks', 'trace')
    world_heap = {}
    world_frames = {}
    world_nid = 1

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.facts = Facts()
        self.flags = ()
        self.locks = ()
        self.nid = State.world_nid
        self.trace = ()

    def copy(self):
        n = State.__new__(State)
        n.frames = dict(self.frames)
        n.heap = dict(self.heap)
        n.facts = self.facts.copy()
        n.flags = self.flags
        n.locks = self.locks
        n.nid = self.nid
        n.trace = self.trace
        return n

    def become(self, o):
        self.frames = o.frames
        self.heap = o.heap
        self.facts = o.facts
        self.flags = o.flags
        self.locks = o.locks
        self.nid = o.nid
        self.trace = o.trace

    # heap
    def new(self, obj):
        i = self.nid
        self.nid = i + 1
        self.heap[i] = obj
        return ('r', i)

    def obj(self, ref):
        o = self.heap.get(ref[1])
        if o is None:
            o = State.world_heap[ref[1]]
        return o

    def frame(self, fid):
        f = self.frames.get(fid)
        if f is None:
            f = State.world_frames[fid]
        return f

    def setobj(self, ref, obj):
        self.heap[ref[1]] = obj

    # frames
    def getl(self, fid, name):
        return self.frame(fid).get(name)

    def setl(self, fid, name, v):
        f = dict(self.frame(fid))
        f[name] = v
        self.frames[fid] = f

    def dell(self, fid, name):
        f = dict(self.frame(fid))
        f.pop(name, None)
        self.frames[fid] = f

    def flag(self, x):
        if x not in self.flags:
            self.flags = self.flags + (x,)


class Path:
    __slots__ = ('prefix', 'pos', 'taken', 'stack', 'memo', 'n')

    def __init__(self, prefix, stack, memo):
        self.prefix = prefix
        self.pos = 0
        self.stack = stack
        self.memo = memo
        self.n = 0


class Core:
    MAXPATHS = 4000
    pair_merge = True
    path_merge = True

    def __init__(self):
        self.cur = None
        self.steps = 0
        self.max_steps = 6_000_000
        self.phi_n = 0
        self.funcs_seen = set()
        self.calls_seen = 0
        self.notes = []

    # ------------------------------------------------------------ branching
    def explore(self, st, fn):
        """all outcomes of the direct-style fn(state): list of (state, 'val'|'exc', value)"""
        res = []
        stack = [()]
        memo = {}
        saved = self.cur
        try:
            while stack:
                prefix = stack.pop()
                s = st.copy() if stack or prefix or True else st
                self.cur = Path(prefix, stack, memo)
                try:
                    v = fn(s)
                    res.append((s, 'val', v))
                except PyExc as e:
                    res.append((s, 'exc', e.value))
                except Infeasible:
                    pass
                if len(res) > self.MAXPATHS:
                    raise Budget('too many paths')
        finally:
            self.cur = saved
        return res

    def choose(self, n):
        if n == 1:
            return 0
        p = self.cur
        if p.pos < len(p.prefix):
            c = p.prefix[p.pos]
        else:
            for i in range(n - 1, 0, -1):
                p.stack.append(p.prefix + (i,))
            p.prefix = p.prefix + (0,)
            c = 0
        p.pos += 1
        return c

    def memo(self, st, thunk):
        """thunk(state copy) -> list of outcomes; evaluated once per path prefix"""
        p = self.cur
        if p is None:
            raise Undecided('branching outside exploration')
        p.n += 1
        key = (p.prefix[:p.pos], p.n)
        outs = p.memo.get(key)
        if outs is None:
            outs = thunk(st)
            p.memo[key] = outs
        if not outs:
            raise Infeasible()
        i = self.choose(len(outs))
        s, kind, v = outs[i]
        st.become(s.copy())
        if kind == 'exc':
            raise PyExc(v)
        return v

    def decide(self, st, atom, bind=True):
        if atom[0] == 'not':
            return not self.decide(st, atom[1], bind)
        r = st.facts.decide(atom)
        if r is not None:
            return r
        n = opaque_in(atom)
        if n is not None:
            # the verdict now hangs on something the analysis knows nothing about
            st.flag(('opaque', n))
        v = self.choose(2) == 0
        self.assume(st, atom, v, bind)
        return v

    def assume(self, st, atom, v, bind=True):
        if atom[0] == 'not':
            return self.assume(st, atom[1], not v, bind)
        if not st.facts.assume(atom, v):
            raise Infeasible()
        # elements that turn out to be a known constant are replaced by it
        if bind and v and atom[0] == 'one' and len(atom[2]) == 1 and is_t(atom[1]) and atom[1][1] in ('elem', 'only'):
            (c,) = atom[2]
            self.subst_state(st, atom[1], c)

    def subst_state(self, st, x, c):
        for fid, fr in st.frames.items():
            ch = None
            for n, v in fr.items():
                if isinstance(v, tuple) and v[0] in ('t', 'tup') and mentions(v, x):
                    ch = ch or dict(fr)
                    ch[n] = subst(v, x, c)
            if ch is not None:
                st.frames[fid] = ch
        for i, o in list(st.heap.items()):
            n = self.subst_obj(o, x, c)
            if n is not o:
                st.heap[i] = n
        # facts
        old = st.facts
        f = Facts()
        f.tmpl = dict(old.tmpl)
        f.log = old.log
        todo = []
        for a, v in old.f.items():
            if mentions(a, x):
                todo.append((subst_atom(a, x, c), v))
            else:
                f.f[a] = v
        for t, (p, n) in old.dom.items():
            if t == x:
                f.dom[t] = (p, n)
            elif mentions(t, x):
                t2 = subst(t, x, c)
                if p is not None:
                    todo.append((mk_one(t2, p), True))
                if n:
                    todo.append((mk_one(t2, n), False))
            else:
                f.dom[t] = (p, n)
        for vec, b in old.lin.items():
            f.lin[vec] = b
        log = f.log
        for a, v in todo:
            if not f.assume(a, v):
                raise Infeasible()
        f.log = log
        st.facts = f

    def subst_obj(self, o, x, c):
        if isinstance(o, DictO):
            return subst(o, x, c)
        if isinstance(o, ListO):
            it = tuple(subst(i, x, c) for i in o.items)
            if all(a is b for a, b in zip(it, o.items)):
                return o
            return type(o)(it, o.kind)
        if isinstance(o, InstO):
            ch = None
            for n, v in o.attrs.items():
                w = subst(v, x, c)
                if w is not v:
                    ch = ch or dict(o.attrs)
                    ch[n] = w
            return InstO(o.cls, ch) if ch else o
        return o

    def phi(self, tag='phi'):
        self.phi_n += 1
        return T(tag, self.phi_n)

    # ------------------------------------------------------------ joining
    def canon(self, st, roots, base):
        """canonical description of everything reachable from roots; object ids below base keep their names"""
        names = {}
        out = []
        queue = []

        def ren(v):
            if isinstance(v, tuple):
                if not v:
                    return v
                if v[0] == 'k':
                    return v
                if v[0] == 'r':
                    i = v[1]
                    n = names.get(i)
                    if n is None:
                        n = ('r', i) if i < base else ('n', len(names))
                        names[i] = n
                        queue.append(i)
                    return n
                return tuple(ren(e) if isinstance(e, (tuple, DictO)) else e for e in v)
            if isinstance(v, DictO):
                return ('D', ren(v.base) if v.base is not None else None, ren(v.layers),
                        tuple((ren(a), ren(b)) for a, b in v.conc.items()))
            return v

        res = ren(roots)
        wn = State.world_nid
        for i in sorted(i for i in st.heap if i < wn):
            ren(('r', i))
        k = 0
        while k < len(queue):
            i = queue[k]
            k += 1
            o = st.heap.get(i)
            if o is None:          # world object, never modified here
                continue
            if isinstance(o, DictO):
                out.append((names[i], ren(o)))
            elif isinstance(o, ListO):
                out.append((names[i], type(o).__name__, o.kind, ren(o.items)))
            elif isinstance(o, InstO):
                out.append((names[i], o.cls, tuple((a, ren(b)) for a, b in sorted(o.attrs.items()))))
        return (res, tuple(out))

    def roots(self, st, fid, live):
        r = []
        for f in sorted(st.frames, key=str):
            fr = st.frames[f]
            if f == fid and live is not None:
                r.append((f, tuple(('var', n, fr[n]) for n in sorted(fr) if n in live)))
            else:
                r.append((f, tuple(('var', n, fr[n]) for n in sorted(fr))))
        return tuple(r)

    def merge(self, outs, fid, live, base):
        """outs: list of (state, completion).  Joins states with the same completion, locals and heap."""
        if len(outs) < 2:
            if outs and live is not None:
                self.drop_dead(outs[0][0], fid, live)
            return outs
        if not self.path_merge:
            for s, comp in outs:
                if live is not None and comp[0] in ('next', 'brk', 'cont'):
                    self.drop_dead(s, fid, live)
            return outs
        groups = {}
        order = []
        for s, comp in outs:
            lv = live if comp[0] in ('next', 'brk', 'cont') else None
            if comp[0] in ('next', 'brk', 'cont') and live is not None:
                self.drop_dead(s, fid, live)
            key = (comp[0], self.canon(s, (self.roots(s, fid, lv) if comp[0] in ('next', 'brk', 'cont') else self.roots(s, fid, frozenset()), comp), base),
                   s.flags, s.locks, self.partition(s))
            g = groups.get(key)
            if g is None:
                groups[key] = [(s, comp)]
                order.append(key)
            else:
                g.append((s, comp))
        res = []
        for key in order:
            g = groups[key]
            s, comp = g[0]
            if len(g) > 1 and comp[0] != 'exc':
                s.facts = Facts.join([x.facts for x, _ in g])
                s.nid = max(x.nid for x, _ in g)
                res.append((s, comp))
            else:
                res.extend(g)
        if len(res) > 1 and self.pair_merge:
            res = self.merge_dicts(res, fid, live, base)
        return res

    def partition(self, st):
        """states that differ here are never joined"""
        return None

    def drop_dead(self, s, fid, live):
        fr = s.frames.get(fid)
        if fr is not None:
            if any(n not in live and n[0] != '$' for n in fr):
                s.frames[fid] = {n: v for n, v in fr.items() if n in live or n[0] == '$'}

    def merge_dicts(self, outs, fid, live, base):
        """pairwise: states that differ in a few dict entries only become one with guarded entries"""
        changed = True
        while changed and len(outs) > 1:
            changed = False
            for i in range(len(outs)):
                for j in range(i + 1, len(outs)):
                    if outs[i][1] != outs[j][1] or outs[i][1][0] not in ('next', 'cont'):
                        continue
                    m = self.merge_pair(outs[i][0], outs[j][0])
                    if m is not None:
                        outs = outs[:i] + [(m, outs[i][1])] + outs[i + 1:j] + outs[j + 1:]
                        changed = True
                        break
                if changed:
                    break
        return outs

    def merge_pair(self, a, b):
        if self.partition(a) != self.partition(b):
            return None
        if a.flags != b.flags or a.locks != b.locks or a.frames != b.frames or a.heap.keys() != b.heap.keys():
            return None
        diff = [i for i in a.heap if a.heap[i] is not b.heap[i]]
        todo = []
        for i in diff:
            x, y = a.heap[i], b.heap[i]
            if isinstance(x, DictO) and isinstance(y, DictO):
                if x == y:
                    continue
                if x.base != y.base or x.layers != y.layers:
                    return None
                keys = list(x.conc) + [k for k in y.conc if k not in x.conc]
                if any(k[0] == 't' for k in keys):
                    return None
                dk = [k for k in keys if x.conc.get(k, MISS) != y.conc.get(k, MISS)]
                if len(dk) > 2:
                    return None
                todo.append((i, keys, dk))
            elif isinstance(x, ListO) and isinstance(y, ListO):
                if x.items != y.items or x.kind != y.kind:
                    return None
            elif isinstance(x, InstO) and isinstance(y, InstO):
                if x.cls != y.cls or x.attrs != y.attrs:
                    return None
            else:
                return None
        if len(todo) != 1:
            return None
        # a literal that separates the two states
        sep = None
        for at, v in reversed(a.facts.log[-12:]):
            if b.facts.decide(at) == (not v) and a.facts.decide(at) == v:
                sep = (at, v)
                break
        if sep is None:
            return None
        m = a
        for i, keys, dk in todo:
            x, y = a.heap[i], b.heap[i]
            conc = {}
            bot = MISS if (x.base is not None or x.layers) else DEL
            for k in keys:
                if k in dk:
                    p, q = x.conc.get(k, bot), y.conc.get(k, bot)
                    if not sep[1]:
                        p, q = q, p
                    conc[k] = ('ite', sep[0], p, q)
                else:
                    conc[k] = x.conc[k]
            m.heap[i] = DictO(x.base, x.layers, conc)
        m.facts = Facts.join([a.facts, b.facts])
        m.nid = max(a.nid, b.nid)
        return m

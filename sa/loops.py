"""Loop summaries.

A loop over a collection of unknown content is run once on a generic element.  Its effect on the heap is expressed per
element ('each' layers of dictionaries, generated list segments), everything else that changes is widened; the body is run
again on the widened state until nothing new appears.  Elements known to be in the collection are run explicitly."""
import ast
from .stmts import *


class Loops(Stmts):

    def s_For(self, s, st, ctx, live, loop):
        head = None
        if live is not None:
            full = _loop_live(s, live, loop or frozenset()) | self.keep
            head = full
            if ctx.info is not None and ctx.info.is_gen:
                head = head | {'$yield'}
        res = []
        for z, k, v in self.explore(st, lambda z: self.iterate(z, self.ev(s.iter, z, ctx))):
            if k == 'exc':
                res.append((z, ('exc', v)))
                continue
            for a, c in self.pieces(s, z, v, ctx, head):
                if c == NEXT and s.orelse:
                    res.extend(self.exec_block(s.orelse, a, ctx, live, loop))
                elif c == BRK:
                    res.append((a, NEXT))
                else:
                    res.append((a, c))
        return res

    s_AsyncFor = s_For

    def pieces(self, s, st, items, ctx, head):
        res = []
        cur = [st]
        base = st.nid
        for p in items:
            nxt = []
            for c in cur:
                if p[0] == 'gen':
                    outs = self.generic(s, c, p, ctx, head)
                elif p[0] == 'maybe':
                    outs = []
                    for z, k, v in self.explore(c, lambda z: self.decide_lit(z, p[1], p[2])):
                        outs.extend(self.iteration(s, z, p[3], ctx, head) if v else [(z, NEXT)])
                else:
                    outs = self.iteration(s, c, p, ctx, head)
                for z, comp in outs:
                    if comp in (NEXT, CONT):
                        nxt.append((z, NEXT))
                    else:
                        res.append((z, comp))
            if len(nxt) > 1 and ctx.mod[:5] != 'spec_':
                nxt = self.merge(nxt, ctx.fid, head, base)
            cur = [z for z, _ in nxt]
            if len(cur) + len(res) > self.MAXSTATES:
                raise Budget('too many states in loop of %s' % ctx.qual)
        return res + [(c, NEXT) for c in cur]

    def iteration(self, s, st, val, ctx, head):
        res = []
        for z, k, v in self.explore(st, lambda z: self.assign(z, ctx, s.target, self.resolve(z, val))):
            if k == 'exc':
                res.append((z, ('exc', v)))
            else:
                res.extend(self.exec_block(s.body, z, ctx, head, head))
        return res

    # ------------------------------------------------------------ generic elements
    def generic(self, s, st, g, ctx, head):
        _, e, src, conds, elt = g
        res = []
        start = st
        # known members
        ws = []
        for w in self.witnesses(st, src):
            if w[0] in ('k', 't') and w not in ws:
                d = [st.facts.decide(subst_atom(a, e, w)) for a, v in conds]
                if any(x is not None and x != v for x, (a, v) in zip(d, conds)):
                    continue
                ws.append(w)
        # generated lists: the loop variable is the image of the element
        kc = [w for w in ws if w[0] == 'k']
        g2 = conds
        if kc:
            g2 = g2 + (((('one', e, frozenset(kc))), False),)
        for w in ws:
            if w[0] == 't':
                g2 = g2 + ((mk_eq(e, w), False),)
        outs = self.summarise(s, start, ('gen', e, src, g2, elt), ctx, head)
        if not ws:
            return outs
        cur = []
        for z, c in outs:
            if c == NEXT:
                cur.append(z)
            else:
                res.append((z, c))
        before = [(z.frames.get(ctx.fid), dict(z.heap)) for z in cur]
        base = st.nid
        for w in ws:
            nxt = []
            for z in cur:
                for z1, k1, v1 in self.explore(z, lambda q: self.src_has(q, src, w) and all(self.decide(q, subst_atom(a, e, w)) == v for a, v in conds)):
                    if k1 == 'exc':
                        res.append((z1, ('exc', v1)))
                        continue
                    if not v1:
                        nxt.append((z1, NEXT))
                        continue
                    for z2, c2 in self.iteration(s, z1, subst(elt, e, w), ctx, head):
                        if c2 in (NEXT, CONT):
                            nxt.append((z2, NEXT))
                        else:
                            res.append((z2, c2))
            nxt = self.merge(nxt, ctx.fid, head, base) if len(nxt) > 1 and ctx.mod[:5] != 'spec_' else nxt
            cur = [z for z, _ in nxt]
        # later elements see what the known ones left in local variables
        tgt = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        for z in cur:
            f0 = before[0][0] if before else {}
            f1 = z.frames.get(ctx.fid) or {}
            ch = [n for n in f1 if n not in tgt and (head is None or n in head) and f0.get(n) != f1.get(n)]
            if ch:
                for z2, c2 in self.summarise(s, z, ('gen', e, src, g2, elt), ctx, head):
                    if c2 != NEXT:
                        res.append((z2, c2))
        return res + [(z, NEXT) for z in cur]

    def summarise(self, s, start, g, ctx, head):
        _, e, src, conds, elt = g
        eff = {}            # location -> effect
        flags = start.flags
        self.phi_n += 1
        tag = self.phi_n
        for rnd in range(6):
            h, w, body = self.one_pass(s, start, g, eff, tag, flags, ctx, head)
            if body is None:
                return [(start, NEXT)]
            new = dict(eff)
            nflags = flags
            nexts = [(z, n0) for z, c, n0 in body if c in (NEXT, CONT)]
            for z, n0 in nexts:
                self.effects(h, z, n0, w, g, ctx, head, new, s)
                for f in z.flags:
                    if f not in nflags:
                        nflags = nflags + (f,)
            if new == eff and nflags == flags:
                break
            eff, flags = new, nflags
        else:
            raise Undecided('loop of %s does not stabilise' % ctx.qual)
        res = [(z, c) for z, c, n0 in body if c not in (NEXT, CONT)]
        # normal exit
        x = start.copy()
        self.apply(x, eff, g, tag, ctx, False)
        x.nid = max([x.nid] + [z.nid for z, _, _ in body])
        if nexts:
            lits = self.common(nexts, w)
            if lits:
                self.add_tmpl_safe(x, src, e, [(subst_atom(a, w, e), v) for a, v in lits], conds)
        else:
            # no element lets the loop continue: it ends normally only when there is none
            ok = self.none_left(x, src, e, conds)
            if not ok:
                return res
        out = [(x, NEXT)]
        if flags != start.flags:
            y = x.copy()
            y.flags = flags
            out.append((y, NEXT))
        return res + out

    def none_left(self, st, src, e, conds):
        if not conds and isinstance(src, tuple):
            return st.facts.assume(('truthy', src), False)
        if isinstance(src, DictO) and src.base is not None and not src.layers and not src.conc:
            if not conds:
                return st.facts.assume(('truthy', src.base), False)
            if len(conds) == 1:
                self.add_tmpl_safe(st, src, e, [(conds[0][0], not conds[0][1])], ())
        elif len(conds) == 1 and isinstance(src, tuple):
            self.add_tmpl_safe(st, src, e, [(conds[0][0], not conds[0][1])], ())
        return True

    def add_tmpl_safe(self, st, src, e, lits, pre):
        try:
            self.add_tmpl(st, src, e, lits, pre)
        except Infeasible:
            # a known member contradicts what every completed iteration established
            raise

    def common(self, nexts, w):
        """literals about the element that hold after every completed iteration"""
        z0, n0 = nexts[0]
        cand = [(a, v) for a, v in z0.facts.log[n0:] if mentions(a, w) and not _local(a)]
        res = []
        for a, v in cand:
            if all(z.facts.decide(a) == v for z, _ in nexts[1:]):
                res.append((a, v))
        # the union of possible constants
        terms = []
        for a, v in cand:
            if a[0] == 'one' and a[1] not in terms:
                terms.append(a[1])
        for t in terms:
            pos = []
            for z, _ in nexts:
                d = z.facts.dom.get(t)
                pos.append(d[0] if d else None)
            if all(p is not None for p in pos):
                res.append((mk_one(t, frozenset().union(*pos)), True))
        return res

    def one_pass(self, s, start, g, eff, tag, flags, ctx, head):
        _, e, src, conds, elt = g
        h = start.copy()
        h.flags = flags
        self.apply(h, eff, g, tag, ctx, True)
        w = self.phi('elem')

        def begin(z):
            self.assume_member(z, src, w)
            for a, v in conds:
                self.assume(z, subst_atom(a, e, w), v)
            if isinstance(src, DictO) or src[0] == 't' and src[1] in ('body', 'map'):
                z.facts.assume(('done', w, tag), False)      # keys of a mapping come once
            val = self.resolve(z, subst(elt, e, w))
            n0 = len(z.facts.log)
            self.assign(z, ctx, s.target, val)
            return n0
        body = []
        feasible = False
        for z, k, n0 in self.explore(h, begin):
            feasible = True
            if k == 'exc':
                body.append((z, ('exc', n0), 0))
                continue
            for z2, c2 in self.exec_block(s.body, z, ctx, head, head):
                body.append((z2, c2, n0))
        if not feasible:
            return h, w, None
        return h, w, body

    # ---- effects
    def effects(self, h, z, n0, w, g, ctx, head, eff, s):
        _, e, src, conds, elt = g
        tgt = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)} if hasattr(s, 'target') else set()
        lits = tuple((subst_atom(a, w, e), v) for a, v in z.facts.log[n0:] if (mentions(a, w) or a[0] == 'truthy') and not _local(a))
        # locals of this and enclosing frames
        for fid, fr in z.frames.items():
            old = h.frames.get(fid)
            if old is None or old is fr:
                continue
            for n, v in fr.items():
                if fid == ctx.fid and (n in tgt or head is not None and n not in head):
                    continue
                if n in old and old[n] == v:
                    continue
                if n == '$exc':
                    continue
                if n not in old:
                    continue   # first bound inside the loop: not visible as live before
                self.widen(z, eff, ('l', fid, n), old.get(n), v, w)
        for fid, fr in z.frames.items():
            old = h.frames.get(fid)
            if old is None or old is fr:
                continue
            for n, v in fr.items():
                if n in old or fid != ctx.fid or n in tgt or n == '$exc' or (head is not None and n not in head):
                    continue
                self.widen(z, eff, ('l', fid, n), None, v, w)
        for i, o in z.heap.items():
            old = h.heap.get(i)
            if old is None:
                if i >= h.nid or i >= State.world_nid:
                    continue
                old = State.world_heap.get(i)
                if old is None:
                    continue
            if old is o:
                continue
            loc = ('h', i)
            if isinstance(o, InstO):
                for n, v in o.attrs.items():
                    if old.attrs.get(n) != v:
                        self.widen(z, eff, ('a', i, n), old.attrs.get(n), v, w)
            elif isinstance(o, DictO):
                ops = dict_delta(old, o)
                if ops is None:
                    eff[loc] = 'havoc'
                    continue
                if not ops or eff.get(loc) == 'havoc':
                    continue
                wc = z.facts.const(w)
                for k, en in ops:
                    lk = lits
                    if k[0] == 'k' and en[0] == 'ite' and en[1] == mk_one(w, [k]) and en[3] == old.conc.get(k, DEL if old.base is None and not old.layers else MISS):
                        # stored for the element that is this very key
                        lk = lits + ((mk_one(e, [k]), True),)
                        k, en = w, en[2]
                    elif wc is not None and k == wc and any(a[0] == 'one' and a[1] == e and v for a, v in lits):
                        k = w
                    if not mentions(k, w):
                        if en == DEL:
                            cur = eff.get(('dk', i, k), ())
                            if DEL not in cur:
                                eff[('dk', i, k)] = cur + (DEL,)
                            continue
                        v = self.freeze_e(z, en)
                        v = T('phi', 'val', w[2] if False else tid(k)) if mentions(v, w) or v[0] in ('r', 'ite') else v
                        cur = eff.get(('dk', i, k), ())
                        if v not in cur:
                            eff[('dk', i, k)] = cur + (v,)
                        continue
                    if k != w:
                        kk = subst(k, w, e)
                        eff[loc] = 'havoc'
                        break
                    if en == DEL:
                        ef = ('del',)
                    else:
                        ef = ('set', subst(self.freeze_e(z, en), w, e))
                    cur = eff.get(loc, ())
                    c = (lk, ef)
                    if c not in cur:
                        eff[loc] = cur + (c,)
            elif isinstance(o, ListO):
                if o.items[:len(old.items)] == old.items:
                    cur = eff.get(loc, ())
                    if cur == 'havoc':
                        continue
                    for it in o.items[len(old.items):]:
                        if it[0] == 'gen':
                            v = ('flat', subst(self.fz_item(z, it), w, e))
                        elif it[0] == 'maybe':
                            v = ('flat', subst(self.fz_item(z, it), w, e))
                        else:
                            v = subst(self.freeze(z, it), w, e)
                        c = (lits, v)
                        if c not in cur:
                            cur = cur + (c,)
                    eff[loc] = cur
                else:
                    eff[loc] = 'havoc'
        return eff

    def fz_item(self, z, it):
        return it

    def freeze_e(self, z, en):
        if en[0] == 'ite':
            return ('ite', en[1], self.freeze_e(z, en[2]), self.freeze_e(z, en[3]))
        return self.freeze(z, en)

    def widen(self, z, eff, loc, old, v, w):
        cur = eff.get(loc)
        if cur == 'top':
            return
        if cur is None:
            cur = frozenset([old if old is None or old[0] == 'k' else ('old', old)])
        if v[0] == 't' and v[1] == 'phi' and v[2] == loc:
            return
        if v[0] == 'k':
            cur = cur | {v}
        elif v[0] == 'r':
            fv = self.freeze(z, v)
            c = self.const_val(z, v)
            if c is not None:
                cur = cur | {c}
            else:
                eff[loc] = 'top'
                return
        elif not mentions(v, w) and v[0] in ('t', 'fn', 'cls', 'bi', 'ext', 'exc', 'tup') and len(cur) < 6:
            cur = cur | {v}
        else:
            eff[loc] = 'top'
            return
        eff[loc] = cur

    def apply(self, st, eff, g, tag, ctx, partial):
        """put the collected effects on the state; partial: some unknown subset of the elements was processed"""
        if g is not None:
            _, e, src, conds, elt = g
            extra = ((('done', e, tag), True),) if partial else ()
        for loc, ef in eff.items():
            if loc[0] == 'l':
                v = self.widened(st, loc, ef, tag)
                if v is not None:
                    fr = dict(st.frames[loc[1]])
                    fr[loc[2]] = v
                    st.frames[loc[1]] = fr
            elif loc[0] == 'a':
                v = self.widened(st, loc, ef, tag)
                o = st.obj(('r', loc[1]))
                if v is not None:
                    st.heap[loc[1]] = o.set(loc[2], v)
            elif loc[0] == 'dk':
                ref = ('r', loc[1])
                o = st.obj(ref)
                key = loc[2]
                vals = ef
                bot = DEL if (o.base is None and not o.layers) else MISS
                old = o.conc.get(key, bot)
                en = old
                for n, v in enumerate(vals):
                    en = ('ite', ('truthy', T('phi', 'dk', loc[1], key, n, tag)), v, en)
                st.setobj(ref, o.put(key, en) if en != DEL else o)
            elif loc[0] == 'h':
                ref = ('r', loc[1])
                o = st.obj(ref)
                if isinstance(o, DictO):
                    if ef == 'havoc':
                        st.setobj(ref, DictO(None, (('havoc', T('phi', 'hv', loc[1], tag)),), {}))
                    else:
                        cases = tuple((conds + extra + l, x) for l, x in ef)
                        # elements for which nothing was stored
                        cases = self.complete(cases, conds, extra)
                        st.setobj(ref, o.push(('each', e, src, cases)))
                else:
                    if ef == 'havoc':
                        p = T('phi', 'hv', loc[1], tag)
                        el = T('elem', 'h', loc[1], tag)
                        st.setobj(ref, type(o)((('gen', el, p, (), el),), o.kind))
                    else:
                        its = []
                        for l, x in ef:
                            if x[0] == 'flat':
                                inner = x[1]
                                its.append(('gen', T('elem', 'f', tag, len(its)), T('flat', e, src, conds + extra + l, inner), (), T('elem', 'f', tag, len(its))))
                            else:
                                its.append(('gen', e, src, conds + extra + l, x))
                        st.setobj(ref, type(o)(o.items + tuple(its), o.kind))

    def complete(self, cases, conds, extra):
        """add the implicit 'untouched' case"""
        if len(cases) == 1 and not cases[0][0]:
            return cases
        rest = []
        # for a single case: the negation of each of its literals
        seen = set()
        for l, x in cases:
            for a, v in l:
                if (a, v) not in seen:
                    seen.add((a, v))
        if len(cases) == 1:
            prev = ()
            for a, v in cases[0][0]:
                rest.append((prev + ((a, not v),), ('none',)))
                prev = prev + ((a, v),)
            return cases + tuple(rest)
        return cases + (((), ('maybe_none', tuple(l for l, x in cases))),)

    def widened(self, st, loc, ef, tag):
        if ef == 'top':
            return T('phi', loc, tag)
        t = T('phi', loc)
        vals = [v for v in ef]
        consts = [v for v in vals if v is not None and v[0] == 'k']
        others = [v for v in vals if v is not None and v[0] != 'k']
        p = T('phi', loc, tag)
        if not others and None not in ef:
            st.facts.dom[p] = (frozenset(consts), frozenset())
            return p
        if not others:
            st.facts.dom[p] = (frozenset(consts), frozenset())
            return p
        return p

    # ------------------------------------------------------------ while
    def s_While(self, s, st, ctx, live, loop):
        head = None
        if live is not None:
            head = _loop_live(s, live, loop or frozenset()) | self.keep
            if ctx.info is not None and ctx.info.is_gen:
                head = head | {'$yield'}
        res = []
        cur = st
        n = 0
        base = st.nid
        while True:
            outs = self.explore(cur, lambda z: self.truth(z, self.ev(s.test, z, ctx)))
            if len(outs) == 1 and outs[0][1] == 'val' and n < 400:
                z, _, v = outs[0]
                if not v:
                    return res + self.loop_else(s, z, ctx, live, loop)
                b = self.exec_block(s.body, z, ctx, head, head)
                nx = [(a, NEXT) for a, c in b if c in (NEXT, CONT)]
                if len(nx) > 1 and ctx.mod[:5] != 'spec_':
                    nx = self.merge(nx, ctx.fid, head, base)
                for a, c in b:
                    if c == BRK:
                        res.append((a, NEXT))
                    elif c not in (NEXT, CONT):
                        res.append((a, c))
                if not nx:
                    return res
                if len(nx) == 1:
                    cur = nx[0][0]
                    n += 1
                    continue
                for a, _ in nx:
                    res.extend(self.while_widen(s, a, ctx, head, live, loop))
                return res
            return res + self.while_widen(s, cur, ctx, head, live, loop)

    def loop_else(self, s, z, ctx, live, loop):
        if s.orelse:
            return self.exec_block(s.orelse, z, ctx, live, loop)
        return [(z, NEXT)]

    def while_widen(self, s, start, ctx, head, live, loop):
        eff = {}
        self.phi_n += 1
        tag = self.phi_n
        dummy = T('iter', tag)
        g = ('gen', dummy, T('iters', tag), (), dummy)
        flags = start.flags
        for rnd in range(6):
            h = start.copy()
            h.flags = flags
            self.apply(h, eff, g, tag, ctx, True)
            body, exits = [], []
            for z, k, v in self.explore(h, lambda z: self.truth(z, self.ev(s.test, z, ctx))):
                if k == 'exc':
                    body.append((z, ('exc', v)))
                elif not v:
                    exits.append(z)
                else:
                    body.extend(self.exec_block(s.body, z, ctx, head, head))
            new = dict(eff)
            nf = flags
            for z, c in body:
                if c in (NEXT, CONT):
                    self.effects(h, z, len(z.facts.log), dummy, g, ctx, head, new, s)
                    for f in z.flags:
                        if f not in nf:
                            nf = nf + (f,)
            for loc, ef in list(new.items()):
                if loc[0] == 'h' and ef != 'havoc':
                    new[loc] = 'havoc'
            if new == eff and nf == flags:
                break
            eff, flags = new, nf
        else:
            raise Undecided('while loop of %s does not stabilise' % ctx.qual)
        res = []
        for z in exits:
            res.extend(self.loop_else(s, z, ctx, live, loop))
        for z, c in body:
            if c == BRK:
                res.append((z, NEXT))
            elif c not in (NEXT, CONT):
                res.append((z, c))
        return res


def _local(a):
    """literals about loop bookkeeping"""
    return a[0] == 'done'


def _loop_live(s, live, loop):
    from .astinfo import live_before, loads, _targets
    cur = frozenset(live) | live_before(s.orelse, live, loop)
    if isinstance(s, ast.While):
        cur = cur | loads(s.test)
    kill = _targets(s.target) if isinstance(s, ast.For) else set()
    for _ in range(4):
        b = live_before(s.body, cur, cur)
        n = cur | (b - kill)
        if n == cur:
            break
        cur = n
    return frozenset(cur)


def dict_delta(old, new):
    """keys written since `old`: list of (key, entry), or None when more than that happened"""
    if old.base != new.base:
        return None
    ol, nl = old.layers, new.layers
    if nl[:len(ol)] != ol:
        return None
    ops = []
    rest = nl[len(ol):]
    prev = dict(old.conc)
    for l in rest:
        if l[0] != 'ov':
            return None
        if prev is not None:
            d = dict(l[1])
            for k, e in prev.items():
                if k not in d:
                    return None
            for k, e in l[1]:
                if prev.get(k) != e:
                    ops.append((k, e))
            prev = None
        else:
            ops.extend(l[1])
    cur = new.conc
    if prev is not None:
        for k, e in prev.items():
            if k not in cur:
                if new.base is None and not new.layers:
                    ops.append((k, DEL))
                else:
                    return None
        for k, e in cur.items():
            if prev.get(k) != e:
                ops.append((k, e))
    else:
        ops.extend(cur.items())
    return ops

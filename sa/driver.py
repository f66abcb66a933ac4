"""Running the obligations of one property and reporting."""
import importlib.util
import json
import os
import sys
import time
import traceback
import warnings
from .crypto import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('SA_EVIDENCE', os.path.join(VERIF, 'evidence'))
SRC = os.environ.get('SA_SRC', '/repo/src')      # another tree only while developing


class AnchorGone(Exception):
    pass


class Found:
    def __init__(self, rule, msg, where, path=()):
        self.rule = rule
        self.msg = msg
        self.where = where
        self.path = list(path)

    def key(self):
        return '%s|%s' % (self.rule, self.msg)


class Entry:
    """declaration of a parameter"""

    def __init__(self, name, e):
        self.name = name
        self.typ, self.required, self.ser, self.deser, self.null = e
        self.islist = isinstance(self.typ, list)
        t = self.typ[0] if self.islist and self.typ else self.typ
        if isinstance(t, tuple) and len(t) == 1:
            t = t[0]
        self.elem = t[1] if isinstance(t, tuple) and len(t) == 2 and t[0] in ('cls', 'bi') else t
        self.kind = '[%s]' % self.elem if self.islist else str(self.elem)
        self.isbool = self.kind == 'bool'


class Check:
    def __init__(self, pid, tier='quick'):
        self.pid = pid
        self.tier = tier
        self.found = []
        self.obl = []          # (name, status, detail)
        self.samples = []
        self.undecided = []
        self.errors = []
        self.explain = ''
        self.assumptions = []
        self.counts = {}
        self.az = None

    # ------------------------------------------------------------ set-up
    def analyzer(self, cls=Crypto, lib=True):
        a = cls(SRC)
        a.build()
        a.max_steps = 40_000_000 if self.tier == 'thorough' else 12_000_000
        self.az = a
        return a

    def cls(self, dotted):
        """class of the analysed program by dotted name"""
        mod, _, name = dotted.rpartition('.')
        fr = State.world_frames.get('mod:' + mod)
        v = fr.get(name) if fr else None
        if v is None or v[0] not in ('cls', 'fn'):
            raise AnchorGone(dotted)
        return v

    def rules_path(self, fname):
        return os.path.join(VERIF, 'rules', fname)

    def lib(self):
        with open(self.rules_path('lib.py')) as f:
            return f.read()

    def cname(self, c):
        return c[1][8:] if c[1].startswith('oidcmsg.') else c[1]

    def method(self, c, name):
        v = self.az.find_attr(State(), c[1], name)
        if v is None:
            raise AnchorGone('%s.%s' % (c[1], name))
        return v

    def message_classes(self):
        """every class of the package derived from Message"""
        a = self.az
        base = self.cls('oidcmsg.message.Message')
        res = []
        for q in sorted(a.classes):
            if q.startswith('oidcmsg.') and base in a.classes[q].mro and a.classes[q].node is not None:
                res.append(('cls', q))
        return res

    def behaviour(self, c, but=('verify',)):
        """which definitions of Message's methods apply to a message class (to examine one class of each kind)"""
        a = self.az
        st = State()
        base = self.cls('oidcmsg.message.Message')
        names = {x.name for x in a.classes[base[1]].node.body if hasattr(x, 'name')} - set(but)
        for k in a.classes[c[1]].mro:
            n = a.classes[k[1]].node if k[1] in a.classes else None
            if n is not None:
                names |= {x.name for x in n.body if hasattr(x, 'name') and x.name.startswith('__') and x.name != '__init__'}
        return tuple(sorted((n, repr(a.find_attr(st, c[1], n))) for n in names))

    def table(self, c, name):
        """class-level table of a message class, evaluated: {name: value}"""
        st = State()
        v = self.az.find_attr(st, c[1], name)
        if v is None:
            raise AnchorGone('%s.%s' % (c[1], name))
        o = st.obj(v) if v[0] == 'r' else None
        if not isinstance(o, DictO) or not o.simple:
            raise AnchorGone('%s.%s is not a table that is known statically' % (c[1], name))
        return {k[2]: self.resolve(x) for k, x in o.conc.items() if k[0] == 'k'}

    def resolve(self, v):
        """abstract constant -> python structure; classes, functions stay abstract"""
        if v[0] == 'k':
            return v[2]
        if v[0] == 'tup':
            return tuple(self.resolve(x) for x in v[1])
        if v[0] == 'r':
            o = State().obj(v)
            if isinstance(o, ListO) and o.simple():
                return [self.resolve(i) for i in o.items]
            if isinstance(o, DictO) and o.simple:
                return {self.resolve(k): self.resolve(x) for k, x in o.conc.items()}
        return v

    def schema(self, c):
        res = {}
        for p, e in self.table(c, 'c_param').items():
            if not isinstance(e, tuple) or len(e) != 5:
                raise AnchorGone('declaration of %s in %s has no five members' % (p, c[1]))
            res[p] = Entry(p, e)
        return res

    def class_where(self, c):
        ci = self.az.classes[c[1]]
        return (ci.mod, ci.node.lineno, ci.node.name)

    def wraps(self, c):
        """request messages whose content may be carried by a request object (RFC 9101, 9126)"""
        mro = self.az.classes[c[1]].mro
        return self.cls('oidcmsg.oauth2.JWTSecuredAuthorizationRequest') in mro or self.cls('oidcmsg.oauth2.PushedAuthorizationRequest') in mro

    def k(self, v):
        """python constant -> abstract value"""
        if isinstance(v, (list, tuple)):
            return ('tup', tuple(self.k(x) for x in v))
        return K(v)

    # ------------------------------------------------------------ rules
    def rules(self, fname, names=None, skip=()):
        """every obligation (function without parameters, public name) of a rules file"""
        path = os.path.join(VERIF, 'rules', fname)
        with open(os.path.join(VERIF, 'rules', 'lib.py')) as f:
            lib = f.read()
        fr = self.load(path, lib)
        libnames = {n.split('(')[0][4:] for n in lib.splitlines() if n.startswith('def ')}
        n = 0
        for name, fn in list(fr.items()):
            if fn[0] != 'fn' or name[0] == '_' or name in libnames or name in skip:
                continue
            info = self.az.funcs[fn[1]]
            if info.module != 'spec_' + fname[:-3] or info.node.args.args or names is not None and name not in names:
                continue
            self.rule(name, fn)
            n += 1
        if not n:
            raise AnchorGone('no rules in ' + fname)
        return fr

    def load(self, path, lib=''):
        try:
            return self.az.load_rules(path, lib)
        except Undecided as e:
            raise AnchorGone('rules do not resolve against the source: %s' % e)

    def rule(self, name, fn, args=(), kwargs=None, vacuous_ok=False):
        a = self.az
        v0 = len(a.violations)
        o0 = len(a.opaque)
        a.steps = 0
        try:
            outs, reached = a.run_rule(name, fn, args, kwargs)
        except Undecided as e:
            self.undecided.append((name, '%s (near %s:%s)' % (e, a.stack[-1].mod if a.stack else '?', getattr(a.node, 'lineno', '?'))))
            self.obl.append((name, 'undecided', len(a.violations) - v0))
            outs, reached = [], None
            a.stack.clear()
            a.cur = None
        vs = a.violations[v0:]
        seen = set()
        for v in vs:
            key = (v.msg, v.where[2] if len(v.where) > 2 else '')
            if key in seen:
                continue
            seen.add(key)
            self.found.append(Found(name, v.msg, v.where, [fmt_lit(l) for l in v.path]))
        if reached is not None:
            if vs:
                self.obl.append((name, 'violated', reached))
            elif len(a.opaque) > o0:
                for n, d in sorted(set(a.opaque[o0:])):
                    self.undecided.append((name, d))
                self.obl.append((name, 'undecided', reached))
            elif not reached and not vacuous_ok:
                self.errors.append('rule %s reaches nothing (vacuous)' % name)
            else:
                self.obl.append((name, 'held', reached))
        return vs

    # ------------------------------------------------------------ direct obligations
    def ok(self, name, n=1):
        self.obl.append((name, 'held', n))

    def bad(self, name, msg, where=('?', 0, ''), path=()):
        self.obl.append((name, 'violated', 1))
        self.found.append(Found(name, msg, where, path))

    def require(self, cond, name, msg, where=('?', 0, '')):
        if cond:
            self.ok(name)
        else:
            self.bad(name, msg, where)

    def need(self, n, least, what):
        self.counts[what] = n
        if n < least:
            raise AnchorGone('only %d %s found, at least %d expected' % (n, what, least))

    # ------------------------------------------------------------ source positions
    def where(self, w):
        if not w:
            return '?'
        mod, line = w[0], w[1]
        p = self.az.modules.get(mod, mod) if self.az else mod
        return '%s:%s %s' % (os.path.relpath(p, '/repo') if str(p).startswith('/repo') else p, line, w[2] if len(w) > 2 else '')


def known_findings(pid):
    res = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                head, _, text = l.partition(' :: ')
                res.append((head.split(' key=', 1)[1], text))
    return res


def main(argv):
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(50000)
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    ck = Check(pid, tier)
    spec = importlib.util.spec_from_file_location('check_' + pid, os.path.join(VERIF, 'checks', pid + '.py'))
    mod = importlib.util.module_from_spec(spec)
    err = None
    try:
        spec.loader.exec_module(mod)
        mod.run(ck)
    except AnchorGone as e:
        err = 'analysis broken: %s' % e
    except Undecided as e:
        err = 'undecided: %s' % e
    except Exception:
        err = 'internal error: ' + traceback.format_exc()
    if ck.errors and not err:
        err = '; '.join(ck.errors)
    held = sum(1 for o in ck.obl if o[1] == 'held')
    if not err and not held and not ck.found and not ck.undecided:
        err = 'no obligation was decided'
    known = known_findings(pid)
    new, old = [], []
    for f in ck.found:
        k = [t for key, t in known if key == f.key()]
        if k:
            old.append(k[0])
        else:
            new.append(f)
    ev = evidence(ck, tier, seed, time.time() - t0, len(new), err)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    rep = os.path.join(EVID, pid + '.violation.txt')
    if os.path.exists(rep):
        os.remove(rep)
    for t in sorted(set(old)):
        print('KNOWN-FINDING: property=%s %s' % (pid, t))
    for n, d in ck.undecided:
        print('UNDECIDED %s: %s' % (n, d))
    if new:
        with open(rep, 'w') as f:
            for v in new:
                f.write('rule      %s\nviolation %s\nat        %s\n' % (v.rule, v.msg, ck.where(v.where)))
                if v.path:
                    f.write('path, as the conditions taken:\n')
                    for l in v.path:
                        f.write('    %s\n' % l)
                f.write('\n')
        shown = set()
        for v in new:
            k = (v.rule, v.msg)
            if k in shown:
                continue
            shown.add(k)
            if len(shown) > 12:
                break
            print('  %s: %s  [%s]' % (v.rule, v.msg, ck.where(v.where)))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    if err:
        print('ERROR property=%s %s' % (pid, err))
        return 2
    print('OK property=%s obligations=%d held=%d functions=%d steps in %.1fs' % (pid, len(ck.obl), held, len(fun_list(ck)), time.time() - t0))
    return 0


def fun_list(ck):
    a = ck.az
    return sorted(f for f in a.funcs_seen if not f.startswith('spec_')) if a else []


def evidence(ck, tier, seed, wall, nviol, err):
    fl = fun_list(ck)
    cov = {
        'explanation': ck.explain,
        'obligations': len(ck.obl),
        'discharged': sum(1 for o in ck.obl if o[1] == 'held'),
        'undecided': [{'rule': n, 'reason': d} for n, d in ck.undecided],
        'end_states_examined': sum(o[2] or 0 for o in ck.obl),
        'functions_analysed': fl,
        'functions_analysed_count': len(fl),
        'calls_followed': ck.az.calls_seen if ck.az else 0,
        'modules_parsed': len(getattr(ck.az, 'names', ())) if ck.az else 0,
        'samples': (ck.samples + [{'obligation': o[0], 'verdict': o[1], 'end_states': o[2]} for o in ck.obl])[:60] or ['none'],
    }
    cov.update({k.replace(' ', '_'): v for k, v in ck.counts.items()})
    if err:
        cov['error'] = err
    return {'property': ck.pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
            'assumptions': ck.assumptions, 'wall_s': round(wall, 3), 'violations': nviol}

"""Models of the file system, file locks and import by name, for the stores.

The directory is a closed world: it holds exactly the files the rule and the code under analysis have put there
(names may be symbolic), each with a content term and a modification time.  Times are strictly increasing constants,
one millisecond apart, so that both exact and truncated comparisons are followed exactly.

State.locks holds ('L', path) for a held lock and ('F', path, content, time) for a file, ('clock', n)."""
import urllib.parse

from .crypto import *

PATHS = ('pathlib.Path', 'pathlib.PurePath', 'pathlib.PosixPath')


NODIR = ('nodir',)
SUBDIR = T('subdir')


class Files(Crypto):
    def __init__(self, root):
        super().__init__(root)
        h = self.hooks
        for n in ('FileLock', 'SoftFileLock', 'UnixFileLock', 'BaseFileLock'):
            h['filelock.' + n] = self.file_lock
        h['open'] = self.open_file
        h['io.open'] = lambda s, st, n, a, k: self.open_file(s, st, a, k)
        h['os.open'] = self.refuse
        for p in PATHS:
            h[p] = lambda s, st, n, a, k: self.mkpath(st, a)
        h['os.path.join'] = lambda s, st, n, a, k: self.mkpath(st, a)
        h['os.fspath'] = lambda s, st, n, a, k: a[0]
        for n in ('isfile', 'exists', 'lexists'):
            h['os.path.' + n] = lambda s, st, n, a, k: self.isfile(st, a[0], n)
        h['os.path.isdir'] = lambda s, st, n, a, k: self.isdir(st, a[0])
        h['os.path.basename'] = lambda s, st, n, a, k: self.basename(st, a[0])
        h['os.path.dirname'] = lambda s, st, n, a, k: self.dirname(st, a[0])
        h['os.path.splitext'] = lambda s, st, n, a, k: self.splitext(st, a[0])
        for n in ('abspath', 'normpath', 'realpath', 'expanduser'):
            h['os.path.' + n] = lambda s, st, n, a, k: a[0]
        h['os.listdir'] = lambda s, st, n, a, k: self.listdir(st, a[0] if a else K('.'))
        h['os.scandir'] = lambda s, st, n, a, k: self.scandir(st, a[0] if a else K('.'))
        h['os.makedirs'] = h['os.mkdir'] = lambda s, st, n, a, k: self.makedirs(st, a, k)
        for n in ('unlink', 'remove'):
            h['os.' + n] = lambda s, st, n, a, k: self.unlink(st, a[0])
        for n in ('os.rename', 'os.replace', 'shutil.move'):
            h[n] = lambda s, st, n, a, k: self.rename(st, a[0], a[1])
        h['shutil.rmtree'] = lambda s, st, n, a, k: self.rmtree(st, a[0])
        h['os.stat'] = lambda s, st, n, a, k: self.stat(st, a[0])
        h['os.path.getmtime'] = lambda s, st, n, a, k: self.mtime(st, self.stat(st, a[0]), 'st_mtime')
        h['os.path.getsize'] = lambda s, st, n, a, k: T('size', self.content(st, a[0]))
        h['os.utime'] = lambda s, st, n, a, k: NONE
        h['time.sleep'] = lambda s, st, n, a, k: NONE
        h['enter'] = self.enter_file
        h['exit'] = self.exit_file
        h['json.dump'] = lambda s, st, n, a, k: self.write(st, a[1], self.json_dumps(st, a[0], True, k.get('default', NONE) != NONE, k))
        h['json.load'] = lambda s, st, n, a, k: self.json_loads(st, self.read(st, a[0]), k)
        h['urllib.parse.quote_plus'] = self.quote
        h['urllib.parse.unquote_plus'] = self.unquote
        h['importlib.import_module'] = self.import_any
        for n in ('st_mtime_ns', 'st_mtime', 'st_size'):
            TERM_DATA_ATTRS[n] = self.mtime_attr
        for n in ('name', 'path', 'parent', 'suffix', 'stem'):
            TERM_DATA_ATTRS[n] = self.path_attr

    # ------------------------------------------------------------ world of files
    def entries(self, st):
        return [e for e in st.locks if e[0] == 'F']

    def tick(self, st):
        n = next((e[1] for e in st.locks if e[0] == 'clock'), 0) + 1
        st.locks = tuple(e for e in st.locks if e[0] != 'clock') + (('clock', n),)
        return n

    def put(self, st, path, content):
        n = self.tick(st)
        st.locks = tuple(e for e in st.locks if not (e[0] == 'F' and e[1] == path)) + (('F', path, content, n),)

    def drop(self, st, path):
        st.locks = tuple(e for e in st.locks if not (e[0] == 'F' and e[1] == path))

    def same_name(self, st, a, b):
        if a == b:
            return True
        if a[0] == 'k' and b[0] == 'k':
            return False
        ka, kb = self.quoted_lock(st, a), self.quoted_lock(st, b)
        if ka is not None and kb is not None:
            return self.equal(st, ka, kb)
        for k, y in ((ka, b), (kb, a)):
            if k is not None and y[0] == 't' and y[1] == 'quote_plus' and len(y) == 3:
                return False
        if a[0] == b[0] == 't' and a[1] == b[1] == 'concat' and a[2][-1] == b[2][-1]:
            cut = lambda x: x[2][0] if len(x[2]) == 2 else T('concat', x[2][:-1])
            return self.same_name(st, cut(a), cut(b))
        if a[0] == b[0] == 't' and a[1] == b[1] and a[1] in ('quote_plus', 'jsondumps') and len(a) == len(b) == 3:
            return self.equal(st, a[2], b[2])
        for x, y in ((a, b), (b, a)):
            if y[0] == 'k' and x[0] == 't' and x[1] == 'quote_plus' and len(x) == 3:
                # quote_plus is injective: only one text is written this way
                u = urllib.parse.unquote_plus(y[2])
                e = st.facts.decide(('truthy', T('m', 'endswith', x, K('.lock'))))
                if e is not None and e != y[2].endswith('.lock'):
                    return False
                return urllib.parse.quote_plus(u) == y[2] and self.equal(st, x[2], K(u))
            if x[0] == 't' and x[1] == 'concat' and x[2][-1][0] == 'k':
                tail = x[2][-1][2]
                if y[0] == 'k' and y[2].endswith(tail):
                    head = x[2][0] if len(x[2]) == 2 else T('concat', x[2][:-1])
                    if head[0] == 't' and head[1] == 'slice':
                        if tail == '%2Elock' and head[2][0] == 't' and head[2][1] == 'quote_plus':
                            u = urllib.parse.unquote_plus(y[2])
                            return urllib.parse.quote_plus(u).replace('.', '%2E') == y[2].replace('.', '%2E') and u.endswith('.lock') and self.equal(st, head[2][2], K(u))
                    else:
                        return self.same_name(st, head, K(y[2][:len(y[2]) - len(tail)]))
                if y[0] == 'k' and not y[2].endswith(tail):
                    return False
                if y[0] == 't' and y[1] == 'quote_plus' and len(y) == 3:
                    # quotations are made of safe characters, + and %XX of others
                    if urllib.parse.quote_plus(urllib.parse.unquote_plus(tail)) != tail and '%' not in tail[-2:] and tail[0] == '%':
                        return False
                    if tail.endswith('.lock') and st.facts.decide(('truthy', T('m', 'endswith', y, K('.lock')))) is False:
                        return False
                if y[0] == 't' and not self.truth(st, self.strmeth(st, 'endswith', y, [K(tail)], {})):
                    return False
        return self.decide(st, mk_eq(a, b))

    def quoted_lock(self, st, n):
        """the key of a name that is its quotation with the end .lock rewritten"""
        if n[0] == 't' and n[1] == 'concat' and len(n[2]) == 2 and n[2][1] == K('%2Elock') and n[2][0][0] == 't' and n[2][0][1] == 'slice':
            sl = n[2][0]
            q = sl[2]
            if q[0] == 't' and q[1] == 'quote_plus' and len(q) == 3 and sl[3] in (NONE, K(0)) and sl[4] == K(-5) \
                    and st.facts.decide(('truthy', T('m', 'endswith', q, K('.lock')))) is True:
                return q[2]
        return None

    def dkey_eq(self, st, a, b):
        if a[0] in ('k', 't') and b[0] in ('k', 't') and 't' in (a[0], b[0]) and not opaque_in(a) and not opaque_in(b):
            return self.same_name(st, a, b)
        return super().dkey_eq(st, a, b)

    def find(self, st, path):
        for e in self.entries(st):
            if e[1] == path:
                return e
        for e in self.entries(st):
            if e[1][2] == path[2] and self.same_name(st, e[1][3], path[3]):
                return e
        return None

    def norm(self, st, v):
        """path term: ('t', 'path', directory, name)"""
        v = self.freeze(st, v)
        while v[0] == 't' and v[1] in ('str', 'strm', 'fspath'):
            v = v[2]
        if v[0] == 't' and v[1] == 'direntry':
            return v[2]
        if v[0] == 't' and v[1] == 'path':
            d = v[2]
            return v
        if v[0] == 't' and v[1] == 'concat':
            ps = tuple(x[2] if x[0] == 't' and x[1] in ('str', 'strm', 'fspath') and self.is_path(x[2]) else x for x in v[2])
            if ps[0][0] == 't' and ps[0][1] == 'direntry':
                ps = (ps[0][2],) + ps[1:]
            if ps[0][0] == 't' and ps[0][1] == 'path':
                return T('path', ps[0][2], self.concat(st, [ps[0][3]] + list(ps[1:])))
            for i in range(len(ps) - 1, -1, -1):
                if ps[i][0] == 'k' and '/' in ps[i][2]:
                    d, _, n = ps[i][2].rpartition('/')
                    return T('path', self.concat(st, list(ps[:i]) + [K(d)]), self.concat(st, [K(n)] + list(ps[i + 1:])))
        if v[0] == 'k' and v[1] == 'str' and '/' in v[2]:
            d, _, n = v[2].rpartition('/')
            return T('path', K(d), K(n))
        return T('path', K(''), v)

    def mkpath(self, st, a):
        if len(a) == 1:
            return self.freeze(st, a[0])
        d = self.freeze(st, a[0])
        for x in a[1:]:
            x = self.freeze(st, x)
            if x[0] == 't' and x[1] == 'concat' and x[2][0] == K('/') or x[0] == 'k' and x[1] == 'str' and x[2].startswith('/'):
                d = x
                continue
            if d[0] == 'k' and d[1] == 'str':
                d = K(d[2].rstrip('/') or d[2])
            d = T('path', d, x)
        return d

    def is_path(self, v):
        return v[0] == 't' and v[1] in ('path', 'direntry')

    def dir_of(self, st):
        return next((f[1] for f in st.flags if isinstance(f, tuple) and f[0] == 'fsdir'), None)

    def alarm(self, st, msg):
        self.sp_fail(st, [K(msg)], {})

    def refuse(self, s, st, n, a, k):
        raise Undecided('file operation %s' % n)

    # ------------------------------------------------------------ events
    def event(self, st, path, kind):
        """kind: look, read, write, remove"""
        d = self.dir_of(st)
        if d is None:
            return
        self.fs_events.add((self.where(), kind))
        if path[2] != d or not self.plain(st, path[3]):
            self.alarm(st, 'a file outside the directory of the store is touched (%s)' % kind)
        only = [f[1] for f in st.flags if isinstance(f, tuple) and f[0] == 'only']
        if only and kind != 'lock':
            if not any(path[3] == o or path[3] == self.concat(st, [o, K('.lock')]) and kind == 'look' for o in only):
                self.alarm(st, 'another file than that of the key is touched (%s)' % kind)
        if kind in ('read', 'write', 'remove'):
            lk = T('path', path[2], self.concat(st, [path[3], K('.lock')]))
            if ('L', lk) not in st.locks:
                self.alarm(st, 'a file is accessed without its lock (%s)' % kind)
            if self.lockname(path[3]) and 'lockfiles' in st.flags:
                self.alarm(st, 'a lock file is treated as an entry (%s)' % kind)
            if 'faults' in st.flags and self.choose(2):
                self.raise_(st, 'OSError')

    def lockname(self, n):
        return n[0] == 'k' and n[2].endswith('.lock') or n[0] == 't' and n[1] == 'concat' and n[2][-1][0] == 'k' and n[2][-1][2].endswith('.lock')

    def plain(self, st, n):
        """no directory separator in a file name"""
        if n[0] == 'k':
            return '/' not in n[2]
        if n[0] == 't' and n[1] == 'concat':
            return all(self.plain(st, x) for x in n[2])
        if n[0] == 't' and n[1] == 'quote_plus':
            return len(n) == 3
        if n[0] == 't' and n[1] == 'slice':
            return self.plain(st, n[2])
        if n[0] == 't' and n[1] == 'm' and n[2] in ('lower', 'upper', 'strip', 'removesuffix', 'removeprefix'):
            return self.plain(st, n[3])
        if ('plain', n) in st.flags:
            return True
        if n[0] == 't' and n[1] in ('sym', 'm', 'call') or n[0] == 't' and n[1] == 'quote_plus':
            o = opaque_in(n)
            if o is not None:
                st.flag(('opaque', o))
            return False
        return False

    def interfere(self, st, path):
        """another process may write the file while its lock is free"""
        w = [f for f in st.flags if isinstance(f, tuple) and f[0] == 'interfere']
        for f in w:
            if f[1] == path and ('interfered', path) not in st.flags:
                lk = T('path', path[2], self.concat(st, [path[3], K('.lock')]))
                if ('L', lk) not in st.locks and self.choose(2):
                    st.flag(('interfered', path))
                    if f[2] == NONE:
                        self.drop(st, path)
                    else:
                        self.put(st, path, f[2])

    # ------------------------------------------------------------ queries
    def isfile(self, st, v, n):
        v = self.freeze(st, v)
        if v == self.dir_of(st):
            return FALSE if n.endswith('isfile') else K(NODIR not in st.locks)
        p = self.norm(st, v)
        self.event(st, p, 'look')
        self.interfere(st, p)
        e = self.find(st, p)
        self.interfere(st, p)
        return K(e is not None and (e[2] != SUBDIR or not n.endswith('isfile')))

    def isdir(self, st, v):
        v = self.freeze(st, v)
        return K(NODIR not in st.locks if v == self.dir_of(st) else self.subdir(st, v) if self.is_path(v) else True)

    def subdir(self, st, v):
        e = self.find(st, self.norm(st, v))
        return e is not None and e[2] == SUBDIR

    def sp_put_directory(self, st, args, kw):
        self.put(st, T('path', self.dir_of(st), args[0]), SUBDIR)
        return NONE

    def basename(self, st, v):
        return self.norm(st, v)[3]

    def dirname(self, st, v):
        return self.norm(st, v)[2]

    def splitext(self, st, v):
        v = self.freeze(st, v)
        if v[0] == 'k':
            return ('tup', tuple(K(x) for x in os.path.splitext(v[2])))
        p = self.norm(st, v)
        n = p[3]
        if n[0] == 'k':
            a, b = os.path.splitext(n[2])
            return ('tup', (T('path', p[2], K(a)), K(b)))
        if n[0] == 't' and n[1] == 'concat' and n[2][-1][0] == 'k' and n[2][-1][2].startswith('.'):
            return ('tup', (T('path', p[2], self.concat(st, list(n[2][:-1]))), n[2][-1]))
        for x in ('.lock',):
            if st.facts.decide(('truthy', T('m', 'endswith', n, K(x)))) is True:
                return ('tup', (T('splitroot', v), K(x)))
        return ('tup', (T('splitroot', v), T('splitext', n)))

    def listdir(self, st, v):
        d = self.freeze(st, v)
        fd = self.dir_of(st)
        if fd is not None and d != fd:
            self.alarm(st, 'another directory than that of the store is listed')
        self.no_directory(st)
        if 'strange' in st.flags:
            e = T('elem', 'f', T('listing', d))
            return st.new(ListO((('gen', e, T('listing', d), (), e),)))
        return st.new(ListO(tuple(e[1][3] for e in self.entries(st) if e[1][2] == d)))

    def scandir(self, st, v):
        d = self.freeze(st, v)
        self.no_directory(st)
        return st.new(ListO(tuple(T('direntry', e[1]) for e in self.entries(st) if e[1][2] == d)))

    def makedirs(self, st, a, k):
        if self.dir_of(st) is None or self.freeze(st, a[0]) != self.dir_of(st):
            return NONE
        if NODIR in st.locks:
            st.locks = tuple(e for e in st.locks if e != NODIR)
        elif (k.get('exist_ok') or (a[2] if len(a) > 2 else FALSE)) in (FALSE, NONE):
            self.raise_(st, 'FileExistsError')
        return NONE

    def no_directory(self, st, p=None):
        if NODIR in st.locks:
            self.raise_(st, 'FileNotFoundError')

    def sp_remove_directory(self, st, args, kw):
        st.locks = tuple(e for e in st.locks if e[0] not in ('F', 'L')) + (NODIR,)
        return NONE

    def sp_directory_exists(self, st, args, kw):
        return K(NODIR not in st.locks)

    def stat(self, st, v):
        p = self.norm(st, v)
        self.event(st, p, 'look')
        self.interfere(st, p)
        e = self.find(st, p)
        if e is None:
            self.raise_(st, 'FileNotFoundError')
        r = T('stat', p, K(e[3]))
        self.interfere(st, p)
        return r

    def mtime_attr(self, s, st, v, name):
        if v[1] == 'stat':
            return self.mtime(st, v, name)
        return T('attr', v, name)

    def mtime(self, st, v, name):
        n = v[3][2]
        if name == 'st_mtime_ns':
            return K(1700000000 * 10**9 + n * 10**6)
        if name == 'st_mtime':
            return K((1700000000 * 1000 + n) / 1000)
        return T('attr', v, name)

    # ------------------------------------------------------------ locks
    def file_lock(self, s, st, n, a, k):
        v = a[0] if a else k.get('lock_file')
        return T('flock', self.norm(st, v))

    def take(self, st, p):
        d = self.dir_of(st)
        self.no_directory(st)
        if d is not None:
            self.event(st, p, 'lock')
        if ('L', p) in st.locks:
            self.alarm(st, 'a lock that is already held is waited for')
        for f in st.flags:
            if isinstance(f, tuple) and f[0] == 'interfere' and p == T('path', f[1][2], self.concat(st, [f[1][3], K('.lock')])):
                self.interfere(st, f[1])
        st.locks = st.locks + (('L', p),)
        if self.find(st, p) is None:
            self.put(st, p, EMPTYS)

    def free(self, st, p):
        st.locks = tuple(e for e in st.locks if e != ('L', p))

    def enter_file(self, s, st, m):
        if m[0] == 't' and m[1] == 'flock':
            self.take(st, m[2])
            return m
        if m[0] == 't' and m[1] in ('flockp', 'fh'):
            return m
        return None

    def exit_file(self, s, st, m, comp):
        if m[0] == 't' and m[1] in ('flock', 'flockp'):
            self.free(st, m[2])
            return False
        if m[0] == 't' and m[1] == 'fh':
            self.close(st, m)
            return False
        return None

    # ------------------------------------------------------------ contents
    def open_file(self, s, st, a, kw):
        p = self.norm(st, a[0])
        mode = a[1] if len(a) > 1 else kw.get('mode', K('r'))
        if mode[0] != 'k':
            raise Undecided('mode of open')
        m = mode[2]
        w = any(c in m for c in 'wax+')
        self.event(st, p, 'write' if w else 'read')
        self.no_directory(st)
        e = self.find(st, p)
        if e is not None and e[2] == SUBDIR:
            self.raise_(st, 'FileExistsError' if 'x' in m else 'IsADirectoryError')
        if 'x' in m and e is not None:
            self.raise_(st, 'FileExistsError')
        if not w or 'r' in m:
            if e is None:
                self.raise_(st, 'FileNotFoundError')
        elif 'w' in m or e is None:
            self.put(st, p, EMPTYS)
        return T('fh', p, mode)

    def content(self, st, v):
        e = self.find(st, self.norm(st, v))
        if e is None:
            self.raise_(st, 'FileNotFoundError')
        if e[2] == SUBDIR:
            self.raise_(st, 'IsADirectoryError')
        return e[2]

    def read(self, st, fh):
        self.event(st, fh[2], 'read')
        return self.content(st, fh[2])

    def write(self, st, fh, x):
        if fh[0] != 't' or fh[1] != 'fh':
            return NONE
        x = self.freeze(st, x)
        if self.bad_str(st, x) or x[0] == 'k' and x[1] not in ('str', 'bytes') or x[0] == 't' and x[1] in ('dct', 'obj', 'lst', 'map'):
            self.raise_(st, 'TypeError')
        self.event(st, fh[2], 'write')
        e = self.find(st, fh[2])
        old = e[2] if e else EMPTYS
        if x == EMPTYS and old != EMPTYS:
            x = old
        elif old != EMPTYS:
            x = K(old[2] + x[2]) if old[0] == x[0] == 'k' and old[1] == x[1] else T('concat', (old, x))
        self.put(st, fh[2], x)
        return NONE

    def close(self, st, fh):
        if any(c in fh[3][2] for c in 'wax+'):
            e = self.find(st, fh[2])
            if e is not None:
                self.put(st, fh[2], e[2])

    def unlink(self, st, v):
        p = self.norm(st, v)
        self.event(st, p, 'remove')
        e = self.find(st, p)
        if e is None:
            self.raise_(st, 'FileNotFoundError')
        if e[2] == SUBDIR:
            self.raise_(st, 'IsADirectoryError')
        self.drop(st, e[1])
        return NONE

    def rename(self, st, a, b):
        p, q = self.norm(st, a), self.norm(st, b)
        self.event(st, q, 'write')
        e = self.find(st, p)
        if e is None:
            self.raise_(st, 'FileNotFoundError')
        self.drop(st, e[1])
        self.put(st, q, e[2])
        return NONE

    def rmtree(self, st, d):
        for e in self.entries(st):
            if e[1][2] == self.freeze(st, d):
                self.event(st, e[1], 'remove')
                self.drop(st, e[1])
        return NONE

    def lines(self, st, fh):
        x = self.read(st, fh)
        return tuple(K(l) for l in x[2].splitlines(True)) if x[0] == 'k' and x[1] == 'str' else (x,)

    def iterate0(self, st, v):
        return self.lines(st, v) if v[0] == 't' and v[1] == 'fh' else super().iterate0(st, v)

    def b_print(self, st, args, kw):
        f = kw.get('file', NONE)
        if f[0] == 't' and f[1] == 'fh':
            sep, end = (x if x != NONE else y for x, y in ((kw.get('sep', NONE), K(' ')), (kw.get('end', NONE), K('\n'))))
            for i, x in enumerate(args):
                self.write(st, f, x if self.known_type(st, x) == 'str' else self.b_str(st, [x], {}))
                self.write(st, f, sep if i + 1 < len(args) else end)
            if not args:
                self.write(st, f, end)
        return NONE

    # ------------------------------------------------------------ methods of path, handle and lock terms
    def meth_crypto(self, s, st, v, m, a, kw):
        t = v[1]
        if t in ('flock', 'flockp'):
            if m in ('acquire', '__enter__'):
                self.take(st, v[2])
                return T('flockp', v[2])
            if m in ('release', '__exit__', 'close'):
                self.free(st, v[2])
                return NONE
        if t == 'fh':
            if m == 'read':
                x = self.read(st, v)
                n = self.freeze(st, a[0]) if a else NONE
                if n in (NONE, K(-1)):
                    return x
                return K(x[2][:n[2]]) if n[0] == x[0] == 'k' and n[1] == 'int' and n[2] >= 0 else T('firstpart', x, n)
            if m == 'readlines' and not a:
                return st.new(ListO(self.lines(st, v)))
            if m == 'writelines':
                for x in self.iterate(st, a[0]):
                    self.write(st, v, x)
                return NONE
            if m == 'readline':
                x = self.read(st, v)
                return K(x[2].split('\n')[0] + '\n' * ('\n' in x[2])) if x[0] == 'k' and x[1] == 'str' else T('firstline', x)
            if m == 'write':
                return self.write(st, v, a[0])
            if m == 'close':
                self.close(st, v)
                return NONE
            if m in ('flush', 'fileno', 'seek', 'truncate'):
                return NONE
        if t in ('path', 'direntry'):
            p = self.norm(st, v)
            if m == 'endswith' and len(a) == 1:
                return self.bm_or_strmeth(st, m, p[3], a)
            if m in ('is_file', 'exists'):
                return self.isfile(st, p, 'isfile' if m == 'is_file' else m)
            if m == 'mkdir':
                return self.makedirs(st, [v] + a, kw)
            if m == 'is_dir':
                return K(self.subdir(st, p))
            if m == 'stat':
                return self.stat(st, p)
            if m == 'open':
                return self.open_file(s, st, [p] + list(a), kw)
            if m in ('read_text', 'read_bytes'):
                self.event(st, p, 'read')
                return self.content(st, p)
            if m in ('write_text', 'write_bytes'):
                self.event(st, p, 'write')
                self.put(st, p, self.freeze(st, a[0]))
                return NONE
            if m == 'unlink':
                if kw.get('missing_ok') == TRUE and self.find(st, p) is None:
                    return NONE
                return self.unlink(st, p)
            if m in ('rename', 'replace') and len(a) == 1:
                return self.rename(st, p, a[0])
            if m == 'joinpath':
                return self.mkpath(st, [v] + list(a))
            if m == 'iterdir':
                return self.scandir(st, v)
        r = self.meth_any(s, st, v, m, a, kw)
        if r is not None:
            return r
        if m == 'strip' and t == 'jsondumps' and not a:
            return v
        return super().meth_crypto(s, st, v, m, a, kw)

    def bm_or_strmeth(self, st, m, n, a):
        return self.call(st, self.getattr(st, n, m), list(a), {})

    def path_attr(self, s, st, v, name):
        if v[1] in ('path', 'direntry'):
            p = self.norm(st, v)
            if name == 'name':
                return p[3]
            if name == 'path':
                return p
            if name == 'parent':
                return p[2]
            if name == 'suffix':
                return self.splitext(st, p[3])[1][1] if p[3][0] == 'k' else self.splitext(st, p)[1][1]
        if name in ('name', 'path') and v[1] not in ('path', 'direntry'):
            return T('attr', v, name)
        return ('bm', ('bi', 'term.' + name), v)

    # ------------------------------------------------------------ key conversion
    def quote(self, s, st, n, a, k):
        v = self.freeze(st, a[0])
        safe = self.freeze(st, a[1]) if len(a) > 1 else self.freeze(st, k['safe']) if 'safe' in k else K('')
        if v[0] == 'k' and safe[0] == 'k':
            import urllib.parse
            if v[1] != 'str':
                self.raise_(st, 'TypeError')
            return K(urllib.parse.quote_plus(v[2], safe[2]))
        if safe == K(''):
            return self.inverse(st, 'quote_plus', 'unquote_plus', a) if v[0] == 'k' else T('quote_plus', v)
        return T('quote_plus', v, safe)

    def unquote(self, s, st, n, a, k):
        v = self.freeze(st, a[0])
        if v[0] == 't' and v[1] == 'concat' and len(v[2]) == 2 and v[2][1][0] == 'k' and v[2][0][0] == 't' and v[2][0][1] == 'slice':
            # the end of a quoted text was replaced by another quotation of the same characters
            import urllib.parse
            sl = v[2][0]
            q = sl[2]
            tail = urllib.parse.unquote_plus(v[2][1][2])
            if q[0] == 't' and q[1] == 'quote_plus' and urllib.parse.quote_plus(tail) == tail and sl[3:] in ((NONE, K(-len(tail)), NONE), (NONE, K(-len(tail))), (K(0), K(-len(tail)), NONE)) \
                    and st.facts.decide(('truthy', T('m', 'endswith', q, K(tail)))) is True:
                return q[2]
        if v[0] == 't' and v[1] == 'path':
            v = v[3]
        return self.inverse(st, 'unquote_plus', 'quote_plus', [v])

    def import_any(self, s, st, n, a, k):
        if a[0][0] == 'k' and self.module_exists(a[0][2]):
            return self.import_module(st, a[0][2])
        return T('call', ('ext', n), tuple(self.freeze(st, x) for x in a), ())

    # ------------------------------------------------------------ rule language
    fs_events = set()

    def sp_watch_directory(self, st, args, kw):
        st.flag(('fsdir', self.freeze(st, args[0])))
        return NONE

    def sp_only_file(self, st, args, kw):
        st.flag(('only', self.freeze(st, args[0])))
        return NONE

    def sp_plain_name(self, st, args, kw):
        """premise: the text has no directory separator"""
        st.flag(('plain', self.freeze(st, args[0])))
        return NONE

    def sp_is_plain(self, st, args, kw):
        return K(self.plain(st, self.freeze(st, args[0])))

    def sp_put_file(self, st, args, kw):
        d = self.dir_of(st)
        p = T('path', d, self.freeze(st, args[0]))
        self.put(st, p, self.freeze(st, args[1]))
        return NONE

    def sp_restore_file(self, st, args, kw):
        """an old file is moved back: its time is older than all others"""
        p = T('path', self.dir_of(st), self.freeze(st, args[0]))
        self.drop(st, p)
        n = min([e[3] for e in self.entries(st)] + [0]) - 1
        st.locks = st.locks + (('F', p, self.freeze(st, args[1]), n),)
        return NONE

    def sp_drop_file(self, st, args, kw):
        self.drop(st, T('path', self.dir_of(st), self.freeze(st, args[0])))
        return NONE

    def sp_file_content(self, st, args, kw):
        """content of a file or None"""
        e = self.find(st, T('path', self.dir_of(st), self.freeze(st, args[0])))
        return NONE if e is None else e[2]

    def sp_has_file(self, st, args, kw):
        return K(self.find(st, T('path', self.dir_of(st), self.freeze(st, args[0]))) is not None)

    def sp_interfere(self, st, args, kw):
        st.flag(('interfere', T('path', self.dir_of(st), self.freeze(st, args[0])), self.freeze(st, args[1])))
        return NONE

    def sp_interfered(self, st, args, kw):
        return K(any(isinstance(f, tuple) and f[0] == 'interfered' for f in st.flags))

    def sp_calm(self, st, args, kw):
        """no further interference"""
        st.flags = tuple(f for f in st.flags if not (isinstance(f, tuple) and f[0] == 'interfere') and f != 'faults')
        return NONE

    def sp_locks_held(self, st, args, kw):
        return K(any(e[0] == 'L' for e in st.locks))

    def sp_has(self, st, args, kw):
        """the first value is, or is computed from, the second"""
        x, y = self.freeze(st, args[0]), self.freeze(st, args[1])
        if x == y:
            return TRUE
        found = []
        collect(x, lambda z: found.append(1) if z == y else None)
        if not found:
            o = opaque_in(x)
            if o is not None:
                st.flag(('opaque', o))
        return K(bool(found))

"""symbolic files (text and binary), h5py and os stand-ins"""
import os as _os
import types
from sym import *
import sym
from terms import *
import terms as tm


class Repeat:
    """file chunk: for j<n, one of the guarded chunk lists (by iteration)"""

    def __init__(self, n, i, alts):
        self.n, self.i, self.alts = n, i, alts


FILES = {}


def text(chunks):
    chunks = list(chunks)
    if any(isinstance(c, Repeat) for c in chunks):
        return TextBlock(chunks)
    return Rope(chunks).simplify()


class TextBlock:
    """text with a repeated part"""

    def __init__(self, chunks):
        self.chunks = list(chunks)

    def __add__(self, o):
        return TextBlock(self.chunks + (o.chunks if isinstance(o, TextBlock) else [o]))

    def __radd__(self, o):
        return TextBlock([o] + self.chunks)

    def _lines(self, keep):
        f = SymFile.__new__(SymFile)
        f.chunks = self.chunks
        out = VList()
        for s in f.segments():
            if not keep:
                if s.sym is None:
                    s = VList([_chomp(l) for l in list.__iter__(s)])
                else:
                    s = VList.symbolic(s.sym[0], lambda t, g=s.sym[1]: _chomp(g(t)))
            out.extend(s)
        return out

    def splitlines(self, keepends=False):
        return self._lines(keepends)

    def rstrip(self, chars=None):
        last = self.chunks[-1]
        if isinstance(last, Repeat):
            if not ENG.branch(tm.lt(num(0), last.n)):
                return text(self.chunks[:-1]).rstrip(chars) if len(self.chunks) > 1 else ""
            if len(last.alts) != 1 or last.alts[0][0] is not TRUE:
                raise Unsupported("stripping a conditional block")
            n1 = sub(last.n, num(1))
            r = Rope([vsubst(c, {last.i: n1}) for c in last.alts[0][1]]).simplify()
            return TextBlock(self.chunks[:-1] + [Repeat(n1, last.i, last.alts), r.rstrip(chars)])
        return TextBlock(self.chunks[:-1] + [last.rstrip(chars)])

    def strip(self, chars=None):
        return self.rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        if sep != "\n" or maxsplit != -1:
            raise Unsupported("splitting a whole file")
        l = self._lines(False)
        last = self.chunks[-1]
        end = last.parts[-1] if isinstance(last, Rope) else last
        if isinstance(last, Repeat) or (isinstance(end, str) and end.endswith("\n")):
            l.append("")
        return l


def _chomp(l):
    return l.rstrip("\n") if isinstance(l, (str, Rope)) else l


class SymFile:
    def __init__(self, name, mode):
        self.name, self.mode = name, mode
        self.uid = next(sym.Store._c)
        if "w" in mode:
            self.chunks = []
            FILES[name] = self
        elif "a" in mode:
            old = FILES.get(name)
            self.chunks = list(old.chunks) if old else []
            FILES[name] = self
        else:
            if name not in FILES:
                raise IOError("no such symbolic file %r" % (name,))
            self.chunks = list(FILES[name].chunks)
            self.lpos = 0

    def __hash__(self):
        return self.uid

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def flush(self):
        pass

    def _restore(self, s):
        if s is None:
            return (list(self.chunks),)
        self.chunks = list(s[0])

    def write(self, s):
        ENG.touch(("file", self), lambda: (list(self.chunks),), self._restore)
        if isinstance(s, TextBlock):
            self.chunks.extend(s.chunks)
            return
        if isinstance(s, str) and s == "":
            return
        self.chunks.append(s)

    def writelines(self, it):
        for x in it:
            self.write(x)

    # ---- reading lines
    def lines(self):
        out = VList()
        for s in self.segments():
            out.extend(s)
        return out

    def segments(self):
        """list of line segments: either a concrete VList of ropes or symbolic repeat"""
        segs = []
        cur = []
        for c in self.chunks:
            if isinstance(c, Repeat):
                if cur:
                    raise Unsupported("unterminated line before a repeated block")
                segs.append(_repeat_lines(c))
                continue
            for piece in split_lines(c):
                cur.append(piece)
                if isinstance(piece, str) and piece.endswith("\n") or (isinstance(piece, Rope) and isinstance(piece.parts[-1], str) and piece.parts[-1].endswith("\n")):
                    segs.append(VList([Rope(cur).simplify()]))
                    cur = []
        if cur:
            segs.append(VList([Rope(cur).simplify()]))
        return segs

    def __vc_iter__(self):
        l = self.lines()
        if getattr(self, "lpos", 0):
            l = l[self.lpos:]
        return l

    def readlines(self):
        return self.lines()

    def readline(self):
        l = self.lines()
        n = l.vlen()
        if l.sym is None and self.lpos >= n:
            return ""
        r = l[self.lpos]
        self.lpos += 1
        return r

    def read(self, n=None):
        if "b" in self.mode:
            raise Unsupported("binary read")
        if n is None:
            return text(self.chunks)
        raise Unsupported("text read(n)")


def split_lines(c):
    """split a chunk after each newline"""
    parts = c.parts if isinstance(c, Rope) else [c]
    cur, out = [], []
    for p in parts:
        if isinstance(p, str):
            ls = p.splitlines(True)
            for s in ls:
                cur.append(s)
                if s.endswith("\n"):
                    out.append(Rope(cur).simplify())
                    cur = []
        else:
            cur.append(p)
    if cur:
        out.append(Rope(cur).simplify())
    return out


def _repeat_lines(r):
    counts = []
    per = []
    for c, chunks in r.alts:
        if any(isinstance(x, Repeat) for x in chunks):
            return _nested_repeat(r)
        text = Rope(list(chunks))
        ls = split_lines(text) if text.parts else []
        for l in ls:
            s = l if isinstance(l, str) else (l.parts[-1] if isinstance(l, Rope) else "")
            if not (isinstance(s, str) and s.endswith("\n")):
                raise Unsupported("repeated block does not end in a newline")
        per.append((c, ls))
        counts.append(len(ls))
    i = r.i
    if set(counts) == {1}:
        if len(per) == 1:
            v = per[0][1][0]
            return VList.symbolic(r.n, lambda t: vsubst(v, {i: t}))
        v = per[-1][1][0]
        return VList.symbolic(r.n, lambda t: alt_line([(subst(c, {i: t}), vsubst(ls[0], {i: t})) for c, ls in per]))
    if set(counts) <= {0, 1}:
        cond = bor(*[c for c, ls in per if ls])
        cnt = sum_over([r.n], [i], ind(cond))
        alts = [(c, ls[0]) for c, ls in per if ls]

        def at(k):
            s = tm.lam_from("sel", [r.n, k], [i], cond, "N", True)
            return alt_line([(subst(c, {i: s}), vsubst(l, {i: s})) for c, l in alts])
        return VList.symbolic(cnt, at)
    raise Unsupported("several lines per iteration")


def _nested_repeat(r):
    """for i<n: for j<m: at most one line  -> lines enumerated by pairs (i,j) in row-major order"""
    if len(r.alts) != 1:
        raise Unsupported("nested conditional repeat")
    c, chunks = r.alts[0]
    if len(chunks) != 1 or not isinstance(chunks[0], Repeat):
        raise Unsupported("nested repeat")
    q = chunks[0]
    if r.i in q.n.fv:
        raise Unsupported("ragged nested repeat")
    per = []
    for c2, ch in q.alts:
        text = Rope(list(ch))
        ls = split_lines(text) if text.parts else []
        if len(ls) > 1:
            raise Unsupported("several lines per iteration")
        per.append((c2, ls))
    i, j = r.i, q.i
    cond = bor(*[c2 for c2, ls in per if ls])
    cnt = sum_over([r.n, q.n], [i, j], ind(cond))
    alts = [(c2, ls[0]) for c2, ls in per if ls]

    def at(k):
        a = tm.lam_from("sel2r", [r.n, q.n, k], [i, j], cond, "N", True)
        b = tm.lam_from("sel2c", [r.n, q.n, k], [i, j], cond, "N", True)
        return alt_line([(subst(c2, {i: a, j: b}), vsubst(l, {i: a, j: b})) for c2, l in alts])
    return VList.symbolic(cnt, at)


def alt_line(alts):
    alts = [(c, l) for c, l in alts if c is not FALSE]
    if len(alts) == 1:
        return alts[0][1]
    # choose by forking
    for c, l in alts[:-1]:
        if ENG.branch(c):
            return l
    return alts[-1][1]


def open_(name, mode="r"):
    if isinstance(name, str) and not name.startswith("sym:"):
        raise Unsupported("opening a real file from the verifier")
    if "b" in mode:
        import symbytes
        if "w" in mode:
            BINFILES[name] = symbytes.SymBin()
            return BINFILES[name]
        if name not in BINFILES:
            raise FileNotFoundError(name)
        return symbytes.SymBin(symbytes.SBytes(BINFILES[name].segs))
    return SymFile(name, mode)


BINFILES = {}


class H5Group:
    def __init__(self, store):
        self.store = store
        self.attrs = {}

    def create_dataset(self, k, data=None, **kw):
        if isinstance(data, str) and not isinstance(data, SV):
            self.store[k] = H5Data(data)
        else:
            self.store[k] = H5Data(asarr(data).copy() if not isinstance(data, (str, Rope)) else data)
        return self.store[k]

    def __getitem__(self, k):
        return self.store[k]

    def __setitem__(self, k, v):
        self.create_dataset(k, data=v)

    def __contains__(self, k):
        return k in self.store

    def keys(self):
        return VList(sorted(self.store.keys()))

    def create_group(self, k):
        g = H5Group({})
        self.store[k] = g
        return g

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class H5Data:
    def __init__(self, v):
        self.v = v
        self.attrs = {}

    @property
    def shape(self):
        return self.v.shape

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self.v.copy() if isinstance(self.v, SArr) and self.v.ndim else wrap0(self.v)
        r = self.v[k]
        return r.copy() if isinstance(r, SArr) else r

    def __vc_array__(self):
        return self.v

    def __vc_iter__(self):
        return self.v

    def vlen(self):
        return self.v.vlen()

    def asstr(self):
        return self


H5FILES = {}


def H5File(name, mode="r", *a, **k):
    if mode.startswith("w"):
        H5FILES[name] = {}
        return H5Group(H5FILES[name])
    if mode.startswith("a"):
        H5FILES.setdefault(name, {})
    return H5Group(H5FILES[name])


H5 = types.SimpleNamespace(File=H5File, Group=H5Group, Dataset=H5Data, special_dtype=lambda **k: DType("S"), string_dtype=lambda *a, **k: DType("S"), __version__="3.8.0")


class _Path:
    def splitext(self, p):
        if isinstance(p, str):
            return _os.path.splitext(p)
        raise Unsupported("splitext of a symbolic path")

    def join(self, *a):
        out = []
        for k, x in enumerate(a):
            if k:
                out.append("/")
            out.append(x)
        return Rope(out).simplify()

    def dirname(self, p):
        if isinstance(p, str):
            return _os.path.dirname(p)
        raise Unsupported("dirname")

    def basename(self, p):
        if isinstance(p, str):
            return _os.path.basename(p)
        raise Unsupported("basename")

    def exists(self, p):
        return True

    isfile = isdir = exists


class _OS:
    path = _Path()
    sep = "/"
    environ = {}

    def makedirs(self, *a, **k):
        pass

    mkdir = makedirs

    def __getattr__(self, k):
        raise Unsupported("os.%s" % k)


OS = _OS()


from symbytes import Struct as _Struct
STRUCT = _Struct()

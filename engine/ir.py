"""Compile /repo to LLVM IR and parse the textual form.

Nothing of the analysed program is executed: clang -> llvm-link -> opt
(mem2reg) -> text -> Python objects.
"""
import os, re, subprocess, sys, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = "/usr/bin/clang-18"
LLVMBIN = "/usr/lib/llvm-18/bin"


class AnalysisError(Exception):
    """The analysis itself cannot give an answer (exit 2)."""


DEFS = ["-DDSFMT_MEXP=19937", "-DPARALLEL", "-DPARALLEL_MATCH",
        "-DPARALLEL_PRED", "-DPARALLEL_UPDATE"]


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise AnalysisError("command failed: %s\n%s" %
                            (" ".join(cmd), p.stderr[-3000:]))
    return p.stdout


def compile_units(openmp=False, passes="mem2reg", srcs=None):
    """[(source, textual IR)] for every /repo/xcsf/*.c"""
    tmp = tempfile.mkdtemp(prefix="verif_ir_")
    try:
        if srcs is None:
            srcs = sorted(glob.glob(os.path.join(REPO, "xcsf", "*.c")))
            if len(srcs) < 40:
                raise AnalysisError("only %d C sources found" % len(srcs))

        def one(s):
            o = os.path.join(tmp, os.path.basename(s)[:-2])
            cmd = [CLANG, "-std=gnu11", "-O0", "-Xclang",
                   "-disable-O0-optnone", "-g", "-fno-discard-value-names",
                   "-w", "-c", "-emit-llvm"] + DEFS
            cmd += ["-I" + os.path.join(HERE, "stub"),
                    "-I/opt/vp/cmake/include",
                    "-I" + os.path.join(REPO, "xcsf")]
            if openmp:
                cmd.append("-fopenmp")
            _run(cmd + [s, "-o", o + ".bc"])
            _run([LLVMBIN + "/opt", "-S", "-passes=" + passes, o + ".bc",
                  "-o", o + ".ll"])
            with open(o + ".ll") as f:
                text = f.read()
            text = unroll_tables(text, o)
            return os.path.relpath(s, REPO), text
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, srcs))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


UNROLL = ("function(loop-simplify,lcssa,loop(loop-rotate,indvars,"
          "loop-unroll-full),instcombine<no-verify-fixpoint>,sroa,"
          "instcombine<no-verify-fixpoint>,sccp,simplifycfg)")


def unroll_tables(text, o):
    """loops that walk a constant table are unrolled, so that the entries
    become ordinary constants; other functions stay as they are"""
    const = set(re.findall(r'^@([\w.$]+) = [^\n]*?\bconstant '
                           r'\[\d+ x (?:ptr|%|\{|<)', text, re.M))
    hit = False

    def fn(m):
        nonlocal hit
        t = m.group(0)
        use = any(g in const and not g.startswith('.str')
                  for g in re.findall(r'@([\w.$]+)', t)) and \
            re.search(r'!llvm\.loop', t)
        if use:
            hit = True
            return t
        return re.sub(r'^(define [^\n]*?)( #\d+)?((?: ![\w.]+ !\d+)* \{)',
                      r'\1\2 optnone noinline\3', t, count=1)
    new = re.sub(r'^define .*?^\}', fn, text, flags=re.M | re.S)
    if not hit:
        return text
    with open(o + ".t.ll", "w") as f:
        f.write(new)
    _run([LLVMBIN + "/opt", "-S", "-unroll-threshold=100000",
          "-passes=" + UNROLL, o + ".t.ll", "-o", o + ".u.ll"])
    with open(o + ".u.ll") as f:
        return f.read()


# ---------------------------------------------------------------- parsing

TOK = re.compile(r'''
   \s+
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<local>%(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-\w.]*))
 | (?P<attr>\#\d+)
 | (?P<num>-?(?:0x[0-9A-Fa-f]+|\d+(?:\.\d+)?(?:e[+-]?\d+)?))
 | (?P<word>[A-Za-z_$.][-\w$.]*)
 | (?P<p>\.\.\.|[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise AnalysisError("cannot tokenize IR: " + s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        if k:
            t = m.group(k)
            if k in ("local", "glob") and t[1:2] == '"':
                t = t[0] + t[2:-1]
            out.append((k, t))
    return out


RENAME = {}


class P:
    """cursor over tokens"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if self.peek() != s:
            raise AnalysisError("IR parse: expected %r got %r in %s" % (
                s, self.peek(), " ".join(x[1] for x in self.t)[:300]))
        self.i += 1

    def done(self):
        return self.i >= len(self.t)


def norm_struct(n):
    n = n[1:]
    m = re.match(r'(struct|union|class)\.(.*?)(\.\d+)?$', n)
    return m.group(2) if m else n


def ptype(p):
    t = p.next()
    if t == '[' or t == '<':
        if t == '<' and p.peek() == '{':
            r = ptype(p)
            p.expect('>')
            return r
        n = p.next()
        p.expect('x')
        e = ptype(p)
        p.next()
        r = ('arr', int(n), e)
    elif t == '{':
        fs = []
        while not p.accept('}'):
            fs.append(ptype(p))
            p.accept(',')
        r = ('struct', tuple(fs))
    elif t[0] == '%':
        r = ('named', norm_struct(t))
    else:
        r = t
    # function type
    while p.peek() == '(' and p.kind() == 'p':
        d = 0
        while True:
            x = p.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    break
        r = ('fn', r)
    return r


ATTRW = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'returned',
         'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone',
         'immarg', 'swiftself', 'nofree', 'nest', 'allocalign', 'allocptr'}


def skip_param_attrs(p):
    while True:
        t = p.peek()
        if t in ATTRW:
            p.next()
        elif t in ('align', 'dereferenceable', 'dereferenceable_or_null',
                   'byval', 'sret', 'byref', 'preallocated', 'inalloca',
                   'elementtype'):
            p.next()
            if p.peek() == '(':
                d = 0
                while True:
                    x = p.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            else:
                p.next()
        else:
            return


def pval(p, ty=None):
    """operand -> term-ish tuple"""
    k = p.kind()
    t = p.next()
    if k == 'local':
        return ('v', t[1:])
    if k == 'glob':
        return ('g', RENAME.get(t[1:], t[1:]))
    if k == 'num':
        if ty in ('double', 'float'):
            if t.startswith('0x'):
                import struct
                return ('fc', struct.unpack('>d', bytes.fromhex(
                    t[2:].rjust(16, '0')))[0])
            return ('fc', float(t))
        return ('c', int(t))
    if t == 'true':
        return ('c', 1)
    if t == 'false':
        return ('c', 0)
    if t == 'null':
        return ('null',)
    if t in ('undef', 'poison', 'zeroinitializer', 'none'):
        return (t,)
    if k == 'str':
        return ('str', t)
    if t == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        p.expect('(')
        st = ptype(p)
        p.expect(',')
        ptype(p)
        base = pval(p)
        idx = []
        while p.accept(','):
            it = ptype(p)
            idx.append(pval(p, it))
        p.expect(')')
        return ('cgep', st, base, tuple(idx))
    if t in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext',
             'addrspacecast'):
        p.expect('(')
        ty = ptype(p)
        v = pval(p, ty)
        p.expect('to')
        ptype(p)
        p.expect(')')
        return v
    if t in ('{', '[', '<'):
        close = {'{': '}', '[': ']', '<': '>'}[t]
        if t == '<' and p.peek() == '{':
            r = pval(p)
            p.expect('>')
            return r
        items = []
        while not p.accept(close):
            ty2 = ptype(p)
            items.append(pval(p, ty2))
            p.accept(',')
        return ('agg', tuple(items))
    if t in ('add', 'sub', 'mul', 'xor', 'icmp', 'select'):
        d = 0
        while True:
            x = p.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    return ('undef',)
    if k == 'meta':
        return ('meta', t)
    raise AnalysisError("IR operand? %s in %s" % (
        t, " ".join(x[1] for x in p.t)[:300]))


BINOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr',
          'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi',
         'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast',
         'addrspacecast'}
FLAGS = {'nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp',
         'contract', 'afn', 'reassoc', 'inbounds', 'volatile', 'disjoint',
         'nneg', 'nusw'}


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'bb', 'fn', 'idx', 'x')

    def __repr__(self):
        return "<%s %s %s>" % (self.op, self.res, self.a)

    @property
    def line(self):
        return self.fn.mod.dbgline(self.dbg)

    @property
    def loc(self):
        return self.fn.mod.dbgloc(self.dbg, self.fn)


class Block:
    __slots__ = ('name', 'ins', 'succ', 'pred', 'fn', 'i')

    def __init__(self, fn, name):
        self.fn = fn
        self.name = name
        self.ins = []
        self.succ = []
        self.pred = []


class Func:
    def __init__(self, mod, name):
        self.mod = mod
        self.name = name
        self.args = []
        self.argtypes = []
        self.ret = None
        self.blocks = []
        self.bb = {}
        self.defs = {}
        self.dbg = None

    @property
    def entry(self):
        return self.blocks[0]

    @property
    def src(self):
        """source-level name"""
        m = self.mod.md.get(self.dbg)
        if m and 'name' in m:
            return m['name']
        return self.name

    @property
    def file(self):
        return self.mod.subprog_file(self.dbg)

    @property
    def sline(self):
        m = self.mod.md.get(self.dbg) or {}
        return int(m.get('line', 0))

    def instrs(self):
        for b in self.blocks:
            for i in b.ins:
                yield i

    def calls(self):
        for i in self.instrs():
            if i.op == 'call':
                yield i

    def where(self):
        return "%s:%d %s" % (self.file, self.sline, self.src)

    def __repr__(self):
        return "<Func %s>" % self.name


INTRIN_SKIP = ('llvm.dbg.', 'llvm.lifetime.', 'llvm.assume',
               'llvm.experimental.noalias')


class Module:
    def __init__(self, text, files=()):
        self.files = list(files)
        self.structs = {}
        self.funcs = {}
        self.decls = set()
        self.globals = {}
        self.md = {}
        self.rawmd = {}
        self._parse(text)
        self._fields()

    # ---- text level
    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i
                while lines[j] != '}':
                    j += 1
                self._func(lines[i:j])
                i = j + 1
                continue
            if l.startswith('declare '):
                m = re.search(r'@("?)([^"(]+)\1\(', l)
                self.decls.add(m.group(2))
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (?:distinct )?(.*)$', l)
                if m:
                    self.rawmd[m.group(1)] = m.group(2)
            elif l.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type (.*)$', l)
                if m and m.group(2) != 'opaque':
                    nm = m.group(1)
                    if nm[1] == '"':
                        nm = '%' + nm[2:-1]
                    p = P(tokenize(m.group(2)))
                    ty = ptype(p)
                    key = norm_struct(nm)
                    if key not in self.structs:
                        self.structs[key] = ty
            elif l.startswith('@'):
                self._global(l)
            i += 1
        for k in self.rawmd:
            self.md[k] = self._md(self.rawmd[k])

    def _md(self, s):
        m = re.match(r'!(\w+)\((.*)\)$', s)
        if not m:
            m2 = re.match(r'!\{(.*)\}$', s)
            if m2:
                return {'_': 'list', 'items': [x.strip()[1:] for x in
                                              m2.group(1).split(',')
                                              if x.strip()]}
            return {'_': '?'}
        d = {'_': m.group(1)}
        for mm in re.finditer(
                r'(\w+): ("(?:[^"\\]|\\.)*"|![\d]+|[^,]+)', m.group(2)):
            v = mm.group(2)
            if v.startswith('"'):
                v = v[1:-1]
            elif v.startswith('!'):
                v = v[1:]
            d[mm.group(1)] = v
        return d

    def _global(self, l):
        m = re.match(r'@("?)([^"=]+?)\1 = (.*)$', l)
        if not m:
            return
        name = RENAME.get(m.group(2), m.group(2))
        rest = m.group(3)
        mm = re.match(r'(?:(?:private|internal|external|linkonce_odr|weak|'
                      r'weak_odr|common|dso_local|unnamed_addr|appending|'
                      r'local_unnamed_addr|hidden|comdat|thread_local|'
                      r'available_externally|linkonce|constant|global)\s+)*',
                      rest)
        quals = rest[:mm.end()]
        body = rest[mm.end():]
        body = re.sub(r', (align|section|comdat|!dbg).*$', '', body)
        g = {'quals': quals, 'const': 'constant' in quals.split(),
             'tls': 'thread_local' in quals, 'init': None, 'ty': None}
        try:
            p = P(tokenize(body))
            g['ty'] = ptype(p)
            if not p.done():
                g['init'] = pval(p, g['ty'])
        except AnalysisError:
            pass
        self.globals[name] = g

    def _func(self, L):
        hdr = L[0]
        m = re.search(r'@("?)([^"(]+)\1\(', hdr)
        f = Func(self, RENAME.get(m.group(2), m.group(2)))
        mm = re.search(r'!dbg !(\d+)', hdr)
        f.dbg = mm.group(1) if mm else None
        # params
        p = P(tokenize(re.sub(r'\s*(#\d+)?\s*(comdat.*)?(!dbg !\d+)?\s*\{$', '',
                              hdr[m.end() - 1:])))
        p.expect('(')
        while not p.accept(')'):
            if p.accept('...'):
                continue
            ty = ptype(p)
            skip_param_attrs(p)
            nm = None
            if p.kind() == 'local':
                nm = p.next()[1:]
            f.args.append(nm)
            f.argtypes.append(ty)
            p.accept(',')
        cur = None
        i = 1
        if not re.match(r'^("?)[-\w$.]+\1:', L[1]):
            cur = Block(f, '0')
            f.blocks.append(cur)
            f.bb['0'] = cur
        while i < len(L):
            l = L[i]
            i += 1
            if not l or l.startswith(';'):
                continue
            m = re.match(r'^(?:"([^"]*)"|([-\w$.]+)):', l)
            if m:
                cur = Block(f, m.group(1) or m.group(2))
                f.blocks.append(cur)
                f.bb[cur.name] = cur
                continue
            if 'switch ' in l and l.rstrip().endswith('['):
                while not L[i].strip().startswith(']'):
                    l += ' ' + L[i].strip()
                    i += 1
                l += ' ' + L[i].strip()
                i += 1
            if l.lstrip().startswith('#dbg'):
                continue
            if 'invoke ' in l and ' unwind ' not in l:
                l += ' ' + L[i].strip()
                i += 1
            if 'landingpad' in l:
                while i < len(L) and re.match(r'\s+(catch|filter|cleanup)', L[i]):
                    l += ' ' + L[i].strip()
                    i += 1
            if '@llvm.dbg.' in l:
                continue
            ins = self._ins(l, f, cur)
            if ins is not None:
                ins.bb = cur
                ins.idx = len(cur.ins)
                cur.ins.append(ins)
                if ins.res is not None:
                    f.defs[ins.res] = ins
        # edges
        for k, b in enumerate(f.blocks):
            b.i = k
            t = b.ins[-1]
            if t.op == 'br':
                b.succ = [f.bb[x] for x in t.x]
            elif t.op == 'switch':
                b.succ = [f.bb[x] for x in dict.fromkeys(
                    [t.x[0]] + [c[1] for c in t.x[1]])]
            elif t.op == 'invoke':
                b.succ = [f.bb[x] for x in t.x['targets']]
            for s in b.succ:
                s.pred.append(b)
        # drop blocks unreachable from the entry
        seen = {f.blocks[0]}
        st = [f.blocks[0]]
        while st:
            for s in st.pop().succ:
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        for b in f.blocks:
            b.pred = [q for q in dict.fromkeys(b.pred) if q in seen]
            b.succ = list(dict.fromkeys(b.succ))
        f.blocks = [b for b in f.blocks if b in seen]
        for k, b in enumerate(f.blocks):
            b.i = k
        f.ret = re.match(r'define .*?(\S+) @', hdr).group(1)
        f.internal = hdr.startswith('define internal ')
        self.funcs[f.name] = f

    def _ins(self, l, f, b):
        ins = Ins()
        ins.fn = f
        ins.res = None
        ins.ty = None
        ins.a = ()
        ins.x = None
        ins.dbg = None
        m = re.search(r', !dbg !(\d+)', l)
        if m:
            ins.dbg = m.group(1)
            l = l[:m.start()] + l[m.end():]
        l = re.sub(r', !(?!dbg)[\w.]+ ![\d{}]+', '', l)
        p = P(tokenize(l))
        if p.kind() == 'local' and p.peek(1) == '=':
            ins.res = p.next()[1:]
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        ins.op = op
        while p.peek() in FLAGS and op not in ('call', 'invoke'):
            p.next()
        if op == 'alloca':
            ins.ty = ptype(p)
            if p.accept(','):
                if p.peek() != 'align':
                    t = ptype(p)
                    ins.a = (pval(p, t),)
        elif op == 'load':
            p.accept('atomic')
            ins.ty = ptype(p)
            p.expect(',')
            ptype(p)
            ins.a = (pval(p),)
        elif op == 'store':
            p.accept('atomic')
            t = ptype(p)
            v = pval(p, t)
            p.expect(',')
            ptype(p)
            ins.ty = t
            ins.a = (v, pval(p))
        elif op == 'getelementptr':
            ins.ty = ptype(p)
            p.expect(',')
            ptype(p)
            base = pval(p)
            idx = []
            while p.accept(','):
                t = ptype(p)
                idx.append(pval(p, t))
            ins.a = (base,) + tuple(idx)
        elif op in ('call', 'invoke'):
            while True:
                t = p.peek()
                if t in FLAGS or t in ATTRW or t in ('fastcc', 'ccc'):
                    p.next()
                elif t in ('align', 'dereferenceable', 'dereferenceable_or_null'):
                    skip_param_attrs(p)
                else:
                    break
            # return type, maybe function type
            st = p.i
            ins.ty = ptype(p)
            if isinstance(ins.ty, tuple) and ins.ty[0] == 'fn':
                ins.ty = ins.ty[1]
            if p.kind() is None or p.kind() not in ('local', 'glob'):
                if p.peek() == 'asm':
                    ins.op = 'asm'
                    return ins
            callee = pval(p)
            p.expect('(')
            args = []
            while not p.accept(')'):
                t = ptype(p)
                skip_param_attrs(p)
                if t == 'metadata':
                    d = 0
                    while not (p.peek() in (',', ')') and d == 0):
                        x = p.next()
                        if x in '([{':
                            d += 1
                        elif x in ')]}':
                            d -= 1
                    args.append(('meta',))
                else:
                    args.append(pval(p, t))
                p.accept(',')
            if callee[0] == 'g' and callee[1].startswith(INTRIN_SKIP):
                return None
            ins.a = tuple(args)
            ins.x = {'callee': callee, 'targets': []}
            if op == 'invoke':
                while p.peek() != 'to' and not p.done():
                    p.next()
                p.expect('to')
                p.expect('label')
                t1 = p.next()[1:]
                p.expect('unwind')
                p.expect('label')
                t2 = p.next()[1:]
                ins.x['targets'] = [t1, t2]
        elif op == 'br':
            if p.accept('label'):
                ins.x = [p.next()[1:]]
            else:
                ptype(p)
                ins.a = (pval(p),)
                p.expect(',')
                p.expect('label')
                t1 = p.next()[1:]
                p.expect(',')
                p.expect('label')
                ins.x = [t1, p.next()[1:]]
        elif op == 'switch':
            t = ptype(p)
            ins.a = (pval(p, t),)
            p.expect(',')
            p.expect('label')
            d = p.next()[1:]
            p.expect('[')
            cs = []
            while not p.accept(']'):
                t = ptype(p)
                c = pval(p, t)
                p.expect(',')
                p.expect('label')
                cs.append((c[1], p.next()[1:]))
            ins.x = (d, cs)
        elif op == 'ret':
            t = ptype(p)
            if t != 'void':
                ins.ty = t
                ins.a = (pval(p, t),)
        elif op == 'phi':
            ins.ty = ptype(p)
            inc = []
            while True:
                p.expect('[')
                v = pval(p, ins.ty)
                p.expect(',')
                inc.append((v, p.next()[1:]))
                p.expect(']')
                if not p.accept(','):
                    break
            ins.x = inc
            ins.a = tuple(v for v, _ in inc)
        elif op == 'select':
            t = ptype(p)
            c = pval(p, t)
            p.expect(',')
            t = ptype(p)
            a1 = pval(p, t)
            p.expect(',')
            t = ptype(p)
            ins.ty = t
            ins.a = (c, a1, pval(p, t))
        elif op in ('icmp', 'fcmp'):
            while p.peek() in FLAGS:
                p.next()
            ins.x = p.next()
            t = ptype(p)
            ins.ty = t
            v = pval(p, t)
            p.expect(',')
            ins.a = (v, pval(p, t))
        elif op in BINOPS:
            t = ptype(p)
            ins.ty = t
            v = pval(p, t)
            p.expect(',')
            ins.a = (v, pval(p, t))
        elif op in CASTS:
            t = ptype(p)
            v = pval(p, t)
            p.expect('to')
            ins.ty = ptype(p)
            ins.x = t
            ins.a = (v,)
        elif op == 'fneg':
            t = ptype(p)
            ins.ty = t
            ins.a = (pval(p, t),)
        elif op == 'extractvalue':
            t = ptype(p)
            ins.a = (pval(p, t),)
            p.expect(',')
            ins.x = int(p.next())
        elif op == 'insertvalue':
            t = ptype(p)
            v = pval(p, t)
            p.expect(',')
            t2 = ptype(p)
            ins.a = (v, pval(p, t2))
        elif op in ('unreachable', 'landingpad', 'resume', 'fence', 'va_arg',
                    'cmpxchg', 'atomicrmw', 'freeze'):
            if op == 'atomicrmw':
                ins.x = p.next()
                ptype(p)
                ptr = pval(p)
                p.expect(',')
                t = ptype(p)
                ins.a = (ptr, pval(p, t))
            elif op == 'freeze':
                t = ptype(p)
                ins.a = (pval(p, t),)
        else:
            raise AnalysisError("unknown IR op %s: %s" % (op, l))
        return ins

    # ---- debug info
    def _fields(self):
        self.fieldnames = {}
        self.fielddi = {}
        for k, d in self.md.items():
            if d.get('_') == 'DICompositeType' and \
               d.get('tag') in ('DW_TAG_structure_type',) and \
               'elements' in d:
                name = d.get('name')
                if not name:
                    name = self._typedef_of(k)
                if not name or name not in self.structs:
                    continue
                els = self.md.get(d['elements'], {}).get('items', [])
                names = []
                dis = []
                for e in els:
                    m = self.md.get(e, {})
                    if m.get('tag') == 'DW_TAG_member':
                        names.append(m.get('name', '?'))
                        dis.append(m)
                if len(names) == len(self.structs[name][1]):
                    self.fieldnames[name] = names
                    self.fielddi[name] = dict(zip(names, dis))

    def _typedef_of(self, k):
        if not hasattr(self, '_tds'):
            self._tds = {}
            for d in self.md.values():
                if d.get('tag') == 'DW_TAG_typedef' and 'baseType' in d:
                    self._tds.setdefault(d['baseType'], d.get('name'))
        return self._tds.get(k)

    def subprog_file(self, dbg):
        m = self.md.get(dbg) or {}
        f = self.md.get(m.get('file', ''), {})
        fn = f.get('filename', '?')
        fn = os.path.normpath(os.path.join(f.get('directory', ''), fn))
        if fn.startswith(REPO + '/'):
            fn = fn[len(REPO) + 1:]
        return fn

    def dbgline(self, dbg):
        m = self.md.get(dbg) or {}
        return int(m.get('line', 0) or 0)

    def dbgloc(self, dbg, fn):
        return "%s:%d (%s)" % (fn.file, self.dbgline(dbg), fn.src)

    def field_type(self, st, fld):
        """DI base type chain description: ('ptr', inner) / name"""
        di = self.fielddi.get(st, {}).get(fld)
        return self.di_type(di.get('baseType')) if di else None

    def di_type(self, k, depth=0):
        if k is None or k == 'null':
            return 'void'
        d = self.md.get(k, {})
        tag = d.get('tag')
        if d.get('_') == 'DIBasicType':
            return d.get('name')
        if tag == 'DW_TAG_pointer_type':
            if depth > 4:
                return ('ptr', '...')
            return ('ptr', self.di_type(d.get('baseType'), depth + 1))
        if tag in ('DW_TAG_const_type', 'DW_TAG_volatile_type'):
            return self.di_type(d.get('baseType'), depth)
        if tag == 'DW_TAG_typedef':
            nm = d.get('name')
            base = self.di_type(d.get('baseType'), depth)
            return base if base else nm
        if tag == 'DW_TAG_structure_type':
            return ('struct', d.get('name') or self._typedef_of(k))
        if tag == 'DW_TAG_array_type':
            els = self.md.get(d.get('elements'), {}).get('items', [])
            cnt = []
            for e in els:
                cnt.append(self.md.get(e, {}).get('count'))
            return ('array', tuple(cnt), self.di_type(d.get('baseType'), depth))
        if d.get('_') == 'DISubroutineType':
            return 'fn'
        return tag or '?'

    def sizeof(self, ty):
        if isinstance(ty, str):
            if ty == 'ptr':
                return 8
            if ty == 'double':
                return 8
            if ty == 'float':
                return 4
            if ty[0] == 'i':
                return max(1, int(ty[1:]) // 8)
            return 8
        if ty[0] == 'arr':
            return ty[1] * self.sizeof(ty[2])
        if ty[0] == 'named':
            ty = self.structs.get(ty[1])
            if ty is None:
                return 0
        if ty[0] == 'struct':
            off = 0
            al = 1
            for f in ty[1]:
                a = self.alignof(f)
                al = max(al, a)
                off = (off + a - 1) // a * a
                off += self.sizeof(f)
            return (off + al - 1) // al * al
        return 8

    def alignof(self, ty):
        if isinstance(ty, str):
            return self.sizeof(ty)
        if ty[0] == 'arr':
            return self.alignof(ty[2])
        if ty[0] == 'named':
            ty = self.structs.get(ty[1])
            if ty is None:
                return 1
        return max([self.alignof(f) for f in ty[1]] or [1])

    def cstr(self, name):
        """content of a constant string global or None"""
        g = self.globals.get(name)
        if g and g['init'] and g['init'][0] == 'str':
            s = g['init'][1]
            s = s[s.index('"') + 1:-1]
            b = re.sub(r'\\([0-9A-Fa-f]{2})',
                       lambda m: chr(int(m.group(1), 16)), s)
            return b.rstrip('\0') if b.endswith('\0') else b
        return None


class Program:
    """All translation units merged; internal symbols are kept apart."""

    def __init__(self, units):
        self.files = [u[0] for u in units]
        self.mods = []
        self.funcs = {}
        self.globals = {}
        self.decls = set()
        self.structs = {}
        self.fieldnames = {}
        self.fielddi = {}
        internal = {}
        for src, text in units:
            for m in re.finditer(
                    r'^define internal [^\n]*?@("?)([^"(\s]+)\1\('
                    r'[^\n]*!dbg !(\d+)', text, re.M):
                d = re.search(r'^!%s = distinct !DISubprogram\([^\n]*?'
                              r'file: !(\d+)' % m.group(3), text, re.M)
                f = re.search(r'^!%s = !DIFile\(filename: "([^"]*)"'
                              % d.group(1), text, re.M).group(1)
                if f.endswith('.h'):
                    continue
                internal.setdefault(m.group(2), []).append(src)
        allnames = {}
        for src, text in units:
            for m in re.finditer(r'^define [^\n]*?@("?)([^"(\s]+)\1\(', text,
                                 re.M):
                allnames.setdefault(m.group(2), set()).add(src)
        for src, text in units:
            RENAME.clear()
            base = os.path.basename(src)
            for n, where in internal.items():
                if src in where and len(allnames[n]) > 1:
                    RENAME[n] = n + "@" + base
            for m in re.finditer(
                    r'^@("?)([^"=\s]+)\1 = (private|internal) ', text, re.M):
                RENAME[m.group(2)] = m.group(2) + "@" + base
            mod = Module(text)
            mod.prog = self
            mod.src = src
            self.mods.append(mod)
            for n, f in mod.funcs.items():
                self.funcs.setdefault(n, f)
            for n, g in mod.globals.items():
                if n not in self.globals or self.globals[n]['init'] is None:
                    self.globals[n] = g
                g['mod'] = mod
            self.decls |= mod.decls
            for n, t in mod.structs.items():
                self.structs.setdefault(n, t)
            for n, t in mod.fieldnames.items():
                self.fieldnames.setdefault(n, t)
                self.fielddi.setdefault(n, (mod, mod.fielddi[n]))
        RENAME.clear()
        self.decls -= set(self.funcs)

    def field_type(self, st, fld):
        e = self.fielddi.get(st)
        return e[0].field_type(st, fld) if e else None

    def paramtype(self, f, k):
        """source type of a parameter"""
        md = f.mod.md
        t = md.get(md.get(f.dbg, {}).get('type'), {})
        it = md.get(t.get('types'), {}).get('items', [])
        return f.mod.di_type(it[k + 1]) if k + 1 < len(it) else None

    def sizeof(self, ty):
        return Module.sizeof(self, ty)

    def alignof(self, ty):
        return Module.alignof(self, ty)

    def cstr(self, name):
        return Module.cstr(self, name)


_cache = {}


def load_with(extra):
    """the program plus further C files; -> (Program, {file: error})"""
    units = compile_units()
    bad = {}
    for s in extra:
        try:
            units += compile_units(srcs=[s])
        except AnalysisError as e:
            bad[s] = str(e)
    return Program(units), bad


def load(openmp=False):
    if openmp not in _cache:
        _cache[openmp] = Program(compile_units(openmp))
    return _cache[openmp]


if __name__ == '__main__':
    import time
    t = time.time()
    m = load()
    print(len(m.funcs), len(m.structs), len(m.globals), time.time() - t)
    for s, n in sorted(m.fieldnames.items()):
        print(s, n)
    print([s for s in m.structs if s not in m.fieldnames])
    print([f for f in m.funcs if '@' in f])
    t = time.time()
    m = load(True)
    print(len(m.funcs), len(m.structs), len(m.globals), time.time() - t)

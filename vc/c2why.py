#!/usr/bin/env python3-vt
"""c2why: mechanical translation of C functions of /repo to WhyML.

Every run preprocesses the current source with gcc -E, parses it with
pycparser, and prints the *whole* body of each function under contract as
WhyML, statement by statement.  Contracts, loop invariants and ghost code come
from /verif/specs/*.spec (sidecar).  What the translation assumes or drops is
listed in DESIGN.md ("What the extraction assumes")."""
import os, re, subprocess, sys
from pycparser import c_parser, c_ast

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))

class Unsupported(Exception):
    """The function is outside the translated subset."""

# ----------------------------------------------------------------- types
def I(bits, signed=True): return ('int', bits, signed)
INT, LONG, CHAR, UINT, ULONG, UCHAR = I(32), I(64), I(8), I(32, False), I(64, False), I(8, False)
SHORT, USHORT = I(16), I(16, False)
VOID = ('void',)
def PTR(t): return ('ptr', t)
def is_int(t): return t[0] == 'int'
def is_ptr(t): return t[0] in ('ptr', 'arr', 'func')
def rng(t):
    b = t[1]
    return (-(1 << (b-1)), (1 << (b-1)) - 1) if t[2] else (0, (1 << b) - 1)

KEYWORDS = set("""abstract absurd alias any as assert assume at axiom begin break by check clone
coinductive constant continue diverges do done downto else end ensures epsilon exception exists
export false float for forall fun function ghost goal if import in inductive invariant label lemma
let match meta module mutable namespace not old partial predicate private pure raise raises range
reads rec ref requires result return returns scope so then theory to true try type use val variant
while with writes int bool map set m8 m16 m32 m64 v8 v16 v32 v64 vs""".split())
def why_id(n):
    if n[0].isupper(): n = 'g_' + n
    n = n.replace('$', '_')
    if n[0] == '_': n = 'u' + n
    if n in KEYWORDS: n += '_'
    return n

class Unit:
    """One preprocessed and parsed C file."""
    cache = {}
    def __init__(self, path, defines=()):
        self.path = path
        cmd = ['gcc', '-E', '-P', '-nostdinc', '-undef', '-D__GNUC__=4', '-D__x86_64__=1', '-D__linux__=1',
               '-D__SIZEOF_LONG_LONG__=8', '-D__attribute__(x)=', '-D__extension__=', '-D__inline__=',
               '-Dasm(...)=__mes_asm__()', '-D__asm__(...)=__mes_asm__()',
               '-DHAVE_CONFIG_H=1', '-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'include/linux/x86_64'),
               '-I', os.path.join(HERE, 'stub')]
        cmd += ['-D' + d for d in defines] + [os.path.join(REPO, path)]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise Unsupported('preprocessing %s: %s' % (path, r.stderr[-400:]))
        src = r.stdout
        src = re.sub(r'^#.*$', '', src, flags=re.M)
        src = re.sub(r'\b__restrict\b|\brestrict\b|\b_Noreturn\b|\binline\b', '', src)
        try:
            self.ast = c_parser.CParser().parse(src, path)
        except Exception as e:
            raise Unsupported('parsing %s: %s' % (path, e))
        self.typedefs, self.structs, self.enums = {}, {}, {}
        self.funcs, self.protos, self.globals = {}, {}, {}
        self.anon = 0
        for d in self.ast.ext: self.top(d)

    @classmethod
    def get(cls, path, defines=()):
        k = (path, tuple(defines))
        if k not in cls.cache: cls.cache[k] = cls(path, defines)
        return cls.cache[k]

    def top(self, d):
        if isinstance(d, c_ast.Typedef): self.typedefs[d.name] = self.typ(d.type)
        elif isinstance(d, c_ast.FuncDef):
            t = self.typ(d.decl.type); self.protos[d.decl.name] = t
            self.funcs[d.decl.name] = d
        elif isinstance(d, c_ast.Decl):
            if d.name is None: self.typ(d.type); return
            t = self.typ(d.type)
            if t[0] == 'func': self.protos[d.name] = t
            else:
                if d.name not in self.globals or d.init is not None: self.globals[d.name] = (t, d.init, 'extern' not in d.storage)

    def typ(self, n):
        if isinstance(n, c_ast.TypeDecl): return self.typ(n.type)
        if isinstance(n, c_ast.Typename): return self.typ(n.type)
        if isinstance(n, c_ast.PtrDecl): return PTR(self.typ(n.type))
        if isinstance(n, c_ast.ArrayDecl):
            return ('arr', self.typ(n.type), self.const(n.dim) if n.dim is not None else None)
        if isinstance(n, c_ast.FuncDecl):
            ps, var = [], False
            for p in (n.args.params if n.args else []):
                if isinstance(p, c_ast.EllipsisParam): var = True
                elif isinstance(p, c_ast.ID): ps.append((p.name, INT))
                else:
                    t = self.typ(p.type)
                    if t == VOID: continue
                    if t[0] == 'arr': t = PTR(t[1])
                    if t[0] == 'func': t = PTR(t)
                    ps.append((getattr(p, 'name', None), t))
            return ('func', self.typ(n.type), tuple(ps), var)
        if isinstance(n, c_ast.IdentifierType):
            ns = n.names
            if len(ns) == 1 and ns[0] in self.typedefs: return self.typedefs[ns[0]]
            s = set(ns)
            if 'void' in s: return VOID
            if 'float' in s: return ('float', 32)
            if 'double' in s: return ('float', 64)
            u = 'unsigned' not in s
            if 'char' in s: return I(8, u)
            if 'short' in s: return I(16, u)
            if 'long' in s: return I(64, u)
            if s & {'int', 'unsigned', 'signed'}: return I(32, u)
            if '_Bool' in s: return I(8, False)
            if '__builtin_va_list' in s: return PTR(CHAR)
            raise Unsupported('type ' + ' '.join(ns))
        if isinstance(n, c_ast.Enum):
            if n.values:
                v = 0
                for e in n.values.enumerators:
                    if e.value is not None: v = self.const(e.value)
                    self.enums[e.name] = v; v += 1
            return INT
        if isinstance(n, (c_ast.Struct, c_ast.Union)):
            name = n.name
            if name is None: self.anon += 1; name = 'anon%d' % self.anon
            if n.decls is not None: self.layout(name, n)
            return ('struct', name)
        raise Unsupported('type node %s' % type(n).__name__)

    def layout(self, name, n):
        self.structs.setdefault(name, None)
        off, al, fields = 0, 1, []
        union = isinstance(n, c_ast.Union)
        size = 0
        for d in n.decls:
            t = self.typ(d.type)
            s, a = self.size(t), self.align(t)
            o = 0 if union else (off + a - 1) // a * a
            if d.name is None and t[0] == 'struct':
                for (fn, fo, ft, fm) in self.structs[t[1]][0]: fields.append((fn, o + fo, ft, None))
            else: fields.append((d.name, o, t, None))
            off = o + s; size = max(size, off); al = max(al, a)
        size = (size + al - 1) // al * al
        if name == 'scm': nm = {0: 'f_type', 8: 'f_car', 16: 'f_cdr'}
        else: nm = {}
        fields = [(fn, fo, ft, nm.get(fo, 'f_%s_%d' % (name.strip('_'), fo))) for (fn, fo, ft, _) in fields]
        self.structs[name] = (fields, size, al)

    def size(self, t):
        k = t[0]
        if k == 'int': return t[1] // 8
        if k == 'float': return t[1] // 8
        if k == 'ptr': return 8
        if k == 'arr': return self.size(t[1]) * (t[2] or 0)
        if k == 'struct':
            if not self.structs.get(t[1]): raise Unsupported('sizeof incomplete struct ' + t[1])
            return self.structs[t[1]][1]
        if k in ('void', 'func'): return 1
        raise Unsupported('sizeof ' + str(t))
    def align(self, t):
        if t[0] == 'arr': return self.align(t[1])
        if t[0] == 'struct': return self.structs[t[1]][2]
        return max(1, self.size(t))

    def const(self, e):
        """Integer constant expression."""
        if isinstance(e, c_ast.Constant):
            if e.type == 'char': return charval(e.value)
            if 'int' in e.type: return int(re.sub('[uUlL]+$', '', e.value), 0) if not re.match(r'0[0-7]+[uUlL]*$', e.value) else int(re.sub('[uUlL]+$', '', e.value), 8)
        if isinstance(e, c_ast.ID) and e.name in self.enums: return self.enums[e.name]
        if isinstance(e, c_ast.UnaryOp):
            if e.op == 'sizeof': return self.size(self.typ(e.expr))
            v = self.const(e.expr)
            return {'-': -v, '+': v, '~': ~v, '!': int(not v)}[e.op]
        if isinstance(e, c_ast.BinaryOp):
            a, b = self.const(e.left), self.const(e.right)
            return {'+': lambda: a+b, '-': lambda: a-b, '*': lambda: a*b, '/': lambda: abs(a)//abs(b)*(1 if a*b >= 0 else -1), '<<': lambda: a << b, '>>': lambda: a >> b,
                    '|': lambda: a | b, '&': lambda: a & b, '==': lambda: int(a == b), '<': lambda: int(a < b), '>': lambda: int(a > b)}[e.op]()
        if isinstance(e, c_ast.Cast): return self.const(e.expr)
        raise Unsupported('constant expression')

ESC = {'n': 10, 't': 9, 'r': 13, '0': 0, 'a': 7, 'b': 8, 'e': 27, 'f': 12, 'v': 11, '\\': 92, "'": 39, '"': 34, '?': 63}
def unescape(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\':
            i += 1
            if s[i] == 'x':
                j = i + 1
                while j < len(s) and s[j] in '0123456789abcdefABCDEF': j += 1
                out.append(int(s[i+1:j], 16) & 255); i = j
            elif s[i] in '01234567':
                j = i
                while j < len(s) and j < i + 3 and s[j] in '01234567': j += 1
                out.append(int(s[i:j], 8) & 255); i = j
            else: out.append(ESC[s[i]]); i += 1
        else: out.extend(s[i].encode('utf-8')); i += 1
    return out
def charval(s):
    v = unescape(s[1:-1])[0]
    return v - 256 if v > 127 else v

# ----------------------------------------------------------------- specs
class Loop:
    def __init__(self): self.inv, self.variant, self.start, self.end, self.pre, self.after = [], None, [], [], [], []
class Spec:
    def __init__(self, name):
        self.name = name; self.file = None; self.params = None; self.writes = []; self.requires = []; self.ensures = []
        self.loops = []; self.pre = []; self.post = []; self.raises = []; self.reads = []; self.variant = None; self.opts = set()
        self.callbacks = {}; self.uses = []; self.trusted = False; self.locals = None; self.hooks = {}; self.note = ''; self.inline = set()
        self.ghosts = []; self.ret = None; self.src = ''; self.domains = {}; self.diverges = False; self.calls = []
        self.callas = {}; self.cname = None; self.ghostargs = {}; self.defines = (); self.extra = []; self.timeout = None; self.ptypes = None

MACROS = {}
def expand_macros(path, raw):
    """'macro NAME' ... 'endmacro' defines clauses; '@NAME a b' inserts them with %1 %2 replaced"""
    out, cur = [], None
    for ln in raw:
        w = ln.split()
        if w[0] == 'macro': cur = []; MACROS[w[1]] = cur
        elif w[0] == 'endmacro': cur = None
        elif w[0][0] == '@':
            if w[0][1:] not in MACROS: raise SystemExit('%s: no macro %s' % (path, w[0]))
            rest = ln.strip()[len(w[0]):].strip(); args = [x.strip() for x in rest.split(';')] if ';' in rest else w[1:]; body = []
            for x in MACROS[w[0][1:]]:
                for i, a in enumerate(args): x = x.replace('%%%d' % (i + 1), a)
                body.append(x)
            (out if cur is None else cur).extend(body)
        elif cur is not None: cur.append(ln)
        else: out.append(ln)
    return out
def parse_specs(path):
    specs, cur, loop = {}, None, None
    raw = []
    for ln in open(path):
        ln = ln.rstrip('\n')
        if not ln.strip() or ln.lstrip().startswith('#'): continue
        if ln.lstrip().startswith('|') and raw: raw[-1] += '\n' + ln.lstrip()[1:]
        else: raw.append(ln.strip())
    raw = expand_macros(path, raw)
    for ln in raw:
        m = re.match(r'([a-z0-9-]+)(?:\[([^\]]*)\])?\s*(.*)$', ln, re.S)
        if not m: raise SystemExit('%s: bad line %r' % (path, ln))
        k, lab, rest = m.groups()
        if k in ('fn', 'extern'):
            cur = Spec(rest.split()[0]); cur.src = path; specs[cur.name] = cur; loop = None
            cur.trusted = k == 'extern'
        elif k == 'file': cur.file = rest
        elif k == 'params': cur.params = rest.split()
        elif k == 'ptypes': cur.ptypes = rest.split()
        elif k == 'locals': cur.locals = rest.split()
        elif k == 'writes': cur.writes += rest.split()
        elif k == 'reads': cur.reads += rest.split()
        elif k == 'requires': cur.requires.append((lab or 'R%d' % (len(cur.requires)+1), rest))
        elif k == 'ensures': cur.ensures.append((lab or 'E%d' % (len(cur.ensures)+1), rest))
        elif k == 'raises': cur.raises.append((lab or 'X%d' % (len(cur.raises)+1), rest))
        elif k == 'pre': cur.pre.append(rest)
        elif k == 'post': cur.post.append(rest)
        elif k == 'opt': cur.opts |= set(rest.split())
        elif k == 'uses': cur.uses += rest.split()
        elif k == 'extra': cur.extra.append(rest)
        elif k == 'callback': a, b = rest.split(); cur.callbacks[a] = b
        elif k == 'callas': a, b = rest.split(); cur.callas[a] = b
        elif k == 'ghostarg': cur.ghostargs[lab] = cur.ghostargs.get(lab, []) + [rest]
        elif k == 'ghost': cur.ghosts.append(rest)
        elif k == 'note': cur.note = rest
        elif k == 'function': cur.cname = rest.strip()      # the C function, when this contract has another name
        elif k == 'ret': cur.ret = rest
        elif k == 'defines': cur.defines = tuple(rest.split())
        elif k == 'inline': cur.inline |= set(rest.split())
        elif k == 'diverges': cur.diverges = True
        elif k == 'timeout': cur.timeout = int(rest)
        elif k == 'hook': cur.hooks.setdefault(lab, []).append(rest)
        elif k == 'loop': loop = Loop(); cur.loops.append(loop)
        elif k == 'inv': loop.inv.append((lab or 'I%d' % (len(loop.inv)+1), rest))
        elif k == 'start': loop.start.append(rest)
        elif k == 'end': loop.end.append(rest)
        elif k == 'loop-pre': loop.pre.append(rest)
        elif k == 'after': loop.after.append(rest)
        elif k == 'variant':
            if loop is not None: loop.variant = rest
            else: cur.variant = rest
        else: raise SystemExit('%s: unknown keyword %r' % (path, k))
    return specs

def load_specs(names=None):
    d = os.path.join(HERE, '..', 'specs'); out = {}
    for f in sorted(os.listdir(d), key=lambda f: ((['scm.spec', 'vec.spec', 'list.spec', 'strg.spec'] + [f]).index(f), f)):
        if f.endswith('.spec'):
            for n, s in parse_specs(os.path.join(d, f)).items():
                if n in out: raise SystemExit('duplicate spec %s' % n)
                out[n] = s
    return out

# ----------------------------------------------------------------- source index
_index = None
LIBDIRS = ['src', 'lib/string', 'lib/mes', 'lib/stdlib', 'lib/ctype', 'lib/posix', 'lib/stdio', 'lib/stub', 'lib/dirent', 'lib/linux', 'lib/linux/x86_64-mes-gcc', 'lib']
def find_file(fn, hint):
    """File that defines fn: the hinted one, else a search."""
    if hint and os.path.exists(os.path.join(REPO, hint)):
        if re.search(r'\b%s\s*\(' % re.escape(fn), open(os.path.join(REPO, hint), errors='replace').read()): return hint
    for d in LIBDIRS:
        p = os.path.join(REPO, d)
        if not os.path.isdir(p): continue
        for f in sorted(os.listdir(p)):
            if f.endswith('.c'):
                t = open(os.path.join(p, f), errors='replace').read()
                if re.search(r'^%s\s*\([^;]*\)[^;]*\{|^%s \(' % (re.escape(fn), re.escape(fn)), t, re.M):
                    q = os.path.join(d, f)
                    try:
                        if fn in Unit.get(q).funcs: return q
                    except Unsupported: pass
    return hint

# ----------------------------------------------------------------- translation
class Var:
    def __init__(self, why, typ, kind): self.why, self.typ, self.kind = why, typ, kind   # kind: ref | addr | const

MAPS = {8: ('m8', 'v8'), 16: ('m16', 'v16'), 32: ('m32', 'v32'), 64: ('m64', 'v64')}

# structures whose members are ordinary memory words (their addresses are taken)
FLAT = {'ldiv_t', '__read_buffer'}

class Fn:
    def __init__(self, unit, name, spec, ctx):
        self.u, self.name, self.spec, self.ctx = unit, name, spec, ctx
        self.n = 0; self.loopno = 0; self.lits = {}; self.called = set(); self.globs = set(); self.maps = set()
        self.scopes = []; self.decls = []; self.notes = []; self.retstack = []; self.brk = []; self.cont = []
        self.inlined = []; self.unmatched_loops = 0; self.callno = {}
        self.names_used = set(); self.local_allocs = []
        self.stores = set(); self.inline_depth = 0
        self.localinfo = []

    def tmp(self, p='t'):
        self.n += 1; return "%s'%d" % (p, self.n) if False else '%s_%d_' % (p, self.n)

    # -- scopes
    def lookup(self, n):
        for s in reversed(self.scopes):
            if n in s: return s[n]
        return None

    def newlocal(self, name, typ, prefix=''):
        w = why_id(prefix + name)
        base, k = w, 2
        while w in self.names_used: w = '%s_%d' % (base, k); k += 1
        self.names_used.add(w); return w

    # -- type helpers
    def tname(self, t): return ('s' if t[2] else 'u') + str(t[1])
    def promote(self, t):
        if is_int(t) and t[1] < 32: return INT
        return t
    def usual(self, a, b):
        a, b = self.promote(a), self.promote(b)
        if a == b: return a
        if a[1] != b[1]: return a if a[1] > b[1] else b
        return a if not a[2] else b
    def conv(self, atom, src, dst):
        """value conversion"""
        if src[0] == 'float' or dst[0] == 'float': raise Unsupported('floating point')
        if dst == VOID or src == dst: return atom
        if is_int(dst):
            if is_int(src):
                (a, b), (c, d) = rng(src), rng(dst)
                if c <= a and b <= d: return atom
                if re.match(r'^\(?-?\d+\)?$', atom):
                    v = int(atom.strip('()'))
                    m = v % (1 << dst[1])
                    if dst[2] and m >= 1 << (dst[1]-1): m -= 1 << dst[1]
                    return str(m) if m >= 0 else '(%d)' % m
                return '(cast_%s %s)' % (self.tname(dst), atom)
            if is_ptr(src) or src[0] == 'struct':
                if dst[1] == 64: return atom
                return '(cast_%s %s)' % (self.tname(dst), atom)
        return atom
    def cls(self, t):
        if is_int(t): return MAPS[t[1]]
        if t[0] == 'ptr': return MAPS[64]
        raise Unsupported('access of type %s' % (t,))

    # -- expressions.  Each returns (pre, atom, type); pre is a string of 'let .. in' / '...;'
    def bind(self, pre, rhs, p='t'):
        t = self.tmp(p)
        return pre + 'let %s = %s in ' % (t, rhs), t

    def load(self, pre, cls, addr, t):
        m, v = cls; self.maps.add(m)
        pre, x = self.bind(pre, 'load_%s %s' % (m, addr))
        if is_int(t) and not t[2]: x = '(cast_%s %s)' % (self.tname(t), x)
        return pre, x, t
    def store(self, pre, cls, addr, atom, t):
        m, v = cls; self.maps.add(m); self.stores.add(m)
        if is_int(t) and not t[2]: atom = self.conv(atom, t, I(t[1]))
        return pre + 'store_%s %s %s; ' % (m, addr, atom)

    # lvalues: ('ref', why) | ('mem', addr, cls)
    def lval(self, e):
        if isinstance(e, c_ast.ID):
            v = self.lookup(e.name)
            if v is None: v = self.globalvar(e.name)
            if v.kind == 'ref': return '', ('ref', v.why), v.typ
            if v.kind == 'addr': return '', ('mem', v.why, self.cls(v.typ) if v.typ[0] != 'arr' and v.typ[0] != 'struct' else None), v.typ
            raise Unsupported('assignment to ' + e.name)
        if isinstance(e, c_ast.UnaryOp) and e.op == '*':
            pre, a, t = self.ex(e.expr)
            t = self.pointee(t)
            return pre, ('mem', a, None if t[0] in ('struct', 'arr', 'func', 'void') else self.cls(t)), t
        if isinstance(e, c_ast.ArrayRef):
            pre, a, t = self.addr_index(e)
            return pre, ('mem', a, None if t[0] in ('struct', 'arr') else self.cls(t)), t
        if isinstance(e, c_ast.StructRef):
            if e.type == '->':
                pre, a, t = self.ex(e.name); t = self.pointee(t)
            else:
                pre, lv, t = self.lval(e.name)
                if lv[0] != 'mem': raise Unsupported('struct value')
                a = lv[1]
            if t[0] != 'struct' or not self.u.structs.get(t[1]): raise Unsupported('member of %s' % (t,))
            for fn, fo, ft, fm in self.u.structs[t[1]][0]:
                if fn == e.field.name:
                    if ft[0] in ('arr', 'struct'): return pre, ('mem', '(%s + %d)' % (a, fo), None), ft
                    if t[1] in FLAT: return pre, ('mem', self.addx(a, str(fo), 1), self.cls(ft)), ft
                    return pre, ('mem', a, (fm, 'vs')), ft
            raise Unsupported('no member ' + e.field.name)
        if isinstance(e, c_ast.Cast):
            pre, lv, t = self.lval(e.expr); return pre, lv, self.u.typ(e.to_type)
        raise Unsupported('lvalue %s' % type(e).__name__)
    def pointee(self, t):
        if t[0] in ('ptr', 'arr'): return t[1]
        if t[0] == 'func': return t
        raise Unsupported('dereference of %s' % (t,))
    def addr_index(self, e):
        pre, a, t = self.ex(e.name)
        pre2, i, ti = self.ex(e.subscript)
        if is_int(t): a, i, t, ti = i, a, ti, t
        et = self.pointee(t)
        pre, (a,) = self.seq(pre, [a], pre2)
        s = self.u.size(et)
        return pre, self.addx(a, i, s), et
    def addx(self, a, i, s):
        if i == '0': return a
        if s == 1: return '(%s + %s)' % (a, i)
        if re.match(r'^\d+$', i): return '(%s + %d)' % (a, int(i) * s)
        return '(%s + %d * %s)' % (a, s, i)
    def seq(self, pre, atoms, pre2):
        """append pre2 after pre, snapshotting atoms if pre2 has side effects on locals"""
        if not pre2: return pre, tuple(atoms)
        if '<-' in pre2 or True:
            out = []
            for a in atoms:
                if re.match(r'^\(?-?\d+\)?$', a) or re.match(r"^[a-z]+_\d+_$", a): out.append(a)
                else:
                    pre, x = self.bind(pre, a); out.append(x)
            return pre + pre2, tuple(out)
    def rd(self, lv, t):
        if lv[0] == 'ref': return '', lv[1]
        if t[0] == 'arr': return '', lv[1]
        if t[0] == 'struct': return '', lv[1]
        if t[0] == 'func': return '', lv[1]
        p, x, _ = self.load('', lv[2], lv[1], t)
        return p, x
    def wr(self, lv, t, atom):
        if lv[0] == 'ref': self.stores.add(lv[1]); return '%s <- %s; ' % (lv[1], atom)
        if t[0] == 'struct':
            # structure assignment: field by field
            if t[1] in FLAT: raise Unsupported('assignment of struct ' + t[1])
            p = ''
            for fn, fo, ft, fm in self.u.structs[t[1]][0]:
                if ('%s_done' % fm) in p: continue
                if ft[0] in ('arr', 'struct'): raise Unsupported('struct copy with aggregate member')
                if 'store_%s ' % fm in p: continue
                q, x, _ = self.load('', (fm, 'vs'), atom, LONG)
                p += q + self.store('', (fm, 'vs'), lv[1], x, LONG)
            return p
        return self.store('', lv[2], lv[1], atom, t)

    def globalvar(self, n):
        if n in self.u.enums: return Var(str(self.u.enums[n]) if self.u.enums[n] >= 0 else '(%d)' % self.u.enums[n], INT, 'const')
        if n in self.u.globals:
            t, init, _ = self.u.globals[n]
            if t[0] in ('arr', 'struct') or n in self.ctx.addr_globals:
                self.globs.add((why_id(n), t, 'addr')); return Var(why_id(n), t, 'addr')
            self.globs.add((why_id(n), t, 'ref')); return Var(why_id(n), t, 'ref')
        if n in self.u.protos: return Var(why_id('fn_' + n), self.u.protos[n], 'const')
        raise Unsupported('unknown identifier ' + n)

    def arith(self, op, a, b, t, pre):
        """integer operation at type t (already promoted/converted operands)"""
        s = self.tname(t)
        wrap = 'wrap' in self.spec.opts
        lit = lambda x: re.match(r'^\(?-?\d+\)?$', x)
        if lit(a) and lit(b) and op in '+-*':
            v = eval('int(a.strip("()")) %s int(b.strip("()"))' % op); lo, hi = rng(t)
            if lo <= v <= hi: return pre, str(v) if v >= 0 else '(%d)' % v
        if op in ('+', '-', '*'):
            nm = {'+': 'add', '-': 'sub', '*': 'mul'}[op]
            if t[2] and wrap: nm = 'w' + nm
            return self.bind(pre, '%s_%s %s %s' % (nm, s, a, b))
        if op in ('/', '%'):
            nm = {'/': 'div', '%': 'rem'}[op]
            return self.bind(pre, '%s_%s %s %s' % (nm, s, a, b))
        if op in ('&', '|', '^', '<<', '>>'):
            if op == '&' and lit(b) and int(b.strip('()')) >= 0 and (int(b.strip('()')) & (int(b.strip('()')) + 1)) == 0:
                return pre, '(emod %s %d)' % (a, int(b.strip('()')) + 1)
            if op == '&' and lit(b):
                # mask of high bits: -2^k
                v = int(b.strip('()')); w = -v if v < 0 else (1 << t[1]) - v
                if w > 0 and w & (w - 1) == 0: return self.bind(pre, '(%s - emod %s %d)' % (a, a, w))
            if op == '>>' and lit(b): return pre, '(ediv %s %d)' % (a, 1 << int(b))
            if op == '<<' and lit(b):
                return self.bind(pre, '%s_%s %s %d' % ('wmul' if t[2] and wrap else 'mul', s, a, 1 << int(b)))
            nm = {'&': 'bw_and', '|': 'bw_or', '^': 'bw_xor', '<<': 'shl', '>>': 'shr'}[op]
            return self.bind(pre, '%s_%s %s %s' % (nm, s, a, b))
        raise Unsupported('operator ' + op)

    def cond(self, e):
        """boolean context: (pre, boolean atom)"""
        if isinstance(e, c_ast.UnaryOp) and e.op == '!':
            p, b = self.cond(e.expr)
            if b in ('true', 'false'): return p, 'false' if b == 'true' else 'true'
            return p, '(not %s)' % b
        if isinstance(e, c_ast.BinaryOp) and e.op in ('&&', '||'):
            p1, a = self.cond(e.left); p2, b = self.cond(e.right)
            if not p2:
                if a in ('true', 'false') and not p1:
                    if e.op == '&&': return ('', b) if a == 'true' else ('', 'false')
                    return ('', b) if a == 'false' else ('', 'true')
                return p1, '(%s %s %s)' % (a, e.op, b)
            if e.op == '&&': return self.bind(p1, '(if %s then (%s %s) else false)' % (a, p2, b), 'b')
            return self.bind(p1, '(if %s then true else (%s %s))' % (a, p2, b), 'b')
        if isinstance(e, c_ast.BinaryOp) and e.op in ('==', '!=', '<', '>', '<=', '>='):
            p1, a, t1 = self.ex(e.left); p2, b, t2 = self.ex(e.right)
            p, (a,) = self.seq(p1, [a], p2)
            if is_int(t1) and is_int(t2):
                t = self.usual(t1, t2); a, b = self.conv(a, t1, t), self.conv(b, t2, t)
            lit = lambda x: re.match(r'^\(?-?\d+\)?$', x)
            if lit(a) and lit(b):
                return p, 'true' if eval('int(a.strip("()")) %s int(b.strip("()"))' % e.op) else 'false'
            op = {'==': '=', '!=': '<>'}.get(e.op, e.op)
            return p, '(%s %s %s)' % (a, op, b)
        if isinstance(e, c_ast.Cast):
            pass
        p, a, t = self.ex(e)
        if re.match(r'^\(?-?\d+\)?$', a): return p, 'false' if int(a.strip('()')) == 0 else 'true'
        m = re.match(r'^\(if (.*) then 1 else 0\)$', a)
        if m and ' then ' not in m.group(1): return p, '(%s)' % m.group(1)
        return p, '(%s <> 0)' % a

    def boolint(self, p, b):
        if b == 'true': return p, '1', INT
        if b == 'false': return p, '0', INT
        return p, '(if %s then 1 else 0)' % b, INT

    def ex(self, e):
        u = self.u
        if isinstance(e, c_ast.Constant):
            if e.type == 'string': return '', self.literal(unescape(e.value[1:-1])), PTR(CHAR)
            if e.type == 'char': v = charval(e.value); return '', str(v) if v >= 0 else '(%d)' % v, INT
            if 'int' in e.type:
                v = u.const(e)
                t = UINT if re.search('[uU]', e.value) else INT
                if re.search('[lL]', e.value) or v > rng(t)[1]: t = ULONG if re.search('[uU]', e.value) or v > rng(LONG)[1] else LONG
                if re.match('0[xX0-9]', e.value) and t == LONG and v <= rng(UINT)[1] and not re.search('[lL]', e.value): t = UINT
                return '', str(v), t
            raise Unsupported('constant ' + e.type)
        if isinstance(e, c_ast.ID):
            v = self.lookup(e.name)
            if v is None: v = self.globalvar(e.name)
            if v.kind in ('ref', 'const'): return '', v.why, v.typ
            if v.typ[0] in ('arr', 'struct'): return '', v.why, v.typ
            return self.load('', self.cls(v.typ), v.why, v.typ)
        if isinstance(e, (c_ast.ArrayRef, c_ast.StructRef)):
            p, lv, t = self.lval(e); q, x = self.rd(lv, t); return p + q, x, t
        if isinstance(e, c_ast.UnaryOp):
            if e.op == '*':
                p, lv, t = self.lval(e)
                q, x = self.rd(lv, t); return p + q, x, t
            if e.op == '&':
                if isinstance(e.expr, c_ast.ID):
                    v = self.lookup(e.expr.name) or self.globalvar(e.expr.name)
                    if v.kind == 'addr': return '', v.why, PTR(v.typ)
                    if v.typ[0] == 'func': return '', v.why, v.typ
                    raise Unsupported('address of register variable ' + e.expr.name)
                if isinstance(e.expr, c_ast.StructRef):
                    # address of a member: only usable as an opaque byte address
                    sr = e.expr
                    if sr.type == '->': p, a, t = self.ex(sr.name); t = self.pointee(t)
                    else:
                        p, lv, t = self.lval(sr.name); a = lv[1]
                    for fn, fo, ft, fm in u.structs[t[1]][0]:
                        if fn == sr.field.name: return p, self.addx(a, str(fo), 1), PTR(ft)
                p, lv, t = self.lval(e.expr)
                return p, lv[1], PTR(t)
            if e.op in ('++', '--', 'p++', 'p--'):
                p, lv, t = self.lval(e.expr)
                q, x = self.rd(lv, t)
                p, old = self.bind(p + q, x)
                op = '+' if '+' in e.op else '-'
                if is_ptr(t): new = '(%s %s %d)' % (old, op, u.size(self.pointee(t)))
                else:
                    pt = self.promote(t)
                    p, new = self.arith(op, self.conv(old, t, pt), '1', pt, p)
                    new = self.conv(new, pt, t)
                p, new = self.bind(p, new)
                p += self.wr(lv, t, new)
                return p, (old if e.op[0] == 'p' else new), t
            if e.op == '!':
                p, b = self.cond(e); return self.boolint(p, b)
            if e.op == '-':
                p, a, t = self.ex(e.expr); pt = self.promote(t); a = self.conv(a, t, pt)
                if re.match(r'^\d+$', a): v = -int(a) if pt[2] else -int(a) % (1 << pt[1]); return p, '(%d)' % v if v < 0 else str(v), pt
                p, x = self.arith('-', '0', a, pt, p); return p, x, pt
            if e.op == '+':
                p, a, t = self.ex(e.expr); return p, a, self.promote(t)
            if e.op == '~':
                p, a, t = self.ex(e.expr); pt = self.promote(t); a = self.conv(a, t, pt)
                return p, ('(-1 - %s)' % a) if pt[2] else '(%d - %s)' % ((1 << pt[1]) - 1, a), pt
            if e.op == 'sizeof':
                t = u.typ(e.expr) if isinstance(e.expr, c_ast.Typename) else self.typeof(e.expr)
                return '', str(u.size(t)), ULONG
            raise Unsupported('unary ' + e.op)
        if isinstance(e, c_ast.BinaryOp):
            if e.op in ('&&', '||', '==', '!=', '<', '>', '<=', '>='):
                p, b = self.cond(e); return self.boolint(p, b)
            p1, a, t1 = self.ex(e.left); p2, b, t2 = self.ex(e.right)
            p, (a,) = self.seq(p1, [a], p2)
            return self.binop(e.op, p, a, t1, b, t2)
        if isinstance(e, c_ast.Assignment):
            p, lv, t = self.lval(e.lvalue)
            p2, b, tb = self.ex(e.rvalue)
            if lv[0] == 'mem':
                p, (a,) = self.seq(p, [lv[1]], p2); lv = ('mem', a, lv[2])
            else: p = p + p2
            if e.op != '=':
                q, x = self.rd(lv, t)
                p, x, tb = self.binop(e.op[:-1], p + q, x, t, b, tb); b = x
            b = self.conv(b, tb, t)
            if t[0] != 'struct': p, b = (p, b) if re.match(r"^\(?-?\d+\)?$|^[a-z]+_\d+_$", b) else self.bind(p, b)
            p += self.wr(lv, t, b)
            return p, b, t
        if isinstance(e, c_ast.Cast):
            t = u.typ(e.to_type); p, a, ts = self.ex(e.expr)
            return p, self.conv(a, ts, t), t
        if isinstance(e, c_ast.TernaryOp):
            p, b = self.cond(e.cond)
            p1, x, t1 = self.ex(e.iftrue); p2, y, t2 = self.ex(e.iffalse)
            if is_int(t1) and is_int(t2): t = self.usual(t1, t2); x, y = self.conv(x, t1, t), self.conv(y, t2, t)
            else: t = t1 if is_ptr(t1) else t2
            if t == VOID: x = y = '()'
            p, r = self.bind(p, '(if %s then (%s %s) else (%s %s))' % (b, p1, x, p2, y))
            return p, r, t
        if isinstance(e, c_ast.ExprList):
            p = ''
            for x in e.exprs:
                q, a, t = self.ex(x); p += q
            return p, a, t
        if isinstance(e, c_ast.FuncCall): return self.call(e)
        raise Unsupported('expression ' + type(e).__name__)

    def typeof(self, e):
        s = (self.n, set(self.maps), set(self.globs), set(self.called), set(self.stores), dict(self.callno))
        r = self.ex(e)[2]
        self.n, self.maps, self.globs, self.called, self.stores, self.callno = s
        return r

    def binop(self, op, p, a, t1, b, t2):
        if t1[0] == 'arr': t1 = PTR(t1[1])
        if t2[0] == 'arr': t2 = PTR(t2[1])
        if is_ptr(t1) and is_int(t2) and op in '+-':
            s = self.u.size(self.pointee(t1))
            if 'wrapptr' in self.spec.opts:
                i = b if s == 1 else '(%d * %s)' % (s, b)
                p, x = self.bind(p, '%s_u64 %s (cast_u64 %s)' % ('add' if op == '+' else 'sub', a, i)); return p, x, t1
            if op == '+': return p, self.addx(a, b, s), t1
            if b == '0': return p, a, t1
            if re.match(r'^\d+$', b): return p, '(%s - %d)' % (a, int(b) * s), t1
            return p, '(%s - %s)' % (a, b if s == 1 else '%d * %s' % (s, b)), t1
        if is_int(t1) and is_ptr(t2) and op == '+': return self.binop('+', p, b, t2, a, t1)
        if is_ptr(t1) and is_ptr(t2) and op == '-':
            s = self.u.size(self.pointee(t1))
            return p, '(%s - %s)' % (a, b) if s == 1 else '(tdiv (%s - %s) %d)' % (a, b, s), LONG
        if not (is_int(t1) and is_int(t2)): raise Unsupported('operator %s on %s %s' % (op, t1, t2))
        t = self.promote(t1) if op in ('<<', '>>') else self.usual(t1, t2)
        if op in ('<<', '>>'): a, b = self.conv(a, t1, t), self.conv(b, t2, self.promote(t2))
        else: a, b = self.conv(a, t1, t), self.conv(b, t2, t)
        p, x = self.arith(op, a, b, t, p)
        return p, x, t

    def literal(self, bs):
        k = tuple(bs)
        if k not in self.lits: self.lits[k] = 'lit_%d' % len(self.lits)
        return '(%s ())' % self.lits[k]

    # -- calls
    def call(self, e):
        if isinstance(e.name, c_ast.ID): fn = e.name.name
        elif isinstance(e.name, c_ast.UnaryOp) and e.name.op == '*' and isinstance(e.name.expr, c_ast.ID): fn = e.name.expr.name
        else: fn = None
        args = e.args.exprs if e.args else []
        if fn == '__mes_asm__': raise Unsupported('inline assembly')
        pre, atoms, types = '', [], []
        for a in args:
            p, x, t = self.ex(a)
            if x.startswith('(lit_'): p, x = self.bind(p, x)
            pre, atoms = self.seq(pre, atoms, p); atoms = list(atoms)
            atoms.append(x); types.append(t)
        v = self.lookup(fn) if fn else None
        if fn is None or v is not None or (fn not in self.u.protos and fn in self.u.globals):
            # call through a function pointer
            key = fn or '*'
            if fn is None and isinstance(e.name, c_ast.StructRef): key = e.name.field.name
            cb = self.spec.callbacks.get(self.orig(key)) or self.spec.callbacks.get(key) or self.spec.callbacks.get('*')
            if cb is None: raise Unsupported('call through pointer ' + str(key))
            sp = self.ctx.specs.get(cb)
            self.called.add(cb)
            if fn is None:
                p, f, _ = self.ex(e.name); pre, atoms = self.seq(pre, atoms, p); atoms = list(atoms)
                atoms = [f] + atoms if sp and 'withfn' in sp.opts else atoms
            elif sp and 'withfn' in sp.opts:
                p, f, _ = self.ex(c_ast.ID(fn)); atoms = [f] + list(atoms)
            rt = INT
            if sp and sp.ret: rt = parse_type(self.u, sp.ret)
            atoms = list(atoms); k = self.callno.get(cb, 0); self.callno[cb] = k + 1
            atoms += ['(%s)' % g for g in (self.spec.ghostargs.get('%s#%d' % (cb, k)) or self.spec.ghostargs.get(cb) or [])]
            for when in ('before', 'after'):
                if when == 'after': pre, x = self.bind(pre, '%s %s' % (why_id(cb), ' '.join(atoms) or '()'))
                for h in self.spec.hooks.get('%s:%s#%d' % (when, cb, k), []) + self.spec.hooks.get('%s:%s' % (when, cb), []):
                    if when == 'after': h = h.replace('$r', x)
                    for i, a in enumerate(atoms): h = h.replace('$%d' % (i+1), a)
                    pre += h + '; '
            return pre, x, rt
        ft = self.u.protos.get(fn)
        fn0 = fn
        if fn in self.spec.callas:
            # the same call, judged by a contract that fits its place
            ft = ft or self.ctx.functype(fn); fn = self.spec.callas[fn]
        sp = self.ctx.specs.get(fn)
        if sp is not None and fn not in self.spec.inline and not (sp.opts and 'inline' in sp.opts):
            ft = ft or self.ctx.functype(fn)
            if ft[0] != 'func': raise Unsupported('call ' + fn)
            # convert to declared parameter types
            for i, (pn, pt) in enumerate(ft[2]):
                if i < len(atoms): atoms[i] = self.conv(atoms[i], types[i], pt)
            for i in range(len(ft[2]), len(atoms)):
                if is_int(types[i]): atoms[i] = self.conv(atoms[i], types[i], self.promote(types[i]))
            if sp.params is not None and len(atoms) > len(sp.params): atoms = atoms[:len(sp.params)]
            k = self.callno.get(fn, 0); self.callno[fn] = k + 1
            g = self.spec.ghostargs.get('%s#%d' % (fn, k)) or self.spec.ghostargs.get(fn) or []
            ga = []
            for x in g:
                for i, a in enumerate(atoms): x = x.replace('$%d' % (i+1), a)
                ga.append('(%s)' % x)
            atoms += ga
            self.called.add(fn)
            atoms = [a for a in atoms]
            for h in self.spec.hooks.get('before:%s#%d' % (fn, k), []) + self.spec.hooks.get('before:' + fn, []):
                for i, a in enumerate(atoms): h = h.replace('$%d' % (i+1), a)
                pre += h + '; '
            pre, x = self.bind(pre, '%s %s' % (why_id(fn), ' '.join(atoms) or '()'))
            for h in self.spec.hooks.get('after:%s#%d' % (fn, k), []) + self.spec.hooks.get('after:' + fn, []):
                h = h.replace('$r', x)
                for i, a in enumerate(atoms): h = h.replace('$%d' % (i+1), a)
                pre += h + '; '
            if 'noreturn' in sp.opts: pre += ''
            return pre, x, ft[1]
        # no contract: inline the body
        return self.inline(fn, pre, atoms, types)
    def orig(self, n): return n

    def inline(self, fn, pre, atoms, types):
        if self.inline_depth > 6: raise Unsupported('inlining too deep at ' + str(fn))
        unit, fd = self.ctx.definition(fn, self.u)
        if fd is None: raise Unsupported('no contract and no body for ' + str(fn))
        if fn in self.inlined_stack(): raise Unsupported('recursive helper without contract ' + fn)
        ft = unit.protos[fn]
        save_u, save_sc = self.u, self.scopes
        self.inline_depth += 1; self.istack.append(fn); self.inlined.append(fn)
        try:
            ex = self.tmp('ret').capitalize()
            sc = {}
            p = pre
            if len(atoms) != len(ft[2]): raise Unsupported('argument count of ' + fn)
            binds = ''
            new = []
            for (pn, pt), a, t in zip(ft[2], atoms, types):
                w = self.newlocal(pn, pt, '' if pn not in [] else '')
                p, x = self.bind(p, self.conv(a, t, pt)); new.append((w, x))
                if pn in addr_taken(fd.body): raise Unsupported('address of parameter in inlined ' + fn)
                sc[pn] = Var(w, pt, 'ref'); self.localinfo.append((w, pt))
                self.decls.append('let ref %s = 0 in' % w)
            for w, x in new: binds += '%s <- %s; ' % (w, x)
            self.u = unit; self.scopes = [sc]
            self.retstack.append((ex, ft[1])); sb, scn = self.brk, self.cont; self.brk, self.cont = [], []
            body = self.stmt(fd.body)
            self.brk, self.cont = sb, scn
            self.retstack.pop()
        finally:
            self.u, self.scopes = save_u, save_sc; self.inline_depth -= 1; self.istack.pop()
        if ft[1] == VOID:
            return p + binds + '(exception %s in try %s with %s -> () end); ' % (ex, body, ex), '()', VOID
        p, x = self.bind(p + binds, '(exception %s int in try %s; noret_ () with %s r_ -> r_ end)' % (ex, body, ex))
        return p, x, ft[1]
    istack = None
    def inlined_stack(self): return [self.name] + self.istack

    # -- statements
    def stmt(self, s):
        """WhyML unit expression (self contained, parenthesised)"""
        if s is None or isinstance(s, c_ast.EmptyStatement): return '()'
        if isinstance(s, BackLabel):
            # while (1) { try { statements; break; } catch (goto label) }
            ex = self.tmp('Back_').capitalize(); self.labels.append((s.label, ex))
            code = self.block(s.block_items); self.labels.pop()
            code = code + (';\nbreak' if not ends(s.block_items) else '')
            return '(exception %s in try %s with %s -> () end)' % (ex, code, ex) if ex in self.brkused else '(%s)' % code
        if isinstance(s, c_ast.Compound): return self.block(s.block_items or [])
        if isinstance(s, c_ast.Decl): return self.decl(s)
        if isinstance(s, c_ast.DeclList): return '(' + '; '.join(self.decl(d) for d in s.decls) + ')'
        if isinstance(s, c_ast.If):
            p, b = self.cond(s.cond)
            if b == 'true' and not p: return self.stmt(s.iftrue)
            if b == 'false' and not p: return self.stmt(s.iffalse)
            t, f = self.stmt(s.iftrue), self.stmt(s.iffalse)
            if f == '()': return '(%sif %s then %s)' % (p, b, t)
            return '(%sif %s then\n%s\nelse\n%s)' % (p, b, t, f)
        if isinstance(s, c_ast.While): return self.loop(s, s.cond, None, s.stmt)
        if isinstance(s, c_ast.DoWhile): return self.loop(s, s.cond, None, s.stmt, post=True)
        if isinstance(s, c_ast.For):
            self.scopes.append({})
            i = self.stmt(s.init) if s.init is not None else '()'
            l = self.loop(s, s.cond, s.next, s.stmt)
            self.scopes.pop()
            return '(%s;\n%s)' % (i, l)
        if isinstance(s, c_ast.Return):
            ex, rt = self.retstack[-1]
            if s.expr is None: return '(raise %s)' % ex if rt == VOID else '(raise (%s 0))' % ex
            p, a, t = self.ex(s.expr)
            if rt == VOID: return '(%sraise %s)' % (p, ex)
            if self.inline_depth == 0:
                a = self.conv(a, t, rt)
                for h in self.spec.hooks.get('return', []): p += h.replace('$r', a) + '; '
                return '(%sraise (%s %s))' % (p, ex, a)
            return '(%sraise (%s %s))' % (p, ex, self.conv(a, t, rt))
        if isinstance(s, c_ast.Break):
            if self.brk[-1] is None: return 'break'
            self.brkused.add(self.brk[-1]); return '(raise %s)' % self.brk[-1]
        if isinstance(s, c_ast.Continue):
            c = self.cont[-1]
            if c is None: return 'continue'
            self.brkused.add(c); return '(raise %s)' % c
        if isinstance(s, c_ast.Goto):
            for lab, ex in reversed(self.labels):
                if lab == s.name: self.brkused.add(ex); return '(raise %s)' % ex
            raise Unsupported('goto ' + s.name)
        if isinstance(s, c_ast.Label): return self.stmt(s.stmt)
        if isinstance(s, c_ast.Switch): return self.switch(s)
        # expression statement
        p, a, t = self.ex(s)
        return '(%s())' % p

    def block(self, items):
        # labels in this block reachable by forward goto from before them
        self.scopes.append({})
        try:
            labs = [(i, it) for i, it in enumerate(items) if isinstance(it, c_ast.Label)]
            for i, it in reversed(labs):
                tail = [it.stmt] + items[i+1:]
                if has_goto(tail, it.name):      # backward: the rest of the block is a loop
                    if has_break(tail): raise Unsupported('break out of a loop made by goto ' + it.name)
                    if has_goto(items[:i], it.name): raise Unsupported('goto %s from both sides' % it.name)
                    b = BackLabel(tail); b.label = it.name
                    w = c_ast.While(None, b); items = items[:i] + [w]
                    labs = [(j, x) for j, x in labs if j < i]
            if labs:
                return self.labelled(items, labs)
            return self.plain(items)
        finally: self.scopes.pop()
    def plain(self, items):
        out = [self.stmt(i) for i in items]
        out = [o for o in out if o != '()']
        if not out: return '()'
        return '(' + ';\n'.join(out) + ')'
    def labelled(self, items, labs):
        segs, prev = [], 0
        for i, it in labs: segs.append(items[prev:i]); prev = i
        segs.append(items[prev:])
        exs = [(it.name, self.tmp('Goto_').capitalize()) for i, it in labs]
        # forward gotos: label k is visible in segments 0..k-1
        self.labels.extend(reversed(exs))
        # backward goto detection
        code = ''
        for k, seg in enumerate(segs):
            if k > 0: self.labels.pop()
            body = [x.stmt if (isinstance(x, c_ast.Label) and j == 0 and k > 0) else x for j, x in enumerate(seg)]
            if k > 0 and has_goto(seg, exs[k-1][0]): raise Unsupported('backward goto ' + exs[k-1][0])
            # order of evaluation: code so far is wrapped when label k is reached
            out = [self.stmt(i) for i in body]; out = [o for o in out if o != '()']
            segcode = ';\n'.join(out) or '()'
            if k > 0 and exs[k-1][1] in self.brkused:
                code = '(exception %s in try %s with %s -> () end);\n%s' % (exs[k-1][1], code, exs[k-1][1], segcode)
            elif k > 0: code = '%s;\n%s' % (code, segcode)
            else: code = segcode
        return '(' + code + ')'

    def decl(self, d):
        if isinstance(d.type, c_ast.FuncDecl) or 'extern' in (d.storage or []):
            t = self.u.typ(d.type)
            if t[0] == 'func': self.u.protos.setdefault(d.name, t)
            return '()'
        if d.name is None: self.u.typ(d.type); return '()'
        t = self.u.typ(d.type)
        if t[0] == 'arr' and t[2] is None and isinstance(d.init, c_ast.Constant): t = ('arr', t[1], len(unescape(d.init.value[1:-1])) + 1)
        w = self.newlocal(d.name, t)
        if 'static' in (d.storage or []):
            # static local: a global of its own
            self.scopes[-1][d.name] = Var(w, t, 'addr' if t[0] in ('arr', 'struct') or d.name in self.addrtaken else 'ref')
            self.globs.add((w, t, 'addr' if t[0] in ('arr', 'struct') or d.name in self.addrtaken else 'ref'))
            return '()'
        if t[0] in ('arr', 'struct') or d.name in self.addrtaken:
            v = Var(w, t, 'addr'); self.scopes[-1][d.name] = v
            n, et = (t[2], t[1]) if t[0] == 'arr' else (1, t)
            if et[0] == 'struct' and et[1] in FLAT:
                self.decls.append('let %s = alloca_m64 %d in' % (w, self.u.size(t) // 8)); self.maps.add('m64'); self.local_allocs.append(('v64', w, self.u.size(t) // 8))
            elif et[0] == 'struct':
                self.decls.append('let %s = alloca_struct %d in' % (w, self.u.size(t))); self.local_allocs.append(('vs', w, 1))
            else:
                m, vm = self.cls(et); self.maps.add(m)
                self.decls.append('let %s = alloca_%s %d in' % (w, m, n)); self.local_allocs.append((vm, w, n))
            if d.init is None: return '()'
            if t[0] == 'arr': 
                if isinstance(d.init, c_ast.InitList):
                    out = []
                    for i, x in enumerate(d.init.exprs):
                        p, a, tx = self.ex(x)
                        out.append('(%s())' % self.store(p, self.cls(et), self.addx(w, str(i), self.u.size(et)), self.conv(a, tx, et), et))
                    for i in range(len(d.init.exprs), t[2]): out.append('(%s())' % self.store('', self.cls(et), self.addx(w, str(i), self.u.size(et)), '0', et))
                    return '(' + ';\n'.join(out) + ')'
                if isinstance(d.init, c_ast.Constant) and d.init.type == 'string':
                    bs = unescape(d.init.value[1:-1]); bs = [b - 256 if b > 127 else b for b in bs]
                    out = []
                    for i in range(t[2]):
                        out.append('(%s())' % self.store('', self.cls(et), self.addx(w, str(i), 1), '(%d)' % (bs[i] if i < len(bs) else 0), CHAR))
                    return '(' + ';\n'.join(out) + ')'
                raise Unsupported('array initialiser')
            p, a, ti = self.ex(d.init)
            return '(%s())' % (p + self.wr(('mem', w, self.cls(t)), t, self.conv(a, ti, t)))
        if t[0] == 'float': raise Unsupported('floating point')
        self.scopes[-1][d.name] = Var(w, t, 'ref'); self.localinfo.append((w, t))
        if is_int(t): self.decls.append('let ref %s = any_%s () in' % (w, self.tname(t)))
        else: self.decls.append('let ref %s = any_ptr () in' % w)
        if d.init is not None:
            if isinstance(d.init, c_ast.InitList): raise Unsupported('initialiser list')
            p, a, ti = self.ex(d.init)
            self.stores.add(w)
            return '(%s%s <- %s)' % (p, w, self.conv(a, ti, t))
        return '()'

    def loop(self, node, cond, step, body, post=False):
        k = self.loopno; self.loopno += 1
        sp = self.spec.loops[k] if k < len(self.spec.loops) else None
        if sp is None: self.unmatched_loops += 1; sp = Loop()
        # which locals does the loop modify?
        mod = assigned(body) | (assigned(cond) if cond is not None else set()) | (assigned(step) if step is not None else set())
        ranges = []
        for n in sorted(mod):
            v = self.lookup(n)
            if v is not None and v.kind == 'ref' and is_int(v.typ): ranges.append((v.why, v.typ))
        bex, cex = None, None
        if step is not None and has_continue(body): cex = self.tmp('Cont_').capitalize()
        if post and has_continue(body): cex = self.tmp('Cont_').capitalize()
        self.brk.append(None); self.cont.append(cex)
        if cond is not None: p, b = self.cond(cond)
        else: p, b = '', 'true'
        bd = self.stmt(body)
        st = ''
        if step is not None:
            q, _, _ = self.ex(step); st = '(%s())' % q
        self.brk.pop(); self.cont.pop()
        if cex and cex in self.brkused: bd = '(exception %s in try %s with %s -> () end)' % (cex, bd, cex)
        test = '(%sif not %s then break)' % (p, b) if b != 'true' or p else ''
        parts = ['(ghost (%s))' % x for x in sp.start]
        parts += ([test] if test and not post else []) + [bd] + ([st] if st else []) + ['(ghost (%s))' % x for x in sp.end] + ([test] if test and post else [])
        parts = [x for x in parts if x != '()']
        out = ''
        for x in sp.pre: out += '(ghost (%s));\n' % x
        out += 'while true do\n'
        for w, t in ranges:
            lo, hi = rng(t)
            out += '\x01%s loop %d range of %s\x02invariant { %d <= %s <= %d }\n' % (self.name, k, w, lo, w, hi)
        for lab, f in sp.inv: out += '\x01%s loop %d invariant %s\x02invariant { %s }\n' % (self.name, k, lab, one(f))
        if sp.variant: out += '\x01%s loop %d variant\x02variant { %s }\n' % (self.name, k, one(sp.variant))
        out += 'label L%d in\n' % k + ';\n'.join(parts or ['()']) + '\ndone'
        for x in sp.after: out += ';\n(ghost (%s))' % x
        return '(' + out + ')'

    def switch(self, s):
        p, a, t = self.ex(s.cond); pt = self.promote(t); a = self.conv(a, t, pt)
        p, a = self.bind(p, a)
        items = s.stmt.block_items if isinstance(s.stmt, c_ast.Compound) else [s.stmt]
        groups, cur = [], None
        for it in items:
            if isinstance(it, (c_ast.Case, c_ast.Default)):
                cur = ([], [], isinstance(it, c_ast.Default))
                groups.append([['default'] if isinstance(it, c_ast.Default) else [self.u.const(it.expr)], list(it.stmts or [])])
            elif groups: groups[-1][1].append(it)
            else: raise Unsupported('switch body')
        # nested case labels (case a: case b: stmt) parse as nested Case
        flat = []
        def flatten(labels, stmts):
            if stmts and isinstance(stmts[0], (c_ast.Case, c_ast.Default)):
                x = stmts[0]
                flatten(labels + (['default'] if isinstance(x, c_ast.Default) else [self.u.const(x.expr)]), list(x.stmts or []) + stmts[1:])
            else: flat.append([labels, stmts])
        for l, st in groups: flatten(l, st)
        # merge empty groups (fall through)
        merged, pend = [], []
        for l, st in flat:
            if not st: pend += l
            else: merged.append([pend + l, st]); pend = []
        bex = self.tmp('Brk_').capitalize()
        self.brk.append(bex); self.scopes.append({})
        code = ''
        arms, default = [], None
        for i, (l, st) in enumerate(merged):
            seq = list(st); j = i
            while not ends(seq) and j + 1 < len(merged):
                j += 1; seq += merged[j][1]       # fall through: duplicate
            body = self.plain(seq)
            if 'default' in l: default = body
            labs = [x for x in l if x != 'default']
            if labs and 'default' not in l: arms.append((labs, body))
        self.scopes.pop(); self.brk.pop()
        for labs, body in arms:
            code += 'if %s then\n%s\nelse ' % (' || '.join('%s = %s' % (a, x if x >= 0 else '(%d)' % x) for x in labs), body)
        code += default or '()'
        r = '(%s%s)' % (p, code)
        if bex in self.brkused: r = '(exception %s in try %s with %s -> () end)' % (bex, r, bex)
        return r

    # -- whole function
    def run(self):
        self.istack = []; self.brkused = set(); self.labels = []
        fd = self.u.funcs[self.spec.cname or self.name]
        ft = self.u.protos[self.spec.cname or self.name]; self.ft = ft
        ps = [p for p in ft[2]]
        names = self.spec.params or [why_id(p[0]) for p in ps]
        if len(names) < len(ps): raise Unsupported('parameter count of %s changed' % self.name)
        self.addrtaken = addr_taken(fd.body)
        modified = assigned(fd.body)
        sc, head, ranges = {}, [], []
        self.formals = []
        for (pn, pt), w in zip(ps, names):
            self.names_used.add(w)
            self.formals.append((w, pt))
            self.localinfo.append((w, pt))
            if pn in self.addrtaken:
                a = w + '_addr'; m, vm = self.cls(pt); self.maps.add(m)
                head.append('let %s = alloca_%s 1 in store_%s %s %s;' % (a, m, m, a, w)); self.local_allocs.append((vm, a, 1))
                sc[pn] = Var(a, pt, 'addr')
            elif pn in modified:
                head.append('let %s_0 = %s in let ref %s = %s in' % (w, w, w, w)); sc[pn] = Var(w, pt, 'ref')
            else: sc[pn] = Var(w, pt, 'ref'); head.append('let %s_0 = %s in' % (w, w))
        self.scopes.append(sc)
        ex = 'Return_'
        self.retstack.append((ex, ft[1]))
        body = self.stmt(fd.body)
        self.head = head; self.body = body; self.ret = ft[1]
        return self

def one(f): return ' '.join(f.split('\n')).strip()

def ends(stmts):
    if not stmts: return False
    l = stmts[-1]
    if isinstance(l, c_ast.Compound): return ends(l.block_items or [])
    if isinstance(l, c_ast.If): return l.iffalse is not None and ends([l.iftrue]) and ends([l.iffalse])
    return isinstance(l, (c_ast.Break, c_ast.Return, c_ast.Continue, c_ast.Goto))

def walk(n, f):
    if n is None: return
    if isinstance(n, (list, tuple)):
        for x in n: walk(x, f)
        return
    f(n)
    for _, c in n.children(): walk(c, f)
def assigned(n):
    out = set()
    def f(x):
        if isinstance(x, c_ast.Assignment):
            l = x.lvalue
            while isinstance(l, c_ast.Cast): l = l.expr
            if isinstance(l, c_ast.ID): out.add(l.name)
        if isinstance(x, c_ast.UnaryOp) and x.op in ('++', '--', 'p++', 'p--') and isinstance(x.expr, c_ast.ID): out.add(x.expr.name)
        if isinstance(x, c_ast.Decl) and x.name: out.add(x.name)
    walk(n, f); return out
def addr_taken(n):
    out = set()
    def f(x):
        if isinstance(x, c_ast.UnaryOp) and x.op == '&' and isinstance(x.expr, c_ast.ID): out.add(x.expr.name)
    walk(n, f); return out
def has_continue(n):
    found = []
    def g(x):
        if isinstance(x, c_ast.Continue): found.append(1); return
        if isinstance(x, (c_ast.While, c_ast.For, c_ast.DoWhile)): return
        if x is None: return
        for _, c in x.children(): g(c)
    g(n); return bool(found)
class BackLabel(c_ast.Compound): pass
def has_break(items):
    found = []
    def g(x):
        if isinstance(x, (c_ast.Break, c_ast.Continue)): found.append(1); return
        if isinstance(x, (c_ast.While, c_ast.For, c_ast.DoWhile, c_ast.Switch)): return
        for _, c in x.children(): g(c)
    for x in items: g(x)
    return bool(found)
def has_goto(items, lab):
    found = []
    def f(x):
        if isinstance(x, c_ast.Goto) and x.name == lab: found.append(1)
    walk(items, f); return bool(found)

def parse_type(unit, s):
    s = s.strip()
    stars = s.count('*'); b = s.replace('*', '').split()
    if b[0] == 'struct': t = ('struct', b[1])
    else: t = unit.typ(c_ast.IdentifierType(b))
    for _ in range(stars): t = PTR(t)
    return t

# ----------------------------------------------------------------- modules
class Ctx:
    def __init__(self, specs, addr_globals=()):
        self.predeclared = set(); self.specs = specs; self.addr_globals = set(addr_globals); self.files = {}
    def unit_for(self, fn):
        sp = self.specs.get(fn)
        fn = sp.cname or fn if sp else fn
        f = find_file(fn, sp.file if sp else None)
        if not f: raise Unsupported('no source for ' + fn)
        u = Unit.get(f, sp.defines if sp else ())
        if fn not in u.funcs:
            f2 = find_file(fn, None)
            if f2: u = Unit.get(f2)
        if fn not in u.funcs: raise Unsupported('function %s not found in %s' % (fn, f))
        return u
    def functype(self, fn):
        sp = self.specs.get(fn)
        if sp and sp.trusted and sp.ptypes is not None:
            raise Unsupported('undeclared ' + fn)
        return self.unit_for(fn).protos[sp.cname or fn if sp else fn]
    def definition(self, fn, unit):
        if fn in unit.funcs: return unit, unit.funcs[fn]
        f = find_file(fn, None)
        if f:
            u = Unit.get(f)
            if fn in u.funcs: return u, u.funcs[fn]
        return None, None

class Out:
    def __init__(self): self.lines, self.tags = [], {}
    def add(self, text, tag=None):
        for ln in text.split('\n'):
            m = re.search('\x01([^\x02]*)\x02', ln)
            t = tag
            if m: t = m.group(1); ln = ln.replace(m.group(0), '')
            self.lines.append(ln)
            if t: self.tags[len(self.lines)] = t

def clause_lines(out, kw, clauses, name, indent='  '):
    for lab, f in clauses:
        kind = 'precondition' if kw == 'requires' else 'postcondition'
        if kw == 'raises':
            exn, form = f.split(':', 1)
            out.add('%sraises { %s -> %s }' % (indent, exn.strip(), one(form)), '%s exceptional postcondition %s' % (name, lab))
        else: out.add('%s%s { %s }' % (indent, kw, one(f)), '%s %s %s' % (name, kind, lab))

def why_params(formals, spec):
    return ' '.join(['(%s: int)' % w for w, _ in formals] + ['(ghost %s)' % g for g in spec.ghosts]) or '()'


def glob_decls(out, globs, done):
    for w, t, k in sorted(globs, key=lambda x: x[0]):
        if w in done: continue
        done.add(w)
        if k == 'ref': out.add('  val ref %s : int' % w)
        else: out.add('  val constant %s : int' % w)

BASEMAPS = {'m8', 'm16', 'm32', 'm64', 'v8', 'v16', 'v32', 'v64', 'vs', 'f_type', 'f_car', 'f_cdr', 'errno'}

_mlw_refs = None
def mlw_refs():
    global _mlw_refs
    if _mlw_refs is None:
        d = os.path.join(HERE, '..', 'specs'); found = set()    # several threads may get here at once
        for f in os.listdir(d):
            if f.endswith('.mlw'): found |= set(re.findall(r'val (?:ghost )?(?:ref|constant) (\w+)', open(os.path.join(d, f)).read()))
        _mlw_refs = found
    return _mlw_refs
def effects(spec): return [w for w in spec.writes if w != '-']

def stub(ctx, out, fn, unit):
    """val declaration of a callee from its contract."""
    spec = ctx.specs[fn]
    ft = unit.protos.get(spec.cname or fn)
    if ft is None and not (spec.trusted and spec.params is not None):
        ft = ctx.functype(fn)
    if spec.params is not None: formals = [(p, None) for p in spec.params]
    else: formals = [(why_id(p[0] or 'a%d' % i), p[1]) for i, p in enumerate(ft[2])]
    ret = ft[1] if ft else (parse_type(unit, spec.ret) if spec.ret else INT)
    rt = 'unit' if ret == VOID else 'int'
    out.add('  val %s %s : %s' % (why_id(fn), why_params(formals, spec), rt))
    clause_lines(out, 'requires', spec.requires, fn, '    ')
    if effects(spec): out.add('    writes { %s }' % ', '.join(effects(spec)))
    if spec.reads: out.add('    reads { %s }' % ', '.join(spec.reads))
    if is_int(ret): out.add('    ensures { %d <= result <= %d }' % rng(ret))
    elif ret != VOID: out.add('    ensures { 0 <= result }') if 'nonneg' in spec.opts else None
    clause_lines(out, 'ensures', spec.ensures, fn, '    ')
    clause_lines(out, 'raises', spec.raises, fn, '    ')
    out.add('')

_locals = None
def renames(fn, f):
    """specs/locals.json records the local names the annotations use; renamed
    locals are matched by type and order of declaration"""
    global _locals
    if _locals is None:
        p = os.path.join(HERE, '..', 'specs', 'locals.json')
        import json
        _locals = json.load(open(p)) if os.path.exists(p) else {}
    base = _locals.get(fn)
    if not base: return {}
    cur = [(w, str(t)) for w, t in f.localinfo]; names = {w for w, _ in cur}; bn = {w for w, _ in base}
    new = [(w, t) for w, t in cur if w not in bn]; m = {}
    for w, t in base:
        if w in names: continue
        for k, (w2, t2) in enumerate(new):
            if t2 == t: m[w] = w2; del new[k]; break
    return m
def rename_spec(spec, m):
    import copy
    s = copy.deepcopy(spec)
    rx = re.compile(r"\b(%s)\b(?!')" % '|'.join(re.escape(k) for k in m))
    r = lambda t: rx.sub(lambda x: m[x.group(1)], t)
    for l in s.loops:
        l.inv = [(a, r(b)) for a, b in l.inv]; l.variant = r(l.variant) if l.variant else None
        l.start, l.end, l.pre, l.after = [[r(x) for x in q] for q in (l.start, l.end, l.pre, l.after)]
    s.post = [r(x) for x in s.post]
    s.hooks = {k: [r(x) for x in v] for k, v in s.hooks.items()}
    s.ghostargs = {k: [r(x) for x in v] for k, v in s.ghostargs.items()}
    return s

def module(ctx, fn, prelude):
    """WhyML module verifying fn against its contract, callees through theirs."""
    spec = ctx.specs[fn]
    unit = ctx.unit_for(fn)
    f = Fn(unit, fn, spec, ctx).run()
    m = renames(fn, f)
    if m:
        spec = rename_spec(spec, m); f = Fn(unit, fn, spec, ctx).run(); f.renamed = m
    out = Out()
    out.add('module F_%s' % why_id(fn))
    for u in list(prelude) + [x for x in spec.uses]: out.add('  use %s' % u)
    done = set(BASEMAPS) | ctx.predeclared | mlw_refs()
    fieldmaps = sorted(m for m in f.maps if m.startswith('f_'))
    refs = set()
    for c in [fn] + sorted(f.called):
        sp = ctx.specs[c]
        for w in sp.writes + sp.reads:
            if w != '-': refs.add(w)
    for m in sorted(set(fieldmaps) | {r for r in refs if r.startswith('f_')}):
        if m not in done:
            done.add(m)
            out.add('  val ref %s : map int int' % m)
        if m not in ctx.predeclared and m not in ('f_type', 'f_car', 'f_cdr'):
            out.add('  val load_%s (a: int) : int requires { vs[a] } ensures { result = %s[a] }' % (m, m))
            out.add('  val store_%s (a x: int) : unit requires { vs[a] } writes { %s } ensures { %s = set (old %s) a x }' % (m, m, m, m))
    for r in refs:
        if not r.startswith('f_') and not r.startswith('m') : f.globs.add((r, PTR(VOID), 'ref')) if r not in done and not any(g[0] == r for g in f.globs) else None
    glob_decls(out, f.globs, done)
    for x in spec.extra: out.add('  ' + one(x))
    for bs, nm in sorted(f.lits.items(), key=lambda x: int(x[1][4:])):
        cs = list(bs) + [0]
        cs = [c - 256 if c > 127 else c for c in cs]
        out.add('  (* %s *)' % repr(bytes(b & 255 for b in bs)).replace('*', '\\x2a').replace('"', '\\x22'))
        out.add('  val %s () : int ensures { 0 < result } ensures { forall k. 0 <= k <= %d -> v8[result + k] }' % (nm, len(cs) - 1))
        if any(u.startswith('scm.') for u in spec.uses): out.add('    ensures { result + %d <= g_cells \\/ g_cells + 24 * g_ARENA_SIZE <= result }' % len(cs))
        if 'heap.Heap' in spec.uses: out.add('    ensures { result + %d <= hs }' % len(cs))      # static data lies below the heap
        if any(u.startswith(('scm.', 'heap.', 'out.')) for u in spec.uses) and 'mem.Str' in spec.uses and 0 not in bs: out.add('    ensures { vstr m8 v8 result /\\ slen m8 result = %d }' % len(bs))
        out.add('    ensures { %s }' % ' /\\ '.join('m8[result + %d] = %s' % (i, c if c >= 0 else '(%d)' % c) for i, c in enumerate(cs)))
    rec = fn in f.called
    for c in sorted(f.called):
        if c != fn: stub(ctx, out, c, unit)
    rt = 'unit' if f.ret == VOID else 'int'
    out.add('  let %s%s %s : %s' % ('rec ' if rec else '', why_id(fn), why_params(f.formals, spec), rt))
    for w, t in f.formals:
        if is_int(t): out.add('    requires { %d <= %s <= %d }' % (rng(t)[0], w, rng(t)[1]), '%s argument range %s' % (fn, w))
    for w, t, k in sorted(f.globs, key=lambda x: x[0]):
        if k == 'ref' and is_int(t): out.add('    requires { %d <= %s <= %d }' % (rng(t)[0], w, rng(t)[1]), '%s global range %s' % (fn, w))
    clause_lines(out, 'requires', spec.requires, fn, '    ')
    if spec.variant: out.add('    variant { %s }' % one(spec.variant), '%s variant' % fn)
    if spec.diverges: out.add('    diverges')
    w = effects(spec)
    if w: out.add('    writes { %s }' % ', '.join(w))
    clause_lines(out, 'ensures', spec.ensures, fn, '    ')
    clause_lines(out, 'raises', spec.raises, fn, '    ')
    out.add('  =')
    for x in w:
        out.add('  let ghost %s_in = %s in' % (x, x))
    for p in spec.pre: out.add('  ' + one(p) + (';' if not one(p).endswith(' in') else ''), '%s ghost code' % fn)
    vms = sorted(set(x[0] for x in f.local_allocs))
    heap = 'heap.Heap' in spec.uses       # then other memory may become valid meanwhile
    for v in vms: out.add('  let ghost saved_%s = %s in' % (v, v))
    for h in f.head: out.add('  ' + h)
    for d in f.decls: out.add('  ' + d)
    rest = ''.join('release_%s %s %s; ' % x for x in f.local_allocs) if heap else ''.join('restore_%s saved_%s; ' % (v, v) for v in vms)
    if f.ret == VOID:
        out.add('  exception Return_ in begin try')
        out.add(f.body, fn + ' body')
        out.add('  with Return_ -> () end end; %s' % rest)
        for p in spec.post: out.add('  ' + (one(p) if one(p).endswith(' in') else 'ghost (' + one(p) + ');'), '%s ghost code' % fn)
        out.add('  ()')
    else:
        out.add('  exception Return_ int in')
        out.add(('  [@vc:sp] ' if 'sp' in spec.opts else '  ') + 'let result_ = begin try')
        out.add(f.body + ';', fn + ' body')
        out.add('  noret_ () with Return_ r_ -> r_ end end in %s' % rest)
        for p in spec.post: out.add('  ' + (one(p) if one(p).endswith(' in') else 'ghost (' + one(p) + ');'), '%s ghost code' % fn)
        out.add('  result_')
    out.add('end')
    return f, out

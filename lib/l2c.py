"""LLVM IR -> C for CBMC, with unwinding made explicit.

Kani ends a path at a panic. For what happens *after* a panic in user code, rustc's own output is used:
the harness is compiled by rustc with panic=unwind and fat LTO (std included) to LLVM IR, where every call
that may unwind names its landing pad. This translator turns the functions reachable from a harness into C:
a panic sets a flag, every call is followed by a test of the flag that goes to the landing pad (invoke) or
leaves the function (call), `resume` leaves it again. CBMC executes the result symbolically.

Memory stays as the IR has it (bytes, offsets); words of 8 bytes are accessed as pointers so that CBMC keeps
track of what they point to. Anything not understood raises Unsupported, or becomes an assertion
"UNSUPPORTED" at that place: then the harness is undecided, never violated.
"""
import re


class Unsupported(Exception):
    pass


TOK = re.compile(r'''\s*(?:(?P<loc>%(?:"[^"]*"|[\w.$-]+))|(?P<glo>@(?:"[^"]*"|[\w.$-]+))|(?P<cstr>c"[^"]*")|(?P<str>"[^"]*")'''
                 r'''|(?P<meta>![\w.]*)|(?P<attr>\#\d+)|(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+)|(?P<id>[A-Za-z_][\w.]*)|(?P<p>\.\.\.|[()\[\]{}<>,=*:|]))''')


def tokens(s):
    r, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('cannot read: ' + s[i:i + 60])
        r.append(m[0].strip())
        i = m.end()
    return r


# types: ('i', n) ('ptr',) ('void',) ('arr', n, t) ('st', (t...), packed) ('vec', n, t) ('lab',) ('meta',) ('f', name)
class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ''

    def next(self):
        self.i += 1
        return self.t[self.i - 1] if self.i <= len(self.t) else ''

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise Unsupported('expected %s, found %s in %s' % (x, self.peek(), ' '.join(self.t)[:200]))

    def paren(self):
        """skips a parenthesised group that starts here"""
        d = 0
        while True:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    return
            elif x == '':
                return


ATTR = set('''noundef nonnull noalias nofree nocapture captures dereferenceable dereferenceable_or_null align zeroext signext inreg returned readonly
readnone writeonly sret byval range initializes immarg noext nocallback swiftself allocptr allocalign dead_on_unwind writable nest dead_on_return nofpclass'''.split())
FLAGS = set('inbounds nuw nusw nsw exact disjoint nneg samesign nnan ninf nsz arcp contract afn reassoc fast inrange'.split())


def is_type(x):
    return bool(re.fullmatch(r'i\d+|ptr|void|label|metadata|float|double|half|x86_fp80', x)) or x in ('[', '{', '<')


def ptype(p):
    x = p.next()
    if re.fullmatch(r'i\d+', x):
        return ('i', int(x[1:]))
    if x == 'ptr':
        if p.eat('addrspace'):
            p.paren()
        return ('ptr',)
    if x == 'void':
        return ('void',)
    if x == 'label':
        return ('lab',)
    if x == 'metadata':
        return ('meta',)
    if x in ('float', 'double', 'half', 'x86_fp80'):
        return ('f', x)
    if x == '[':
        n = int(p.next())
        p.need('x')
        t = ptype(p)
        p.need(']')
        return ('arr', n, t)
    if x == '<' and p.peek() == '{':
        p.next()
        ts = []
        while not p.eat('}'):
            ts.append(ptype(p))
            p.eat(',')
        p.need('>')
        return ('st', tuple(ts), True)
    if x == '<':
        n = int(p.next())
        p.need('x')
        t = ptype(p)
        p.need('>')
        return ('vec', n, t)
    if x == '{':
        ts = []
        while not p.eat('}'):
            ts.append(ptype(p))
            p.eat(',')
        return ('st', tuple(ts), False)
    raise Unsupported('type ' + x)


def pattrs(p):
    while p.peek() in ATTR:
        x = p.next()
        if p.peek() == '(':
            p.paren()
        elif x == 'align':
            p.next()


def size(t):
    k = t[0]
    if k == 'i':
        n = (t[1] + 7) // 8
        s = 1
        while s < n:
            s *= 2
        return s
    if k == 'ptr':
        return 8
    if k == 'arr' or k == 'vec':
        return t[1] * size(t[2])
    if k == 'st':
        return offsets(t)[1]
    raise Unsupported('size of %r' % (t,))


def align(t):
    k = t[0]
    if k == 'i':
        return min(16, size(t))
    if k == 'ptr':
        return 8
    if k == 'arr':
        return align(t[2])
    if k == 'vec':
        return size(t)
    if k == 'st':
        return 1 if t[2] else max([align(x) for x in t[1]] + [1])
    return 1


def offsets(t):
    o, r, a = 0, [], 1
    for x in t[1]:
        al = 1 if t[2] else align(x)
        a = max(a, al)
        o = (o + al - 1) // al * al
        r.append(o)
        o += size(x)
    return r, (o + a - 1) // a * a


def width(n):
    """bits of the C type that holds iN"""
    for w in (8, 16, 32, 64, 128):
        if n <= w:
            return w
    raise Unsupported('i%d' % n)


class Module:
    def __init__(self, text):
        self.funcs, self.globs, self.decls = {}, {}, {}
        it = iter(text.split('\n'))
        self.alias = {}
        for l in it:
            if l.startswith('define '):
                m = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
                body = []
                for b in it:
                    if b == '}':
                        break
                    body.append(b)
                self.funcs[m[1].strip('"')] = (l, body)
            elif l.startswith('@'):
                m = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)', l)
                self.globs[m[1].strip('"')] = m[2]
                a = re.match(r'.*\balias\b.*ptr @("[^"]*"|[\w.$-]+)', m[2])
                if a and ' alias ' in ' ' + m[2]:
                    self.alias[m[1].strip('"')] = a[1].strip('"')
            elif l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
                self.decls[m[1].strip('"')] = l


# what ends the translation: calls into the panic machinery
def special(name):
    if name.startswith('vp_'):
        return 'rt'
    if name.startswith('llvm.'):
        return 'intrinsic'
    if name in ('memcpy', 'memmove', 'memset', 'bcmp', 'memcmp', 'strlen'):
        return 'libc'
    if name.startswith('_R'):
        if re.search(r'___rust_alloc(?![a-z_])', name):
            return 'alloc'
        if '___rust_alloc_zeroed' in name:
            return 'zalloc'
        if '___rust_dealloc' in name:
            return 'dealloc'
        if '___rust_realloc' in name:
            return 'realloc'
        if '___rust_no_alloc_shim' in name:
            return 'nop'
        if '4core9panicking' in name or '3std9panicking' in name:
            if re.search(r'panic_cannot_unwind|panic_in_cleanup|panic_nounwind|rust_panic_with_hook', name):
                return 'abort'
            return 'panic'
        if re.search(r'5alloc7raw_vec(12handle_error|17capacity_overflow)|5alloc5alloc18handle_alloc_error|13capacity_overflow', name):
            return 'oom'
        if re.search(r'slice_index_fail|unwrap_failed|expect_failed|slice_(start|end)_index|5slice5index.*fail|len_mismatch_fail|copy_from_slice', name) and 'INv' not in name[:6]:
            return 'panic'
    if name in ('abort', 'rust_begin_unwind'):
        return 'abort'
    return None


class Translator:
    def __init__(self, mod):
        self.m = mod
        self.structs, self.sdefs = {}, []
        self.out, self.protos, self.done = [], [], set()
        self.queue = []
        self.cname = {}
        self.gdone, self.gout = {}, []
        self.encoded = []

    # -- types in C
    def ct(self, t):
        k = t[0]
        if k == 'i':
            return 'u%d' % width(t[1])
        if k == 'ptr':
            return 'ptr'
        if k == 'void':
            return 'void'
        if k in ('st', 'arr', 'vec'):
            if t not in self.structs:
                if k == 'st':
                    fs = ' '.join('%s f%d;' % (self.ct(x), i) for i, x in enumerate(t[1]))
                else:
                    fs = '%s f[%d];' % (self.ct(t[2]), max(1, t[1]))
                n = 'S%d' % len(self.structs)
                self.structs[t] = n
                self.sdefs.append('typedef struct { %s } %s;' % (fs or 'u8 none;', n))
            return self.structs[t]
        raise Unsupported('type %r' % (t,))

    def fname(self, n):
        n = self.m.alias.get(n, n)
        if n not in self.cname:
            self.cname[n] = n if re.fullmatch(r'\w+', n) and (n.startswith('h_')) else 'f%d_%s' % (len(self.cname), re.sub(r'\W', '_', n)[-40:])
            self.queue.append(n)
        return self.cname[n]

    # -- constants
    def const(self, p, t):
        """reads a constant of type t; -> C expression"""
        x = p.peek()
        if x in ('undef', 'poison'):
            p.next()
            return self.undef(t)
        if x == 'zeroinitializer':
            p.next()
            return self.zero(t)
        if x == 'null':
            p.next()
            return '((ptr)0)'
        if x in ('true', 'false'):
            p.next()
            return '1' if x == 'true' else '0'
        if re.fullmatch(r'-?\d+', x):
            p.next()
            return self.num(int(x), t)
        if x.startswith('@'):
            p.next()
            return self.gref(x[1:].strip('"'))
        if x in ('getelementptr', 'ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'sub', 'add', 'xor'):
            p.next()
            while p.peek() in FLAGS:
                if p.next() == 'inrange' and p.peek() == '(':
                    p.paren()
            p.need('(')
            if x == 'getelementptr':
                bt = ptype(p)
                p.need(',')
                r = self.gep(p, bt)
                p.need(')')
                return r
            t1 = ptype(p)
            a = self.const(p, t1)
            if p.eat('to'):
                t2 = ptype(p)
                p.need(')')
                return self.cast(x, a, t1, t2)
            p.need(',')
            t2 = ptype(p)
            b = self.const(p, t2)
            p.need(')')
            return self.binop(x, a, b, t1)
        if x == 'splat':
            p.next()
            p.need('(')
            t1 = ptype(p)
            a = self.const(p, t1)
            p.need(')')
            return '((%s){{%s}})' % (self.ct(t), ','.join([a] * t[1]))
        if x in ('{', '[', '<'):
            p.next()
            packed = x == '<' and p.eat('{')
            close = '}' if packed or x == '{' else {'[': ']', '<': '>'}[x]
            vs = []
            while not p.eat(close):
                et = ptype(p)
                vs.append(self.const(p, et))
                p.eat(',')
            if packed:
                p.need('>')
            if t[0] == 'st':
                return '((%s){%s})' % (self.ct(t), ','.join(vs))
            return '((%s){{%s}})' % (self.ct(t), ','.join(vs))
        raise Unsupported('constant ' + x)

    def num(self, v, t):
        if t[0] == 'ptr':
            return '((ptr)%dull)' % v
        n = t[1]
        v &= (1 << n) - 1
        if n > 64:
            return '((((u128)%dull)<<64)|%dull)' % (v >> 64, v & (2 ** 64 - 1))
        return '((%s)%dull)' % (self.ct(t), v)

    def zero(self, t):
        if t[0] in ('st', 'arr', 'vec'):
            return '((%s){0})' % self.ct(t)
        return '((%s)0)' % self.ct(t)

    def undef(self, t):
        if t[0] == 'i':
            return self.mask('nondet_u%d()' % width(t[1]), t[1])
        if t[0] == 'ptr':
            return '((ptr)nondet_u64())'
        if t[0] == 'st':
            return '((%s){%s})' % (self.ct(t), ','.join(self.undef(x) for x in t[1]))
        return '((%s){{%s}})' % (self.ct(t), ','.join(self.undef(t[2]) for _ in range(t[1])))

    def gref(self, n):
        n = self.m.alias.get(n, n)
        if n in self.m.funcs or n in self.m.decls:
            if special(n):
                return '((ptr)16)'
            # the address of a function: only worth translating where the harness hands it over
            if 'vp_' in n or getattr(self, 'want_fn', False):
                return '((ptr)%s)' % self.fname(n)
            return '((ptr)%dull)' % (4096 + 16 * len(self.gdone))
        return '((ptr)&%s)' % self.glob(n)

    def glob(self, n):
        if n in self.gdone:
            return self.gdone[n]
        c = 'g%d' % len(self.gdone)
        self.gdone[n] = c
        d = self.m.globs.get(n)
        if d is None:
            raise Unsupported('global ' + n)
        m = re.match(r'(?:(?:private|internal|external|linkonce_odr|weak|hidden|dso_local|local_unnamed_addr|unnamed_addr|thread_local(?:\(\w+\))?|extern_weak) )*(constant|global) (.*)', d)
        if not m:
            raise Unsupported('global ' + d[:80])
        toks = tokens(re.sub(r', (section|align|comdat|!).*$', '', re.sub(r'c"([^"]*)"', lambda x: x[0].replace(' ', '\\20'), m[2])))
        p = P(toks)
        t = ptype(p)
        w = self.flat(p, t)
        # bytes as a list of (size, C expression); words of 8 where aligned
        total = size(t)
        if w is None:
            self.gout.append('static ptr %s[%d];' % (c, (total + 7) // 8))
        else:
            items, bs = [], []
            if total % 8 == 0 and all(s in (1, 8) for s, _ in w):
                i = 0
                ok = True
                acc = []
                for s, e in w:
                    if s == 8 and len(acc) % 8 == 0:
                        if acc:
                            items += self.words(acc)
                            acc = []
                        items.append(e)
                    elif s == 1:
                        acc.append(e)
                    else:
                        ok = False
                if acc:
                    items += self.words(acc)
                if ok:
                    self.gout.append('static ptr %s[%d] = {%s};' % (c, max(1, total // 8), ','.join('(ptr)(%s)' % x for x in items)))
                    return c
            if all(s == 1 for s, _ in w):
                self.gout.append('static u8 %s[%d] = {%s};' % (c, max(1, total), ','.join(str(e) for _, e in w)))
            else:
                raise Unsupported('layout of global ' + n)
        return c

    @staticmethod
    def words(b):
        return ['%dull' % sum(int(x) << (8 * k) for k, x in enumerate(b[i:i + 8])) for i in range(0, len(b), 8)]

    def flat(self, p, t):
        """constant -> [(1, byte) | (8, pointer expression)]"""
        x = p.peek()
        if x.startswith('c"'):
            p.next()
            s = x[2:-1]
            r, i = [], 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\':
                        r.append((1, 92))
                        i += 2
                    else:
                        r.append((1, int(s[i + 1:i + 3], 16)))
                        i += 3
                else:
                    r.append((1, ord(s[i])))
                    i += 1
            return r
        if x in ('zeroinitializer', 'undef', 'poison', 'null'):
            p.next()
            return [(1, 0)] * size(t)
        if t[0] == 'i' and re.fullmatch(r'-?\d+|true|false', x):
            p.next()
            v = int(x) if x not in ('true', 'false') else int(x == 'true')
            n = size(t)
            return [(1, b) for b in (v & ((1 << 8 * n) - 1)).to_bytes(n, 'little')]
        if t[0] == 'ptr':
            return [(8, self.const(p, t))]
        if t[0] == 'st' or t[0] == 'arr':
            if x == '<':
                p.next()
                p.need('{')
            else:
                p.next()
            r, os_ = [], offsets(t)[0] if t[0] == 'st' else None
            k = 0
            while p.peek() not in ('}', ']'):
                et = ptype(p)
                if os_:
                    n = sum(s for s, _ in r)
                    r += [(1, 0)] * (os_[k] - n)
                r += self.flat(p, et)
                p.eat(',')
                k += 1
            p.next()
            if x == '<':
                p.need('>')
            return r + [(1, 0)] * (size(t) - sum(s for s, _ in r))
        raise Unsupported('initialiser ' + x)

    # -- operations
    def mask(self, e, n):
        if n == width(n):
            return '((u%d)(%s))' % (n, e)
        return '((u%d)((%s)&%dull))' % (width(n), e, (1 << n) - 1)

    def sx(self, e, n):
        w = width(n)
        if n == w:
            return '((s%d)(%s))' % (w, e)
        return '((s%d)((s%d)((u%d)(%s)<<%d)>>%d))' % (w, w, w, e, w - n, w - n)

    def binop(self, op, a, b, t):
        if t[0] == 'vec':
            raise Unsupported('vector ' + op)
        if t[0] != 'i':
            raise Unsupported(op + ' on %r' % (t,))
        n = t[1]
        c = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^', 'udiv': '/', 'urem': '%'}
        u = 'u%d' % max(32, width(n))
        if op in c:
            return self.mask('(%s)%s %s (%s)%s' % (u, a, c[op], u, b), n)
        if op in ('shl', 'lshr'):
            return self.mask('(%s)%s %s (%s)' % (u, a, '<<' if op == 'shl' else '>>', b), n)
        if op == 'ashr':
            return self.mask('(u%d)(%s >> (%s))' % (width(n), self.sx(a, n), b), n)
        if op in ('sdiv', 'srem'):
            return self.mask('(u%d)(%s %s %s)' % (width(n), self.sx(a, n), '/' if op == 'sdiv' else '%', self.sx(b, n)), n)
        raise Unsupported(op)

    def cast(self, op, a, t1, t2):
        if op in ('bitcast', 'addrspacecast') and t1 == t2:
            return a
        if t1[0] == 'vec' or t2[0] == 'vec':
            raise Unsupported('vector cast')
        if op in ('zext', 'trunc'):
            return self.mask('(u%d)%s' % (width(t2[1]), a), t2[1])
        if op == 'sext':
            return self.mask('(u%d)(s%d)%s' % (width(t2[1]), width(t2[1]), self.sx(a, t1[1])), t2[1])
        if op in ('ptrtoint', 'ptrtoaddr'):
            return self.mask('(u64)%s' % a, t2[1])
        if op == 'inttoptr':
            return '((ptr)(u64)%s)' % a
        raise Unsupported('%s %r %r' % (op, t1, t2))

    def gep(self, p, bt, val=None):
        val = val or self.const
        t = ptype(p)
        if t[0] != 'ptr':
            raise Unsupported('vector getelementptr')
        base = val(p, t)
        off, const = [], 0
        first, cur = True, bt
        while p.eat(','):
            if p.peek().startswith('!'):
                break
            it = ptype(p)
            x = p.peek()
            if first:
                step = size(cur) if cur[0] != 'void' else 1
                first = False
            elif cur[0] == 'st':
                k = int(p.next())
                const += offsets(cur)[0][k]
                cur = cur[1][k]
                continue
            else:
                cur = cur[2]
                step = size(cur)
            if re.fullmatch(r'-?\d+', x):
                p.next()
                const += int(x) * step
            else:
                off.append('(s64)%s*%d' % (self.sx(val(p, it), it[1]), step))
        e = ' + '.join(off + (['%d' % const] if const or not off else []))
        return base if e == '0' else '(%s + (s64)(%s))' % (base, e)

    # -- functions
    def function(self, name):
        head, body = self.m.funcs[name]
        return Func(self, name, head, body).emit()

    def translate(self, roots):
        for r in roots:
            self.fname(r)
        texts = []
        while self.queue:
            n = self.queue.pop(0)
            if n in self.done:
                continue
            self.done.add(n)
            if n not in self.m.funcs:
                raise Unsupported('no code for ' + n)
            texts.append(self.function(n))
            self.encoded.append(n)
        return '\n'.join(self.sdefs) + '\n' + '\n'.join(self.protos) + '\n' + '\n'.join(self.gout) + '\n' + '\n'.join(texts)


def order(entry, nodes, succ):
    """topological order of the strongly connected components, each one ordered in the same way from its header"""
    nodes = set(nodes)
    index, low, stack, on, comps = {}, {}, [], set(), []
    work = [(entry, iter(succ[entry]))]
    index[entry] = low[entry] = 0
    stack.append(entry)
    on.add(entry)
    while work:
        v, it = work[-1]
        for w in it:
            if w not in nodes:
                continue
            if w not in index:
                index[w] = low[w] = len(index)
                stack.append(w)
                on.add(w)
                work.append((w, iter(succ[w])))
                break
            elif w in on:
                low[v] = min(low[v], index[w])
        else:
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == index[v]:
                c = []
                while True:
                    w = stack.pop()
                    on.discard(w)
                    c.append(w)
                    if w == v:
                        break
                comps.append(c)
    comps.reverse()
    r = []
    for c in comps:
        if len(c) == 1:
            r += c
            continue
        cs = set(c)
        heads = [w for w in c if w == entry or any(w in succ[u] for u in index if u not in cs)]
        h = heads[0]
        sub = {u: [w for w in succ[u] if w in cs and w != h] for u in c}
        done = order(h, c, sub)
        # an irreducible loop may have blocks that are not reached without its header
        r += done + [w for w in c if w not in done]
    return r


class Func:
    def __init__(self, tr, name, head, body):
        self.tr, self.name, self.vars = tr, name, {}
        self.decl, self.lines = [], []
        self.head, self.body = head, body

    def loc(self, x):
        if x not in self.vars:
            self.vars[x] = 'v%d' % len(self.vars)
        return self.vars[x]

    def val(self, p, t):
        if p.peek() == 'freeze':
            p.next()
        x = p.peek()
        if x.startswith('%'):
            p.next()
            return self.loc(x)
        return self.tr.const(p, t)

    def tv(self, p):
        t = ptype(p)
        pattrs(p)
        return t, self.val(p, t)

    def lab(self, x):
        return 'L_' + self.labs.setdefault(x.strip('%').strip('"'), str(len(self.labs)))

    def define(self, x, t):
        v = self.loc(x)
        self.decl.append('%s %s;' % (self.tr.ct(t), v))
        self.types[x] = t
        return v

    def emit(self):
        tr = self.tr
        self.labs, self.types = {}, {}
        h = self.head
        i = h.index('@')
        p = P(tokens(h[:i]))
        ts = [x for x in p.t[1:]]
        # return type: the last type before the name
        q = P(ts)
        rt = None
        while q.i < len(ts):
            if is_type(q.peek()):
                rt = ptype(q)
            else:
                x = q.next()
                if q.peek() == '(':
                    q.paren()
        self.rt = rt
        j = h.index('(', i)
        p = P(tokens(re.sub(r'\s*(personality|!).*$', '', h[j:]).rstrip('{ ')))
        p.need('(')
        args = []
        while not p.eat(')'):
            if p.eat('...'):
                continue
            t = ptype(p)
            pattrs(p)
            n = p.next()
            args.append((t, self.loc(n)))
            p.eat(',')
        cn = tr.fname(self.name)
        sig = '%s %s(%s)' % (tr.ct(rt), cn, ', '.join('%s %s' % (tr.ct(t), n) for t, n in args) or 'void')
        tr.protos.append(sig + ';')
        # blocks
        blocks, cur = [], None
        lines = []
        for l in self.body:
            if not l.strip() or l.lstrip().startswith(';'):
                continue
            if not l.startswith(' '):
                m = re.match(r'("[^"]*"|[\w.$-]+):', l)
                cur = (m[1].strip('"'), [])
                blocks.append(cur)
                continue
            if cur is None:
                cur = ('__entry', [])
                blocks.append(cur)
            if l.startswith('   ') or l.strip() == ']':
                cur[1][-1] += ' ' + l.strip()
            else:
                cur[1].append(l.strip())
        self.phis = {}
        names = set(b for b, _ in blocks)
        parsed = []
        for b, ins in blocks:
            parsed.append((b, [P(tokens(self.strip(x))) for x in ins]))
        for b, ins in parsed:
            for p in ins:
                if p.t[1:3] == ['=', 'phi']:
                    p.i = 3
                    t = ptype(p)
                    v = self.define(p.t[0], t)
                    inc = {}
                    while p.eat('[') or (p.eat(',') and p.eat('[')):
                        x = self.val(p, t)
                        p.need(',')
                        src = p.next().strip('%').strip('"')
                        inc[src if src in names else '__entry'] = x
                        p.need(']')
                    self.phis.setdefault(b, []).append((v, tr.ct(t), inc))
        # blocks in an order in which only the edges that close a loop go backwards, and loops are contiguous:
        # CBMC merges paths in program order
        succ = {}
        for b, ins in parsed:
            t = ins[-1].t
            succ[b] = [x for x in (t[i + 1].strip('%').strip('"') for i in range(len(t) - 1) if t[i] == 'label') if x in names]
        rank = {b: i for i, b in enumerate(order(blocks[0][0], list(succ), succ))}
        parsed = sorted([x for x in parsed if x[0] in rank], key=lambda x: rank[x[0]])
        for k, (b, ins) in enumerate(parsed):
            self.cur = b
            self.lines.append('%s: ;' % self.lab(b))
            for p in ins:
                if p.t[1:3] != ['=', 'phi']:
                    p.i = 0
                    self.inst(p)
        # leaving by a panic does not touch the result: CBMC then need not merge it with that of a normal return
        ret = ('', 'return;') if rt == ('void',) else ('%s ret;\n' % tr.ct(rt), 'return ret;')
        text = sig + ' {\n' + ret[0] + '\n'.join(self.decl) + '\n' + '\n'.join(self.lines) + '\nL_END: ' + ret[1] + '\n}\n'
        return text.replace('@RETZERO@', 'goto L_END;')

    @staticmethod
    def strip(l):
        l = re.sub(r'(, ![\w.]+ (![\w.]+|!\{[^}]*\}))+', '', l)
        l = re.sub(r' #\d+', '', l)
        return re.sub(r'\[ "[^"]*"\([^)]*\)[^\]]*\]', '', l)

    def jump(self, dest):
        d = dest.strip('%').strip('"')
        ph = self.phis.get(d, [])
        if not ph:
            return 'goto %s;' % self.lab(d)
        if len(ph) == 1:
            return '{ %s = %s; goto %s; }' % (ph[0][0], ph[0][2][self.cur], self.lab(d))
        return '{ ' + ' '.join('%s t%d = %s;' % (c, i, inc[self.cur]) for i, (v, c, inc) in enumerate(ph)) + ' ' + \
            ' '.join('%s = t%d;' % (v, i) for i, (v, c, inc) in enumerate(ph)) + ' goto %s; }' % self.lab(d)

    # memory
    def load(self, a, t):
        if t == ('ptr',):
            return '(*(ptr*)%s)' % a
        if t == ('i', 64):
            return '((u64)(*(ptr*)%s))' % a
        if t[0] == 'i':
            return self.tr.mask('*(u%d*)%s' % (width(t[1]), a), t[1])
        raise Unsupported('load of %r' % (t,))

    def store(self, a, v, t):
        if t == ('ptr',):
            return '*(ptr*)%s = %s;' % (a, v)
        if t == ('i', 64):
            return '*(ptr*)%s = (ptr)(%s);' % (a, v)
        if t[0] == 'i':
            return '*(u%d*)%s = %s;' % (width(t[1]), a, v)
        raise Unsupported('store of %r' % (t,))

    def inst(self, p):
        tr, add = self.tr, self.lines.append
        dst = None
        if p.peek(1) == '=':
            dst = p.next()
            p.next()
        while p.peek() in ('tail', 'musttail', 'notail'):
            p.next()
        op = p.next()
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr'):
            while p.peek() in FLAGS:
                p.next()
            t = ptype(p)
            a = self.val(p, t)
            p.need(',')
            b = self.val(p, t)
            v = self.define(dst, t)
            add('%s = %s;' % (v, tr.binop(op, a, b, t)))
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'ptrtoaddr', 'inttoptr', 'bitcast', 'addrspacecast'):
            while p.peek() in FLAGS:
                p.next()
            t, a = self.tv(p)
            p.need('to')
            t2 = ptype(p)
            add('%s = %s;' % (self.define(dst, t2), tr.cast(op, a, t, t2)))
        elif op == 'icmp':
            while p.peek() in FLAGS:
                p.next()
            c = p.next()
            t = ptype(p)
            a = self.val(p, t)
            p.need(',')
            b = self.val(p, t)
            if t[0] == 'ptr':
                e = {'eq': '%s == %s', 'ne': '%s != %s'}.get(c)
                if not e:
                    e = '(u64)%s ' + {'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[c] + ' (u64)%s'
            elif t[0] == 'i':
                s = c[0] == 's'
                o = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[c if c in ('eq', 'ne') else c[1:]]
                if s:
                    a, b = tr.sx(a, t[1]), tr.sx(b, t[1])
                e = '%s ' + o + ' %s'
            else:
                raise Unsupported('icmp on %r' % (t,))
            add('%s = (%s);' % (self.define(dst, ('i', 1)), e % (a, b)))
        elif op == 'select':
            while p.peek() in FLAGS:
                p.next()
            _, c = self.tv(p)
            p.need(',')
            t, a = self.tv(p)
            p.need(',')
            _, b = self.tv(p)
            v = self.define(dst, t)
            add('if (%s) %s = %s; else %s = %s;' % (c, v, a, v, b))
        elif op == 'freeze':
            t, a = self.tv(p)
            add('%s = %s;' % (self.define(dst, t), a))
        elif op == 'getelementptr':
            while p.peek() in FLAGS:
                p.next()
            bt = ptype(p)
            p.need(',')
            e = tr.gep(p, bt, self.val)
            add('%s = %s;' % (self.define(dst, ('ptr',)), e))
        elif op == 'alloca':
            t = ptype(p)
            n = size(t)
            if p.eat(','):
                if p.peek() != 'align':
                    raise Unsupported('alloca of many')
            v = self.define(dst, ('ptr',))
            if n % 8 == 0:
                self.decl.append('ptr a_%s[%d];' % (v, max(1, n // 8)))
            elif n % 4 == 0:
                self.decl.append('u32 a_%s[%d];' % (v, n // 4))
            else:
                self.decl.append('u8 a_%s[%d];' % (v, max(1, n)))
            add('%s = (ptr)&a_%s[0];' % (v, v))
        elif op == 'load':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = ptype(p)
            p.need(',')
            _, a = self.tv(p)
            v = self.define(dst, t)
            if t[0] == 'st' or t[0] == 'arr':
                self.ldagg(v, a, t)
            else:
                add('%s = %s;' % (v, self.load(a, t)))
        elif op == 'store':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t, x = self.tv(p)
            p.need(',')
            _, a = self.tv(p)
            if t[0] in ('st', 'arr', 'vec'):
                self.stagg(x, a, t)
            else:
                add(self.store(a, x, t))
        elif op == 'extractvalue':
            t, a = self.tv(p)
            path = ''
            while p.eat(','):
                k = int(p.next())
                path += '.f%d' % k if t[0] == 'st' else '.f[%d]' % k
                t = t[1][k] if t[0] == 'st' else t[2]
            add('%s = %s%s;' % (self.define(dst, t), a, path))
        elif op == 'insertvalue':
            t, a = self.tv(p)
            p.need(',')
            _, x = self.tv(p)
            path, u = '', t
            while p.eat(','):
                k = int(p.next())
                path += '.f%d' % k if u[0] == 'st' else '.f[%d]' % k
                u = u[1][k] if u[0] == 'st' else u[2]
            v = self.define(dst, t)
            add('%s = %s; %s%s = %s;' % (v, a, v, path, x))
        elif op == 'br':
            if p.eat('label'):
                add(self.jump(p.next()))
            else:
                _, c = self.tv(p)
                p.need(',')
                p.need('label')
                a = p.next()
                p.need(',')
                p.need('label')
                b = p.next()
                add('if (%s) %s else %s' % (c, self.jump(a), self.jump(b)))
        elif op == 'switch':
            t, c = self.tv(p)
            p.need(',')
            p.need('label')
            d = p.next()
            p.need('[')
            while not p.eat(']'):
                t2 = ptype(p)
                x = self.val(p, t2)
                p.need(',')
                p.need('label')
                add('if (%s == %s) %s' % (c, x, self.jump(p.next())))
            add(self.jump(d))
        elif op == 'ret':
            if p.peek() == 'void':
                add('goto L_END;')
            else:
                _, a = self.tv(p)
                add('ret = %s; goto L_END;' % a)
        elif op == 'unreachable':
            add('__CPROVER_assert(0, "CODE unreachable code is reached"); __CPROVER_assume(0); @RETZERO@')
        elif op == 'landingpad':
            t = ptype(p)
            v = self.define(dst, t)
            add('vp_exc = 0; %s = %s;' % (v, tr.zero(t)))
        elif op == 'resume':
            add('vp_exc = 1; @RETZERO@')
        elif op in ('call', 'invoke'):
            self.call(p, dst, op == 'invoke')
        elif op == 'fence':
            pass
        else:
            add('__CPROVER_assert(0, "UNSUPPORTED %s"); __CPROVER_assume(0);' % op)
            raise Unsupported(op + ' in ' + self.name)

    def ldagg(self, v, a, t, off=0, path=''):
        if t[0] == 'st':
            for k, (o, x) in enumerate(zip(offsets(t)[0], t[1])):
                self.ldagg(v, a, x, off + o, path + '.f%d' % k)
        elif t[0] == 'arr':
            for k in range(t[1]):
                self.ldagg(v, a, t[2], off + k * size(t[2]), path + '.f[%d]' % k)
        else:
            self.lines.append('%s%s = %s;' % (v, path, self.load('(%s + %d)' % (a, off), t)))

    def stagg(self, x, a, t):
        n = 'x%d' % len(self.decl)
        self.decl.append('%s %s;' % (self.tr.ct(t), n))
        self.lines.append('%s = %s;' % (n, x))

        def go(t, off, path):
            if t[0] == 'st':
                for k, (o, y) in enumerate(zip(offsets(t)[0], t[1])):
                    go(y, off + o, path + '.f%d' % k)
            elif t[0] in ('arr', 'vec'):
                for k in range(t[1]):
                    go(t[2], off + k * size(t[2]), path + '.f[%d]' % k)
            else:
                self.lines.append(self.store('(%s + %d)' % (a, off), n + path, t))
        go(t, 0, '')

    def call(self, p, dst, invoke):
        tr, add = self.tr, self.lines.append
        # calling convention, return attributes
        rt = None
        while True:
            x = p.peek()
            if is_type(x):
                rt = ptype(p)
                if p.peek() == '(':           # variadic prototype
                    p.paren()
                if p.peek().startswith(('@', '%')):
                    break
                continue
            if x == '':
                raise Unsupported('call')
            p.next()
            if p.peek() == '(':
                p.paren()
        callee = p.next()
        p.need('(')
        args = []
        raw = P(p.t)
        raw.i = p.i
        name = callee[1:].strip('"') if callee.startswith('@') else None
        name = tr.m.alias.get(name, name)
        sp = special(name) if name else None
        cut = sp in ('panic', 'abort', 'oom')
        if cut:
            d = 1
            while d:
                y = p.next()
                d += (y == '(') - (y == ')')
        else:
            while not p.eat(')'):
                if p.peek() == 'metadata':
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        y = p.next()
                        d += (y in '([{') - (y in ')]}')
                    p.eat(',')
                    continue
                t = ptype(p)
                pattrs(p)
                if sp == 'rt':
                    tr.want_fn = True
                a = self.val(p, t)
                tr.want_fn = False
                args.append((t, a))
                p.eat(',')
        normal = unwind = None
        if invoke:
            while p.peek() != 'to':
                p.next()
            p.need('to')
            p.need('label')
            normal = p.next()
            p.need('unwind')
            p.need('label')
            unwind = p.next()
        A = [a for _, a in args]
        throws = True
        if sp == 'panic':
            add('vp_panic();')
        elif sp == 'abort':
            add('vp_abort(); __CPROVER_assume(0);')
            throws = False
        elif sp == 'oom':
            add('__CPROVER_assume(0);')
            throws = False
        elif sp == 'alloc':
            add('%s = vp_alloc(%s);' % (self.define(dst, rt), A[0]))
            throws = False
        elif sp == 'zalloc':
            add('%s = vp_zalloc(%s);' % (self.define(dst, rt), A[0]))
            throws = False
        elif sp == 'dealloc':
            add('vp_free(%s);' % A[0])
            throws = False
        elif sp == 'realloc':
            add('%s = vp_realloc(%s, %s, %s);' % (self.define(dst, rt), A[0], A[1], A[3]))
            throws = False
        elif sp == 'nop':
            throws = False
        elif sp == 'intrinsic' or sp == 'libc':
            self.intrinsic(name, args, dst, rt)
            throws = False
        elif sp == 'rt':
            e = '%s(%s)' % (name, ', '.join(A))
            add(('%s = %s;' % (self.define(dst, rt), e)) if dst else e + ';')
        elif name is None:
            add('__CPROVER_assert(0, "UNSUPPORTED indirect call"); __CPROVER_assume(0);')
            if dst:
                self.define(dst, rt)
        elif name not in tr.m.funcs:
            add('__CPROVER_assert(0, "UNSUPPORTED call of %s"); __CPROVER_assume(0);' % re.sub(r'\W', '_', name))
            if dst:
                self.define(dst, rt)
        else:
            e = '%s(%s)' % (tr.fname(name), ', '.join(A))
            add(('%s = %s;' % (self.define(dst, rt), e)) if dst else e + ';')
        if dst and dst not in self.types:
            self.define(dst, rt)
        if invoke:
            if throws:
                add('if (vp_exc) %s' % self.jump(unwind))
            add(self.jump(normal))
        elif throws:
            add('if (vp_exc) @RETZERO@')

    def intrinsic(self, name, args, dst, rt):
        tr, add = self.tr, self.lines.append
        A = [a for _, a in args]
        n = name[5:] if name.startswith('llvm.') else name
        if re.match(r'lifetime|experimental.noalias|dbg|invariant|donothing|prefetch', n):
            return
        if n.startswith('assume'):
            add('__CPROVER_assert(%s, "CODE an assumption of the compiler is false"); __CPROVER_assume(%s);' % (A[0], A[0]))
            return
        if n == 'trap':
            add('vp_abort(); __CPROVER_assume(0);')
            return
        m = re.fullmatch(r'\(\(u64\)(\d+)ull\)', A[2]) if len(A) > 2 else None
        if n.startswith(('memcpy', 'memmove')):
            if m:
                k = int(m[1])
                if k <= 256:
                    s, d = 'x%d' % len(self.decl), 'y%d' % len(self.decl)
                    self.decl.append('ptr %s, %s;' % (s, d))
                    w, b = k // 8, k % 8
                    q = 'q%d' % len(self.decl)
                    self.decl.append('ptr %s[%d]; u8 b%s[8];' % (q, max(1, w), q))
                    st = '%s = %s; %s = %s; ' % (d, A[0], s, A[1])
                    st += ' '.join('%s[%d] = *(ptr*)(%s + %d);' % (q, i, s, 8 * i) for i in range(w))
                    st += ' '.join('b%s[%d] = *(u8*)(%s + %d);' % (q, i, s, 8 * w + i) for i in range(b))
                    st += ' '.join('*(ptr*)(%s + %d) = %s[%d];' % (d, 8 * i, q, i) for i in range(w))
                    st += ' '.join('*(u8*)(%s + %d) = b%s[%d];' % (d, 8 * w + i, q, i) for i in range(b))
                    add(st)
                    return
            add('vp_copy(%s, %s, %s);' % tuple(A[:3]))
            if dst:
                add('%s = %s;' % (self.define(dst, rt), A[0]))
            return
        if n.startswith('memset'):
            if m and int(m[1]) % 8 == 0 and int(m[1]) <= 256 and A[1] == '((u8)0ull)':
                add(' '.join('*(ptr*)(%s + %d) = (ptr)0;' % (A[0], 8 * i) for i in range(int(m[1]) // 8)))
            else:
                add('vp_set(%s, %s, %s);' % tuple(A[:3]))
            return
        if n in ('bcmp', 'memcmp'):
            add('%s = vp_bcmp(%s, %s, %s);' % ((self.define(dst, rt),) + tuple(A[:3])))
            return
        v = self.define(dst, rt)
        t = args[0][0] if args else None
        b = n.split('.')[0] + ('.' + n.split('.')[1] if n.split('.')[1] in ('with', 'sat', 'constant') or n.startswith(('expect',)) else '')
        k = t[1] if t and t[0] == 'i' else 0
        if n.startswith(('umax', 'umin', 'smax', 'smin')) and t[0] == 'i':
            a, c = (A[0], A[1]) if n[0] == 'u' else (tr.sx(A[0], k), tr.sx(A[1], k))
            add('%s = (%s %s %s) ? %s : %s;' % (v, a, '>' if n[1:4] == 'max' else '<', c, A[0], A[1]))
        elif '.with.overflow' in n and t[0] == 'i':
            sg, o = n[0] == 's', {'add': '+', 'sub': '-', 'mul': '*'}[n[1:4]]
            w = 'u%d' % (2 * width(k)) if k <= 64 else None
            if not w:
                raise Unsupported(n)
            if not sg:
                add('%s.f0 = %s; %s.f1 = (%s)%s %s (%s)%s != (%s)%s.f0;' % (v, tr.binop(n[1:4], A[0], A[1], t), v, w, A[0], o, w, A[1], w, v))
            else:
                s = 's%d' % (2 * width(k))
                add('%s.f0 = %s; %s.f1 = (%s)%s %s (%s)%s != (%s)%s;' % (v, tr.binop(n[1:4], A[0], A[1], t), v, s, tr.sx(A[0], k), o, s, tr.sx(A[1], k), s, tr.sx(v + '.f0', k)))
        elif n.startswith('usub.sat') and t[0] == 'i':
            add('%s = %s > %s ? %s : 0;' % (v, A[0], A[1], tr.binop('sub', A[0], A[1], t)))
        elif n.startswith('uadd.sat') and t[0] == 'i':
            s = tr.binop('add', A[0], A[1], t)
            add('%s = %s < %s ? %s : %s;' % (v, s, A[0], tr.num(-1, t), s))
        elif n.startswith('is.constant'):
            add('%s = 0;' % v)
        elif n.startswith('expect'):
            add('%s = %s;' % (v, A[0]))
        elif n.startswith(('ctlz', 'cttz', 'ctpop')) and t[0] == 'i':
            add('%s = vp_%s(%s, %d);' % (v, n.split('.')[0], A[0], k))
        elif n.startswith(('fshl', 'fshr')) and t[0] == 'i' and k == width(k):
            l = n[3] == 'l'
            x, y = ('((u%d)%s %% %d)' % (k, A[2], k),) * 2
            hi, lo = A[0], A[1]
            if l:
                add('%s = %s == 0 ? %s : (u%d)(((u%d)%s << %s) | ((u%d)%s >> (%d - %s)));' % (v, x, hi, k, k, hi, x, k, lo, k, x))
            else:
                add('%s = %s == 0 ? %s : (u%d)(((u%d)%s << (%d - %s)) | ((u%d)%s >> %s));' % (v, x, lo, k, k, hi, k, x, k, lo, x))
        elif n.startswith(('ucmp', 'scmp')) and t[0] == 'i':
            a, c = (A[0], A[1]) if n[0] == 'u' else (tr.sx(A[0], k), tr.sx(A[1], k))
            add('%s = %s;' % (v, tr.mask('(%s > %s) - (%s < %s)' % (a, c, a, c), rt[1])))
        elif n.startswith('abs') and t[0] == 'i':
            add('%s = %s < 0 ? %s : %s;' % (v, tr.sx(A[0], k), tr.binop('sub', '0', A[0], t), A[0]))
        else:
            add('__CPROVER_assert(0, "UNSUPPORTED %s"); __CPROVER_assume(0);' % n)


RUNTIME = r'''
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64; typedef unsigned __int128 u128;
typedef signed char s8; typedef short s16; typedef int s32; typedef long s64; typedef __int128 s128;
typedef u8 *ptr;
u8 nondet_u8(void); u16 nondet_u16(void); u32 nondet_u32(void); u64 nondet_u64(void); u128 nondet_u128(void);
void *malloc(u64); void free(void *); void *memcpy(void *, const void *, u64); void *memmove(void *, const void *, u64);
/* unwinding */
u8 vp_exc; u8 vp_user;
void vp_panic(void) { vp_exc = 1; }
void vp_abort(void) { __CPROVER_assert(0, "CODE the process is aborted"); __CPROVER_assume(0); }
/* memory */
ptr vp_alloc(u64 n) { return n % 8 == 0 ? (ptr)malloc(sizeof(ptr) * (n / 8)) : (ptr)malloc(n); }
ptr vp_zalloc(u64 n) { ptr p = (ptr)malloc(n); for (u64 i = 0; i < n; i++) p[i] = 0; return p; }
void vp_free(ptr p) { free(p); }
void vp_copy(ptr d, ptr s, u64 n) { if (n) memmove(d, s, n); }
ptr vp_realloc(ptr p, u64 o, u64 n) { ptr q = (ptr)malloc(n); u64 k = o < n ? o : n; if (k) memcpy(q, p, k); free(p); return q; }
void vp_set(ptr d, u8 v, u64 n) { for (u64 i = 0; i < n; i++) d[i] = v; }
u32 vp_bcmp(ptr a, ptr b, u64 n) { for (u64 i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
u64 vp_ctpop(u64 x, u32 w) { u64 r = 0; for (u32 i = 0; i < w; i++) r += (x >> i) & 1; return r; }
u64 vp_cttz(u64 x, u32 w) { u64 r = w; for (u32 i = w; i > 0; i--) if ((x >> (i - 1)) & 1) r = i - 1; return r; }
u64 vp_ctlz(u64 x, u32 w) { u64 r = w; for (u32 i = 0; i < w; i++) if ((x >> i) & 1) r = w - 1 - i; return r; }
/* what the harness uses */
#define NEL 24
u8 vp_state[NEL];                 /* 0 never was, 1 lives, 2 gone */
u32 vp_vals[64]; u32 vp_nvals;
#ifdef VP_TRACE                   /* the values chosen are of interest even where nothing depends on them: keeps them in the sliced formula */
#define KEEP(c) ((c) || (vp_vals[0] ^ vp_vals[1] ^ vp_vals[2] ^ vp_vals[3] ^ vp_vals[4] ^ vp_vals[5] ^ vp_vals[6] ^ vp_vals[7] ^ vp_vals[8] ^ vp_vals[9] ^ vp_vals[10] ^ vp_vals[11]) == 0xdeadbeef)
#else
#define KEEP(c) (c)
#endif
u32 vp_any(u32 n) { u32 v = nondet_u32(); __CPROVER_assume(v < n); vp_vals[vp_nvals] = v; vp_nvals++; return v; }
/* the first values picked are split into cases by main (each case is executed with constants), later ones are not */
u32 vp_pre[8]; u32 vp_npre; u32 vp_maxpre;
u32 vp_pick(u32 n) {
  if (vp_npre >= vp_maxpre) return vp_any(n);
  u32 v = vp_pre[vp_npre]; vp_npre++;
  if (v >= n) { __CPROVER_assume(0); }
  vp_vals[vp_nvals] = v; vp_nvals++; return v; }
void vp_assume(u32 c) { __CPROVER_assume(c); }
u32 vp_next = 1; u32 vp_fuse;
u32 vp_born(void) { u32 i = vp_next; vp_next++; __CPROVER_assert(i < NEL, "MODEL-CAPACITY"); vp_state[i] = 1; return i; }
void vp_gone(u32 i) {
  __CPROVER_assert(KEEP(i > 0 && i < NEL && vp_state[i] != 0), "USER something that is not an element is dropped");
  __CPROVER_assume(i > 0 && i < NEL);
  __CPROVER_assert(KEEP(vp_state[i] != 2), "USER an element is dropped twice");
  vp_state[i] = 2; }
void vp_look(u32 i) {
  __CPROVER_assert(KEEP(i > 0 && i < NEL && vp_state[i] == 1), "USER an element is used that does not exist (any more)"); }
/* a point in user code where it may panic: the one that the fuse selects does */
void vp_point(void) { if (vp_fuse > 0) { vp_fuse--; if (vp_fuse == 0) { vp_user = 1; vp_exc = 1; } } }
void vp_arm(u32 n) { vp_fuse = n; }
u32 vp_panicked(void) { return vp_user; }
u32 vp_try(ptr f, ptr d) { ((void (*)(ptr))f)(d); u32 r = vp_exc; vp_exc = 0; vp_fuse = 0; return r; }
void vp_check(u32 c, u32 id) {
@CHECKS@
}
void vp_witness(u32 id) {
@WITNESSES@
}
'''


def program(ir, entry, checks, witnesses, split=()):
    """-> (C text, functions encoded)"""
    tr = Translator(Module(ir) if isinstance(ir, str) else ir)
    body = tr.translate([entry])
    rt = RUNTIME.replace('@CHECKS@', '\n'.join('  if (id == %d) __CPROVER_assert(KEEP(c), "USER %s");' % (k, v) for k, v in checks.items()))
    rt = rt.replace('@WITNESSES@', '\n'.join('  if (id == %d) __CPROVER_assert(0, "witness %s");' % (k, v) for k, v in witnesses.items()))
    cases = [[]]
    for m in split:
        cases = [c + [v] for c in cases for v in range(m)]
    main = 'int main(void) { u32 c = nondet_u32(); vp_maxpre = %d;\n' % len(split)
    main += ' else '.join('if (c == %d) { %s %s(); }\n' % (i, ' '.join('vp_pre[%d] = %d;' % x for x in enumerate(c)), entry) for i, c in enumerate(cases))
    return rt + body + main + '  return 0; }\n', tr.encoded


if __name__ == '__main__':
    import sys
    c, enc = program(open(sys.argv[1]).read(), sys.argv[2], {1: 'check one'}, {1: 'end'})
    print(c)
    sys.stderr.write('\n'.join(enc) + '\n')

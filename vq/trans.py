"""C++ (clang AST) -> Verus.  Mechanical: every statement of the function under contract is
translated; nothing is dropped except what DROPPED records.  See DESIGN.md ("What the extraction does")."""
import contextlib
import re
from cppast import *

RUST_KW = set('as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try spec proof exec ghost tracked int nat open closed requires ensures decreases invariant assert assume forall exists choose via when old'.split())


REC_LT = set()      # records holding a view or iterator


class T:
    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, (b or None) if k == 'rec' else b

    def __eq__(self, o):
        return isinstance(o, T) and (self.k, self.a, self.b) == (o.k, o.a, o.b)

    def __hash__(self):
        return hash((self.k, self.a))

    def __repr__(self):
        return 'T(%s,%s)' % (self.k, self.a)

    @property
    def copy(self):
        return self.k in ('int', 'bool', 'it', 'sv', 'ptr', 'exn', 'unit', 'idx', 'cvit', 'cslice', 'vit', 'psv', 'optref') or (self.k == 'rec' and self.b)

    def rust(self):
        k = self.k
        if k == 'int': return self.a
        if k == 'bool': return 'bool'
        if k == 'it': return "It<'a>"
        if k == 'sv': return "&'a [i8]"
        if k in ('str', 'os'): return 'Vec<i8>'
        if k == 'ptr': return 'usize'
        if k in ('idx', 'vit', 'sit'): return 'usize'
        if k == 'psv': return "Psv<'a>"
        if k == 'bi': return 'Vec<i8>'
        if k == 'unit': return '()'
        if k == 'vec': return 'Vec<%s>' % self.a.rust()
        if k == 'rec': return self.a.split('::')[-1] + ("<'a>" if self.a in REC_LT else '')
        if k == 'cslice': return "&'a [%s]" % self.a.rust()
        if k == 'opt': return 'Option<%s>' % self.a.rust()
        if k == 'optref': return "Option<&'a %s>" % self.a.rust()
        if k == 'heap': return 'Heap_' + self.a
        if k == 'smap': return 'StrMap'
        raise ExtractError('no rust type for ' + repr(self))


I8, U8, I32, U32, I64, U64 = (T('int', x) for x in ('i8', 'u8', 'i32', 'u32', 'i64', 'usize'))
I16, U16 = T('int', 'i16'), T('int', 'u16')
BOOL, UNIT, IT, SV, STR, OS = T('bool'), T('unit'), T('it'), T('sv'), T('str'), T('os')
PSV, BI = T('psv'), T('bi')
INTS = {'char': I8, 'signed char': I8, 'unsigned char': U8, 'int': I32, 'unsigned int': U32, 'unsigned': U32,
        'short': I16, 'unsigned short': U16, 'long': I64, 'unsigned long': U64, 'long long': I64, 'unsigned long long': U64,
        'std::size_t': U64, 'size_t': U64, 'std::ptrdiff_t': I64, 'ptrdiff_t': I64, 'uint8_t': U8, 'uint32_t': U32,
        'char32_t': U32, 'char16_t': U16}
BITS = {'i8': 8, 'u8': 8, 'i16': 16, 'u16': 16, 'i32': 32, 'u32': 32, 'i64': 64, 'usize': 64}


class V:
    """a translated expression: code, type, and (for lvalues) the path it denotes"""

    def __init__(self, code, ty, lv=None, exclusive=False):
        self.code, self.ty, self.lv = code, ty, lv
        self.owned = False

    def __repr__(self):
        return 'V(%s:%r)' % (self.code, self.ty)


class Unsupported(ExtractError):
    pass


def norm_type(s):
    s = s.strip()
    s = re.sub(r'\b(const|volatile|struct|class|enum|typename)\b\s*', '', s)
    return re.sub(r'\s+', ' ', s).strip()


def rname(n):
    return n + '_' if n in RUST_KW else n


class RecModel:
    """a C++ class as a Rust struct of the same fields (by value)"""

    def __init__(self, m, cpp, name=None, copy=False, drop=(), aggregate=True, types=None, derive='', bases=(), refs=()):
        self.m, self.cpp, self.refs = m, cpp, refs
        self.name = self.rust = name or cpp.split('::')[-1]
        self.copy, self.aggregate, self.drop, self.types, self.derive = copy, aggregate, drop, types or {}, derive
        self.bases = bases
        self._f = None

    def fields(self):
        if self._f is None:
            rec = self.m.ix.records.get(self.cpp)
            if rec is None:
                raise ExtractError('record %s not found' % self.cpp)
            self._f = []
            cs = []
            for b in self.bases:
                cs += kids(self.m.ix.records[b])
            for c in cs + kids(rec):
                if c['kind'] == 'FieldDecl' and c['name'] not in self.drop:
                    t = self.types.get(c['name']) or self.m.nty(c)
                    self._f.append((c['name'], t))
            for d in self.drop:
                self.m.dropped.append('%s::%s' % (self.cpp, d))
            if any(t.k in ('sv', 'it') or (t.k == 'rec' and t.a in REC_LT) for _, t in self._f) or any(t.k == 'psv' for _, t in self._f):
                REC_LT.add(self.name)
        return self._f

    def field_type(self, m, nm):
        for n, t in self.fields():
            if n == nm:
                return t
        raise Unsupported('field %s of %s' % (nm, self.cpp))

    def value_init(self, ft):
        return '%s_uninit()' % self.rust

    def text(self):
        fs = self.fields()
        lt = "<'a>" if self.name in REC_LT else ''
        o = '// @types\n%spub struct %s%s { %s }\n' % ('#[derive(Clone, Copy)]\n' if self.copy else '', self.rust, lt, ', '.join('pub %s: %s' % (rname(n), t.rust()) for n, t in fs))
        if self.copy:
            o += "pub fn %s_clone<'a>(x: &%s%s) -> (r: %s%s) ensures r == *x { *x }\n" % (self.rust, self.rust, lt, self.rust, lt)
        elif all(t.copy or t.k in ('str', 'os') for _, t in fs):
            o += "pub fn %s_clone<'a>(x: &%s%s) -> (r: %s%s) ensures %s { %s { %s } }\n" % (
                self.rust, self.rust, lt, self.rust, lt,
                ', '.join('r.%s%s == x.%s%s' % (rname(n), '' if t.copy else '@', rname(n), '' if t.copy else '@') for n, t in fs) or 'true', self.rust,
                ', '.join('%s: %s' % (rname(n), 'x.' + rname(n) if t.copy else 'str_clone(&x.%s)' % rname(n)) for n, t in fs))
        try:
            class F: pass
            ini = ', '.join('%s: %s' % (rname(n), FnTrans.default(_Dummy(self.m), t)) for n, t in fs)
            o += "pub fn %s_uninit<'a>() -> (r: %s%s) %s { %s { %s } }\n" % (self.rust, self.rust, lt,
                 ('ensures ' + ', '.join('r.%s@.len() == 0' % rname(n) for n, t in fs if t.k in ('str', 'os', 'vec'))) if any(t.k in ('str', 'os', 'vec') for n, t in fs) else '', self.rust, ini)
        except Unsupported:
            pass
        return o + '// @end\n'


class HeapModel:
    """all objects of a class that pointers may point at: pointer p (0 is null) is cell p - 1"""

    def __init__(self, m, rec, const=True, **kw):
        self.m, self.rec, self.const = m, rec, const
        self.rm = RecModel(m, rec, **kw)
        m.records[rec] = self.rm
        self.var = 'h_' + rec
        m.heaps[rec] = self

    def field_type(self, nm):
        return self.rm.field_type(self.m, nm)

    def text(self):
        r = self.rm.rust
        o = '// @types\npub struct Heap_%s { pub v: Vec<%s> }\nimpl Heap_%s {\n' % (self.rec, r, self.rec)
        o += '    pub open spec fn valid(&self, p: usize) -> bool { 0 < p <= self.v@.len() }\n'
        o += '    pub open spec fn o(&self, p: usize) -> %s { self.v@[p - 1] }\n' % r
        for n, t in self.rm.fields():
            n = rname(n)
            if t.copy:
                o += "    pub fn get_%s(&self, p: usize) -> (r: %s) requires self.valid(p) ensures r == self.o(p).%s { self.v[p - 1].%s }\n" % (n, t.rust(), n, n)
            else:
                o += "    pub fn get_%s<'a>(&'a self, p: usize) -> (r: &'a %s) requires self.valid(p) ensures *r == self.o(p).%s { &self.v[p - 1].%s }\n" % (n, t.rust(), n, n)
            if not self.const:
                o += ("    pub fn set_%s(&mut self, p: usize, x: %s) requires old(self).valid(p)\n        ensures final(self).v@ == old(self).v@.update(p - 1, %s { %s: x, ..old(self).o(p) })\n" % (n, t.rust(), r, n)
                      + "    { self.v[p - 1].%s = x; }\n" % n)
        return o + '}\n// @end\n'


class _Dummy:
    def __init__(self, m): self.m = m


class Module:
    """one generated Verus crate"""

    def __init__(self, ix, contracts, lib, records=None, heaps=None):
        self.ix, self.contracts, self.lib = ix, contracts, lib
        self.records = records or {}      # C++ record name -> RecModel
        self.heaps = heaps or {}
        self.out = []
        self.imported_out, self.imported = [], []
        self.done = {}
        self.dropped = []
        self.inlined = set()
        self.links = set()      # base classes of heap cells which the unit leaves out (the links of tree nodes: unit tree)
        self.maythrow_memo = {}
        self.under_contract = []
        self.loops_total = 0
        self.ptypes = {'psv': PSV}
        self.pargs = {}        # parameter kind -> what an argument is turned into

    # ---- types
    def ty(self, s, pos=None):
        s = norm_type(s)
        ref = False
        while s.endswith('&'):
            s = s[:-1].strip()
            ref = True
        if s.endswith('*') and s in self.lib.types:
            return self.lib.types[s]
        if s.endswith('*'):
            base = norm_type(s[:-1])
            if base == 'char':
                return IT
            t = self.ty(base)
            if t.k == 'rec' and t.a in self.heaps:
                return T('ptr', t.a)
            if t.k == 'rec':
                return T('ptr', t.a)
            raise Unsupported('pointer type ' + s)
        if s in INTS: return INTS[s]
        if s == 'bool': return BOOL
        if s == 'void': return UNIT
        s2 = re.sub(r'^(::)?', '', s)
        if s2 in self.lib.types: return self.lib.types[s2]
        if ref and s2 + ' &' in self.lib.types: return self.lib.types[s2 + ' &']
        for rx, fn in self.lib.type_rx:
            m = rx.fullmatch(s2)
            if m:
                return fn(self, m)
        for cand in (s2, 'quickbook::' + s2, s2.split('::')[-1]):
            if cand in self.records:
                m = self.records[cand]
                return T('rec', m.name, m.copy)
        td = s2.split('::')[-1]
        if td in self.ix.typedefs and norm_type(self.ix.typedefs[td]) != s2:
            return self.ty(self.ix.typedefs[td])
        for i, n in self.ix.decl.items():
            if n['kind'] == 'EnumDecl' and n.get('name') == td:
                return I32
        if td in self.ix.records:
            r = self.ix.records[td]
            return T('rec', td)
        raise Unsupported('type ' + s)

    def nty(self, n):
        t = n.get('type', {})
        for k in ('desugaredQualType', 'qualType'):
            if k in t:
                try:
                    return self.ty(t[k])
                except Unsupported:
                    if k == 'qualType':
                        raise
        raise Unsupported('no type on ' + n.get('kind', '?'))

    def is_ref_nonconst(self, n):
        q = rawtype(n)
        if not q.rstrip().endswith('&') or q.rstrip().endswith('&&'):
            return False
        if re.search(r'\*\s*&\s*$', q):
            return True
        return not re.match(r'^\s*const\b', q) and not re.search(r'\bconst\s*&\s*$', q)

    def is_ref(self, n):
        return rawtype(n).rstrip().endswith('&')

    # ---- contracts
    def contract_for(self, f):
        q = self.ix.qname[f['id']]
        c = self.contracts.get(q)
        if isinstance(c, list):
            for x in c:
                if x.matches(f):
                    return x
            return None
        return c

    def may_throw(self, f, stack=()):
        if f['id'] in self.maythrow_memo:
            return self.maythrow_memo[f['id']]
        c = self.contract_for(f)
        if c is not None:
            return c.throws
        if f['id'] in stack:
            return False
        r = self._mt(body_of(f), stack + (f['id'],))
        self.maythrow_memo[f['id']] = r
        return r

    def _mt(self, n, stack):
        if n is None: return False
        if n['kind'] == 'CXXThrowExpr': return True
        rid = None
        if n['kind'] == 'DeclRefExpr':
            rid = n.get('referencedDecl', {}).get('id')
        elif n['kind'] == 'MemberExpr':
            rid = n.get('referencedMemberDecl')
        if rid and rid in self.ix.decl and self.ix.decl[rid]['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            d = self.ix.definition(rid)
            if d is not None and self.may_throw(d, stack):
                return True
        return any(self._mt(c, stack) for c in kids(n))

    # ---- functions
    def fn_rust_name(self, f, c):
        return c.rust_name

    def require(self, f):
        """make sure the function (under contract) is generated; returns FnInfo"""
        c = self.contract_for(f)
        d = self.ix.definition(f['id']) or f
        key = d['id']
        if key not in self.done:
            info = FnInfo(self, d, c)
            self.done[key] = info
            if c.imported or c.external:
                FnTrans(self, info).declare()
            else:
                FnTrans(self, info).run()
        return self.done[key]

    def emit_all(self):
        for q, c in list(self.contracts.items()):
            cl = c if isinstance(c, list) else [c]
            for c1 in cl:
                if c1.imported:
                    continue        # declared when something calls it
                fs = [f for f in self.ix.funcs.get(q, []) if c1.matches(f)]
                if not fs:
                    if c1.optional:
                        continue
                    raise ExtractError('function under contract not found in the source: ' + q)
                if len(fs) > 1:
                    raise ExtractError('ambiguous function under contract: %s %s' % (q, [f['type']['qualType'] for f in fs]))
                self.require(fs[0])
        return '\n'.join(self.out)


class FnInfo:
    def __init__(self, m, f, c):
        self.m, self.f, self.c = m, f, c
        self.name = c.rust_name
        self.params = []   # (rust name, T, mode) mode in value, ref(&T const), out
        ix = m.ix
        self.rec = ix.parent_rec.get(f['id']) if f['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl') and f.get('storageClass') != 'static' else None
        if self.rec is not None:
            rt = m.ty(self.rec['name'])
            sig = f['type']['qualType']
            const = c.const_this or not c.mutable_this and (sig.rstrip().endswith('const') or sig.rstrip().endswith('const noexcept'))
            if rt.a in m.heaps and f['kind'] != 'CXXConstructorDecl':
                self.this_mode = 'heap'
                self.params.append(('this_', T('ptr', rt.a), 'value'))
            else:
                self.params.append(('this_', T('rec', rt.a), 'ref' if const else 'out'))
        ps = params_of(f)
        for idx, p in enumerate(ps):
            nm = rname(p.get('name', 'arg%d' % idx))
            heapref = c.param_kinds.get(nm) == ['heapref']
            t = m.ptypes[c.param_kinds[nm][0]] if nm in c.param_kinds and not heapref else m.nty(p)
            mode = 'value'
            if heapref:
                # a constant reference to a heap record: its address
                self.params.append((nm, T('ptr', t.a), 'value'))
                continue
            if t.k == 'bi':
                mode = 'out'
            if nm in c.param_kinds and c.param_kinds[nm][0] in m.pargs: mode = 'value'
            elif m.is_ref_nonconst(p) or (t.k == 'rec' and rawtype(p).rstrip().endswith('&&')):
                mode = 'out'
            elif m.is_ref(p) and not t.copy:
                mode = 'ref'
            if t.k == 'ptr' and mode == 'value' and t.a not in m.heaps:
                # pointer to a non-heap record: treated as an in/out reference
                mode = 'out'
                t = T('rec', t.a)
            self.params.append((nm, t, mode))
        self.ctx = []
        if f['kind'] == 'CXXDestructorDecl' or f['kind'] == 'CXXMethodDecl' and self.rec is not None:
            # the objects the reference members refer to
            for nm, rt in (getattr(m.records.get(self.rec['name']), 'ctxref', None) or {}).items():
                self.params.append((nm, T('rec', rt), 'out'))
                self.ctx.append(nm)
        self.heaps = c.heaps
        self.mut_heaps = set()
        for h in list(self.heaps):
            if h.startswith('!'):
                self.mut_heaps.add(h[1:])
        self.free_heaps = {h[1:] for h in self.heaps if h.startswith('~')}      # read only, and nothing of it is in the result
        self.heaps = [h.lstrip('!~') for h in self.heaps]
        for h in self.heaps:
            hm = m.heaps[h]
            self.params.append((hm.var, T('heap', h), 'out' if h in self.mut_heaps else 'ref'))
        self.extras = c.extras
        for nm, tys, frm in self.extras:
            self.params.append((nm, m.ty(tys), 'ref'))
        q = f['type']['qualType']
        self.ret_ref = False
        if f['kind'] in ('CXXConstructorDecl', 'CXXDestructorDecl'):
            self.ret = UNIT
        else:
            rq = q[:q.index('(')].strip() if '(' in q else q
            self.ret_ref = rq.endswith('&')
            self.ret = c.ret_type or m.ty(f.get('_ret', rq))
        if c.ret_alias:
            # a returned reference to one of the parameters carries no value
            self.ret = UNIT
        self.outs = [(n, t) for (n, t, md) in self.params if md == 'out']
        self.throws = c.throws

    def ret_rust(self):
        r = self.rust_t(self.ret)
        if self.throws:
            r = 'Result<%s, Exn>' % r
        if self.outs:
            r = '(%s, %s)' % (r, ', '.join(self.rust_t(t) for _, t in self.outs))
        return r

    def rust_t(self, t):
        return t.rust()

    def ptype(self, t, mode):
        if mode == 'ref' and not t.copy:
            return ('&' if t.k == 'heap' and t.a in self.free_heaps else "&'a ") + self.rust_t(t)
        return self.rust_t(t)


class Ctx:
    __slots__ = ('brk', 'cont', 'ret', 'clean', 'outer', 'hand')

    def __init__(self, brk=None, cont=None, ret=None, clean=(), outer=(), hand=None):
        self.brk, self.cont, self.ret = brk, cont, ret
        self.hand = hand        # the handlers of the try statement this is in: (handlers, the context of the statement, what follows it)
        # destructors to run, innermost first, when the function (or inlined body) is left; those of the enclosing bodies
        self.clean, self.outer = clean, outer


class FnTrans:
    def __init__(self, m, info):
        self.m, self.info, self.ix = m, info, m.ix
        self.c = info.c
        self.has_try = False
        self.env = {}
        self.pre = []
        self.tmp = 0
        self.used = set(n for n, _, _ in info.params)
        self.scope_types = {}
        self.loopfns = {}
        self.loop_texts = []
        self.loop_counter = {}
        self.loop_key = {}
        self.this = None
        self.stack = [info.f['id']]
        self.lits = {}
        self.fname_stack = ['']
        self.loop_owner = ['']
        self.ctxrefs = {}      # object -> what its reference members are bound to

    # ------------------------------------------------------------------ helpers
    def err(self, n, msg):
        raise Unsupported('%s: %s (%s)' % (self.ix.qname.get(self.info.f['id']), msg, n.get('kind') if isinstance(n, dict) else n))

    def fresh(self, base='t'):
        self.tmp += 1
        return '%s_%d' % (base, self.tmp)

    def newname(self, n):
        n = rname(n)
        if n not in self.used and n not in RUST_KW:
            self.used.add(n)
            return n
        i = 2
        while '%s__%d' % (n, i) in self.used:
            i += 1
        r = '%s__%d' % (n, i)
        self.used.add(r)
        return r

    def emit(self, *st):
        self.pre.append(st)

    def hoist(self, v, base='t'):
        """materialise a value into a fresh temporary"""
        t = self.fresh(base)
        self.scope_types[t] = v.ty
        self.emit('decl', t, v.ty, v.code)
        r = V(t, v.ty, ('var', t))
        return r

    def sub(self, fn):
        """run fn with a fresh statement list; returns (result, stmts)"""
        save = self.pre
        self.pre = []
        try:
            r = fn()
            return r, self.pre
        finally:
            self.pre = save

    # ------------------------------------------------------------------ lvalues
    def read(self, v):
        return v.code

    def assign(self, v, code):
        lv = v.lv
        if lv is None:
            raise Unsupported('assignment to a non-lvalue: ' + v.code)
        k = lv[0]
        if k == 'var' or k == 'field':
            self.emit('line', '%s = %s;' % (v.code, code))
        elif k == 'heapfield':
            _, h, p, f = lv
            self.emit('line', '%s.set_%s(%s, %s);' % (h, f, p, code))
        elif k == 'index':
            _, cont, idx = lv
            self.emit('line', '%s.set(%s, %s);' % (cont, idx, code))
        elif k == 'slot':
            if '(' in code:
                t = self.fresh('v')
                self.emit('line', 'let %s = %s;' % (t, code))
                code = t
            self.emit('line', lv[1].replace('%s', code))
        else:
            raise Unsupported('assignment to ' + repr(lv))

    def take(self, v):
        """code that moves the value out of v (to be given back by assign)"""
        return v.code

    def asref(self, v):
        """code for a shared reference to a non-copy value"""
        if v.code.startswith('&'):
            return v.code
        if v.lv and v.lv[0] == 'cref':
            return v.code
        return '&' + v.code

    def own(self, v):
        """code for an owned value (clones lvalues of non-copy type)"""
        if v.ty.copy or v.owned or v.lv is None:
            return v.code
        return self.m.lib.clone(self, v)

    # ------------------------------------------------------------------ expressions
    def rv(self, n):
        """value of an expression"""
        return self.ex(n)

    memo = {}
    @contextlib.contextmanager
    def once(self, args):
        """hooks and the default handling may all look at an argument: it is evaluated once"""
        saved = self.memo
        self.memo = dict(saved)
        self.memo.update((id(strip(a)), None) for a in args)
        try: yield
        finally: self.memo = saved

    def ex(self, n):
        n = strip(n)
        if id(n) not in self.memo: return self.ex1(n)
        if self.memo[id(n)] is None: self.memo[id(n)] = self.ex1(n)
        return self.memo[id(n)]

    def ex1(self, n):
        k = n['kind']
        f = getattr(self, 'x_' + k, None)
        if f is None:
            self.err(n, 'expression ' + k)
        return f(n)

    def x_IntegerLiteral(self, n):
        t = self.m.nty(n)
        return V('%s%s' % (n['value'], t.a), t)

    def x_CharacterLiteral(self, n):
        t = self.m.nty(n)
        v = int(n['value'])
        if t.a == 'i8':
            v &= 0xff
            if v >= 128: v -= 256
        return V('(%d%s)' % (v, t.a) if v < 0 else '%d%s' % (v, t.a), t)

    def x_CXXBoolLiteralExpr(self, n):
        return V('true' if n['value'] else 'false', BOOL)

    def x_CXXNullPtrLiteralExpr(self, n):
        return V('0usize', T('ptr', None))

    def x_GNUNullExpr(self, n):
        return V('0usize', T('ptr', None))

    def str_bytes(self, n):
        """bytes of a string literal, without the terminating NUL"""
        s = n['value']
        m = re.match(r'^(?:u8|L|u|U)?"(.*)"$', s, re.S)
        body = m.group(1)
        out, i = [], 0
        b = body.encode('utf-8', 'surrogateescape')
        esc = {ord('n'): 10, ord('t'): 9, ord('r'): 13, ord('\\'): 92, ord('"'): 34, ord("'"): 39, ord('0'): 0,
               ord('a'): 7, ord('b'): 8, ord('f'): 12, ord('v'): 11, ord('?'): 63}
        while i < len(b):
            c = b[i]
            if c == 92:
                d = b[i + 1]
                if d == ord('x'):
                    j = i + 2
                    while j < len(b) and chr(b[j]) in '0123456789abcdefABCDEF' and j < i + 4:
                        j += 1
                    out.append(int(b[i + 2:j], 16) & 0xff)
                    i = j
                    continue
                if chr(d) in '01234567':
                    j = i + 1
                    while j < len(b) and j < i + 4 and chr(b[j]) in '01234567':
                        j += 1
                    out.append(int(b[i + 1:j], 8) & 0xff)
                    i = j
                    continue
                out.append(esc[d])
                i += 2
            else:
                out.append(c)
                i += 1
        mt = re.search(r'\[(\d+)\]', rawtype(n))
        if mt and int(mt.group(1)) != len(out) + 1:
            self.err(n, 'string literal length')
        return [x - 256 if x > 127 else x for x in out]

    def lit(self, bs, nul):
        """name of a local array holding the bytes"""
        data = bs + ([0] if nul else [])
        name = self.fresh('lit')
        self.emit('line', self.lit_decl(name, data))
        return name

    def lit_decl(self, name, data):
        lst = ', '.join('%di8' % b if b >= 0 else '(%di8)' % b for b in data)
        cs = ''
        if data and data[-1] == 0 and 0 not in data[:-1]:
            cs = ' lemma_cstr(%s@); assert(cstr(%s@, 0) =~= seq![%s]);' % (name, name, lst.rsplit(', ', 1)[0] if len(data) > 1 else '')
        return "let %s: &'a [i8] = &[%s]; proof { assert(%s@ =~= seq![%s]);%s }" % (name, lst, name, lst, cs)

    def x_StringLiteral(self, n):
        bs = self.str_bytes(n)
        v = V('', T('lit'))
        v.bytes = bs
        return v

    def lit_slice(self, v):
        return self.lit(v.bytes, False)

    def lit_it(self, v):
        return V('It { s: %s, i: 0 }' % self.lit(v.bytes, True), IT)

    def x_DeclRefExpr(self, n):
        for hk in self.m.lib.hooks:
            if hasattr(hk, 'ref'):
                r = hk.ref(self, n, n['referencedDecl'])
                if r is not None:
                    return r
        rd = n['referencedDecl']
        i = rd['id']
        if i in self.env:
            return self.env[i]
        if rd['kind'] == 'EnumConstantDecl':
            d = self.ix.decl.get(i)
            v = d.get('_value') if d else self.ix.enums.get(rd['name'])
            if v is None:
                self.err(n, 'enum constant ' + rd['name'])
            return V('%di32' % v, I32)
        if rd['kind'] == 'VarDecl':
            r = self.m.lib.global_var(self, rd, n)
            if r is not None:
                return r
            d = self.ix.decl.get(i)
            if d is not None and re.search(r'\bconst\b', rawtype(d)):
                ini = kids(d)
                if ini:
                    return self.ex(ini[-1])
        self.err(n, 'reference to ' + rd.get('name', '?'))

    def x_CXXThisExpr(self, n):
        return self.this

    def x_ImplicitCastExpr(self, n):
        return self.cast(n)

    x_CStyleCastExpr = x_CXXStaticCastExpr = x_CXXFunctionalCastExpr = x_CXXConstCastExpr = x_ImplicitCastExpr

    def cast(self, n):
        ck = n.get('castKind')
        c = kids(n)[0]
        if ck in ('LValueToRValue',):
            v = self.ex(c)
            if v.ty.k == 'lit':
                return v
            return V(v.code, v.ty, None) if v.ty.copy else v
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay', 'BaseToDerived', 'Dependent', 'LValueBitCast'):
            return self.ex(c)
        if ck == 'ArrayToPointerDecay':
            return self.ex(c)
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            v = self.ex(c)
            return self.int_cast(v, self.m.nty(n))
        if ck == 'IntegralToBoolean':
            v = self.ex(c)
            if v.ty.k == 'bool':
                return v
            return V('(%s != 0)' % v.code, BOOL)
        if ck == 'PointerToBoolean':
            v = self.ex(c)
            if v.ty.k == 'ptr':
                return V('(%s != 0)' % v.code, BOOL)
            if v.ty.k == 'optit':
                return V('%s.is_some' % v.code, BOOL)
            if v.ty.k == 'optref':
                return V('%s.is_some()' % v.code, BOOL)
            self.err(n, 'pointer to bool of ' + repr(v.ty))
        if ck == 'NullToPointer':
            return V('0usize', T('ptr', None))
        if ck == 'ToVoid':
            v = self.ex(c)
            return V('()', UNIT)
        self.err(n, 'cast ' + str(ck))

    def int_cast(self, v, t):
        if v.ty.k == 'bool':
            if t.k == 'bool':
                return v
            return V('(if %s { 1%s } else { 0%s })' % (v.code, t.a, t.a), t)
        if v.ty == t:
            return v
        m = re.fullmatch(r'\(?(-?\d+)(i8|u8|i16|u16|i32|u32|i64|usize)\)?', v.code)
        lo, hi = (-(1 << (BITS[t.a] - 1)), (1 << (BITS[t.a] - 1)) - 1) if t.a[0] == 'i' else (0, (1 << BITS[t.a]) - 1)
        if m and lo <= int(m.group(1)) <= hi:
            x = int(m.group(1))
            return V('(%d%s)' % (x, t.a) if x < 0 else '%d%s' % (x, t.a), t)
        a, b = v.ty.a, t.a
        widen = BITS[b] > BITS[a] and (a[0] == 'u' or b[0] == 'i')
        if widen:
            return V('(%s as %s)' % (v.code, b), t)
        return V('cast_%s_%s(%s)' % (a, b, v.code), t)

    def x_UnaryOperator(self, n):
        op = n['opcode']
        c = kids(n)[0]
        if op == '__extension__':
            return self.ex(c)
        if op == '!':
            v = self.ex(c)
            if v.ty.k != 'bool':
                self.err(n, '! on ' + repr(v.ty))
            return V('!%s' % v.code if re.fullmatch(r'\w+|\(.*\)', v.code) and v.code.count('(') <= 1 else '!(%s)' % v.code, BOOL)
        if op == '-':
            v = self.ex(c)
            if v.ty.a[0] == 'u' or v.ty.a == 'usize':
                return V('(0%s).wrapping_sub(%s)' % (v.ty.a, v.code), v.ty)
            return V('(-%s)' % v.code, v.ty)
        if op == '+':
            return self.ex(c)
        if op == '~':
            v = self.ex(c)
            return V('(!%s)' % v.code, v.ty)
        if op in ('++', '--'):
            v = self.ex(c)
            return self.incdec(n, v, op, n.get('isPostfix'))
        if op == '*':
            v = self.ex(c)
            return self.deref(n, v)
        if op == '&':
            v = self.ex(c)
            return self.addrof(n, v)
        self.err(n, 'unary ' + op)

    def addrof(self, n, v):
        if v.lv and v.lv[0] == 'heapobj':
            return V(v.lv[2], T('ptr', v.lv[1]))
        if hasattr(v, 'strelem'):
            r = V(v.code, T('straddr'), None)
            r.strelem = v.strelem
            return r
        if v.lv is not None:
            r = V(v.code, T('addr', v.ty), v.lv)
            r.target = v
            return r
        self.err(n, 'address of ' + v.code)

    def deref(self, n, v):
        if v.ty.k == 'it':
            return V('%s.deref()' % v.code, I8, ('cit',))
        if v.ty.k == 'addr':
            return v.target
        if v.ty.k == 'ptr':
            return self.heapobj(v)
        if v.ty.k == 'optref':
            return V('%s.unwrap()' % v.code, v.ty.a, ('cref',))
        if v.ty.k == 'rec' and v.lv is not None:
            return v      # pointer modelled as an in/out reference
        r = self.m.lib.deref(self, n, v)
        if r is not None:
            return r
        self.err(n, 'deref of ' + repr(v.ty))

    def heapobj(self, v):
        if v.ty.a not in self.m.heaps:
            raise Unsupported('dereference of a pointer to %s (no heap model)' % v.ty.a)
        h = self.m.heaps[v.ty.a]
        return V('%s.at(%s)' % (h.var, v.code), T('rec', v.ty.a), ('heapobj', v.ty.a, v.code))

    def incdec(self, n, v, op, postfix):
        old = None
        if postfix:
            old = self.hoist(V(v.code, v.ty))
        one = 'inc' if op == '++' else 'dec'
        if v.ty.k == 'it':
            self.assign(v, '%s.%s()' % (v.code, one))
        elif v.ty.k == 'int':
            o = '+' if op == '++' else '-'
            self.assign(v, self.arith(o, v, V('1' + v.ty.a, v.ty)).code)
        else:
            r = self.m.lib.incdec(self, n, v, one)
            if r is None:
                self.err(n, op + ' on ' + repr(v.ty))
        return old if postfix else v

    def arith(self, op, a, b):
        t = a.ty
        if op in ('&', '|', '^'):
            return V('(%s %s %s)' % (a.code, op, b.code), t)
        if op in ('<<', '>>'):
            return V('(%s %s %s)' % (a.code, op, b.code), t)
        if t.a[0] == 'u':
            if op in '+-*':
                return V('%s.wrapping_%s(%s)' % (a.code if re.fullmatch(r'[\w.]+', a.code) and not a.code[0].isdigit() else '(%s)' % a.code, {'+': 'add', '-': 'sub', '*': 'mul'}[op], b.code), t)
            return V('(%s %s %s)' % (a.code, op, b.code), t)
        if op in '+-*':
            return V('(%s %s %s)' % (a.code, op, b.code), t)
        if op == '/':
            return V('cdiv_%s(%s, %s)' % (t.a, a.code, b.code), t)
        if op == '%':
            return V('cmod_%s(%s, %s)' % (t.a, a.code, b.code), t)
        raise Unsupported('operator ' + op)

    def two(self, a, b):
        """evaluate two operands left to right"""
        va = self.ex(a)
        vb, st = self.sub(lambda: self.ex(b))
        if st and not re.fullmatch(r'\(?-?\d+\w*\)?', va.code) and va.ty.k not in ('lit',):
            if va.ty.copy and va.lv is None and any(s[0] != 'decl' or True for s in st) and self.impure(st):
                va = self.hoist(V(va.code, va.ty))
            elif va.ty.copy and self.impure(st) and not self.is_assign_target:
                va = self.hoist(V(va.code, va.ty))
        self.pre.extend(st)
        return va, vb

    is_assign_target = False

    def impure(self, st):
        for s in st:
            if s[0] == 'line' and re.match(r'let lit_', s[1]):
                continue
            if s[0] == 'decl' and '(' not in s[3]:
                continue
            return True
        return False

    def x_BinaryOperator(self, n):
        op = n['opcode']
        a, b = kids(n)
        if op == '=':
            vb = self.ex(b)
            va = self.ex(a)
            return self.do_assign(n, va, vb)
        if op in ('&&', '||'):
            va = self.ex(a)
            vb, st = self.sub(lambda: self.ex(b))
            if not st:
                return V('(%s %s %s)' % (va.code, op, vb.code), BOOL)
            t = self.fresh()
            self.scope_types[t] = BOOL
            self.emit('decl', t, BOOL, 'false' if op == '&&' else 'true')
            br = st + [('line', '%s = %s;' % (t, vb.code))]
            if op == '&&':
                self.emit('if', va.code, br, [])
            else:
                self.emit('if', va.code, [], br)
            return V(t, BOOL)
        if op == ',':
            self.ex(a)
            return self.ex(b)
        va, vb = self.two(a, b)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(n, op, va, vb)
        if va.ty.k == 'it' or vb.ty.k == 'it':
            if op == '+' and vb.ty.k == 'int':
                return V('%s.add(%s)' % (va.code, self.int_cast(vb, I64).code), IT)
            if op == '+' and va.ty.k == 'int':
                return V('%s.add(%s)' % (vb.code, self.int_cast(va, I64).code), IT)
            if op == '-' and vb.ty.k == 'int':
                return V('%s.sub(%s)' % (va.code, self.int_cast(vb, I64).code), IT)
            if op == '-' and vb.ty.k == 'it':
                return V('it_diff(%s, %s)' % (va.code, vb.code), I64)
        if va.ty.k == 'int' and vb.ty.k == 'int':
            return self.arith(op, va, vb)
        r = self.m.lib.binop(self, n, op, va, vb)
        if r is not None:
            return r
        self.err(n, 'binary %s on %r %r' % (op, va.ty, vb.ty))

    def compare(self, n, op, va, vb):
        ka, kb = va.ty.k, vb.ty.k
        if ka == 'it' and kb == 'it':
            fn = {'==': 'it_eq', '!=': 'it_ne', '<': 'it_lt', '>': 'it_gt', '<=': 'it_le', '>=': 'it_ge'}[op]
            return V('%s(%s, %s)' % (fn, va.code, vb.code), BOOL)
        if (ka in ('int', 'ptr', 'bool', 'idx')) and (kb in ('int', 'ptr', 'bool', 'idx')):
            return V('(%s %s %s)' % (va.code, op, vb.code), BOOL)
        r = self.m.lib.compare(self, n, op, va, vb)
        if r is not None:
            return r
        self.err(n, 'compare %s %r %r' % (op, va.ty, vb.ty))

    def do_assign(self, n, va, vb):
        if vb.ty.k == 'lit':
            if va.ty.k == 'it':
                vb = self.lit_it(vb)
            elif va.ty.k in ('str',):
                vb = V('str_from(%s)' % self.lit_slice(vb), STR)
        r = self.m.lib.assign(self, n, va, vb)
        if r is not None:
            return r
        if va.ty.k == 'sv' and vb.ty.k == 'str':
            vb = V('%s.as_slice()' % vb.code, SV)
        self.assign(va, self.own(vb))
        return va

    def x_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        a, b = kids(n)
        vb = self.ex(b)
        va = self.ex(a)
        if va.ty.k == 'it':
            self.assign(va, '%s.%s(%s)' % (va.code, 'add' if op == '+' else 'sub', self.int_cast(vb, I64).code))
            return va
        ct = self.m.ty(n['computeLHSType'].get('desugaredQualType', n['computeLHSType']['qualType']))
        x = self.int_cast(V(va.code, va.ty), ct)
        if op not in ('<<', '>>'):
            vb = self.int_cast(vb, ct)
        r = self.arith(op, x, vb)
        r = self.int_cast(r, va.ty)
        self.assign(va, r.code)
        return va

    def x_ConditionalOperator(self, n):
        c, a, b = kids(n)
        # assert(...)
        if self.is_assert_fail(b):
            vc = self.ex(c)
            self.emit('line', 'cpp_assert(%s);' % vc.code)
            return V('()', UNIT)
        vc = self.ex(c)
        va, sa = self.sub(lambda: self.ex(a))
        vb, sb = self.sub(lambda: self.ex(b))
        ty = va.ty
        if ty.k == 'lit' or vb.ty.k == 'lit':
            if ty.k == 'lit' and vb.ty.k == 'lit':
                nt = SV
            else:
                nt = vb.ty if ty.k == 'lit' else va.ty
            def conv(v, s):
                if v.ty.k != 'lit':
                    return v, s
                save = self.pre
                self.pre = s
                r = V(self.lit_slice(v), SV) if nt.k == 'sv' else (self.lit_it(v) if nt.k == 'it' else V('str_from(%s)' % self.lit_slice(v), STR))
                s2 = self.pre
                self.pre = save
                return r, s2
            if nt.k == 'sv' and not sa and not sb:
                # both arms literal: bind them before the choice, arrays must outlive the branch
                xa = self.lit_slice(va) if va.ty.k == 'lit' else va.code
                xb = self.lit_slice(vb) if vb.ty.k == 'lit' else vb.code
                r = V('(if %s { %s } else { %s })' % (vc.code, xa, xb), SV)
                r.ty = SV
                return r
            va, sa = conv(va, sa)
            vb, sb = conv(vb, sb)
            ty = nt
        if ty.k == 'ptr' and ty.a is None:
            ty = vb.ty
        if not sa and not sb and ty.k == 'str' and n.get('valueCategory') == 'lvalue' and vb.ty == ty:
            return V('(if %s { %s } else { %s })' % (vc.code, self.asref(va), self.asref(vb)), ty, ('cref',))
        ca, cb = self.own(va), self.own(vb)
        if not sa and not sb:
            return V('(if %s { %s } else { %s })' % (vc.code, ca, cb), ty)
        t = self.fresh()
        self.scope_types[t] = ty
        self.emit('decl', t, ty, self.default(ty))
        self.emit('if', vc.code, sa + [('line', '%s = %s;' % (t, ca))], sb + [('line', '%s = %s;' % (t, cb))])
        return V(t, ty, ('var', t))

    def default(self, ty):
        if ty.k == 'int': return 'uninit_%s()' % ty.a
        if ty.k == 'bool': return 'uninit_bool()'
        if ty.k in ('str', 'os', 'vec'): return 'Vec::new()'
        if ty.k == 'it': return 'It { s: empty_slice(), i: 0 }'
        if ty.k == 'sv': return 'empty_slice()'
        if ty.k == 'ptr': return '0usize'
        if ty.k == 'idx': return '0usize'
        if ty.k == 'unit': return '()'
        if ty.k == 'rec': return '%s_uninit()' % ty.a
        if ty.k in ('opt', 'optref'): return 'None'
        r = self.m.lib.default(self, ty)
        if r is None:
            raise Unsupported('default value of %r' % ty)
        return r

    def is_assert_fail(self, n):
        n = strip(n)
        if n['kind'] == 'CallExpr':
            c = strip(kids(n)[0])
            while c['kind'] == 'ImplicitCastExpr':
                c = strip(kids(c)[0])
            return c['kind'] == 'DeclRefExpr' and c['referencedDecl'].get('name') in ('__assert_fail',)
        return False

    def x_CXXThrowExpr(self, n):
        k = norm_type(qtype(kids(n)[0])).split('::')[-1] if kids(n) else 'rethrow'
        self.emit('throw', k)
        return V('()', UNIT)

    def x_MemberExpr(self, n):
        base = kids(n)[0]
        nm = n['name']
        if n.get('isArrow'):
            b = self.ex(base)
            if b.ty.k == 'ptr':
                b = self.heapobj(b)
            elif b.ty.k == 'addr':
                b = b.target
            elif b.ty.k in ('rec',):
                pass
            else:
                b = self.deref(n, b)
        else:
            b = self.ex(base)
        return self.field(n, b, nm)

    def field(self, n, b, nm):
        if b.lv and b.lv[0] == 'heapobj':
            h = self.m.heaps[b.lv[1]]
            ft = h.field_type(nm)
            return V('%s.get_%s(%s)' % (h.var, rname(nm), b.lv[2]), ft, ('heapfield', h.var, b.lv[2], rname(nm)) if not h.const else ('cref',))
        r = self.m.lib.member(self, n, b, nm)
        if r is not None:
            return r
        if b.ty.k == 'rec':
            rm = self.m.records.get(b.ty.a)
            if nm in (getattr(rm, 'ctxref', None) or {}):
                return self.ctxrefs[b.code][nm]
            for c in kids(self.ix.records.get(rm.cpp, {})) if rm is not None else []:
                if c['kind'] == 'VarDecl' and c.get('name') == nm and kids(c) and re.search(r'\bconst\b', rawtype(c)):
                    return self.ex(kids(c)[0])      # a static constant
            if rm is None:
                self.err(n, 'field %s of %s (no record model)' % (nm, b.ty.a))
            ft = rm.field_type(self.m, nm)
            return V('%s.%s' % (b.code, rname(nm)), ft, ('field',) if b.lv else None)
        self.err(n, 'member %s of %r' % (nm, b.ty))

    def x_CXXNewExpr(self, n):
        t = self.m.nty(n)
        c = [strip(k) for k in kids(n)]
        if t.k == 'ptr' and t.a in self.m.heaps and len(c) == 1 and c[0]['kind'] == 'CXXConstructExpr':
            r = self.m.lib._hook('new', self, n, t, c[0])
            if r is not None: return r
        self.err(n, 'new expression')

    def x_ArraySubscriptExpr(self, n):
        a, b = kids(n)
        va, vb = self.two(a, b)
        if va.ty.k == 'lit':
            va = self.lit_it(va)
        if va.ty.k == 'it':
            return V('%s.add(%s).deref()' % (va.code, self.int_cast(vb, I64).code), I8, ('cit',))
        if va.ty.k in ('arr',):
            return V('arr_index(%s, %s)' % (va.code, self.int_cast(vb, I64).code), va.ty.a, ('arr',))
        r = self.m.lib.index(self, n, va, vb)
        if r is not None:
            return r
        self.err(n, 'subscript of %r' % va.ty)

    def x_CXXDefaultArgExpr(self, n):
        return None

    def x_InitListExpr(self, n):
        vs = [self.ex(c) for c in kids(n)]
        v = V('[%s]' % ', '.join(x.code for x in vs), T('arr', vs[0].ty if vs else I8))
        v.elems = vs
        return v

    def x_ImplicitValueInitExpr(self, n):
        t = self.m.nty(n)
        if t.k == 'int': return V('0' + t.a, t)
        if t.k == 'bool': return V('false', t)
        if t.k == 'ptr': return V('0usize', t)
        return V(self.default(t), t)

    x_CXXScalarValueInitExpr = x_ImplicitValueInitExpr

    def x_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') == 'sizeof':
            t = n.get('argType', {}).get('qualType') or rawtype(kids(n)[0])
            k = 1
            mt = re.match(r'^(.*?)\[(\d+)\]$', t)
            if mt:
                t, k = mt.group(1).strip(), int(mt.group(2))
            t = norm_type(t)
            if t.endswith('*'): return V('%dusize' % (8 * k), U64)
            if t in INTS: return V('%dusize' % (BITS[INTS[t].a] // 8 * k), U64)
        self.err(n, 'sizeof ' + str(n.get('argType')))

    # ---- construction
    def x_CXXConstructExpr(self, n):
        args = [c for c in kids(n) if c['kind'] != 'CXXDefaultArgExpr']
        t = self.m.nty(n)
        vs = [self.ex(a) for a in args]
        r = self.m.lib.construct(self, n, t, vs)
        if r is not None:
            return r
        if len(vs) == 1 and vs[0].ty == t:
            v = vs[0]
            if n.get('elidable') or t.copy:
                return v
            ct = n.get('ctorType', {}).get('qualType', '')
            if '&&' in ct and v.lv is None:
                return v
            return V(self.own(v), t)
        if t.k == 'rec':
            return self.construct_rec(n, t, vs)
        self.err(n, 'construct %r from %r' % (t, [v.ty for v in vs]))

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def construct_rec(self, n, t, vs):
        rm = self.m.records.get(t.a)
        if rm is None:
            self.err(n, 'construct %s' % t.a)
        ct = n.get('ctorType', {}).get('qualType', '')
        rec = self.ix.records.get(rm.cpp) or self.ix.records.get(t.a)
        ctors = [c for c in kids(rec) if c['kind'] == 'CXXConstructorDecl' and c['type']['qualType'] == ct and not c.get('isImplicit')]
        if not ctors:
            if rm.aggregate and not vs:
                return V(rm.value_init(self), t)
            self.err(n, 'constructor %s %s' % (t.a, ct))
        d = self.ix.definition(ctors[0]['id'])
        if d is None:
            self.err(n, 'constructor body %s %s' % (t.a, ct))
        if self.m.contract_for(d) is not None:
            obj = self.fresh('obj')
            self.scope_types[obj] = t
            self.emit('decl', obj, t, '%s_uninit()' % rm.rust)
            o = V(obj, t, ('var', obj))
            cr = getattr(rm, 'ctxref', None)
            if cr:
                # which argument a reference member is bound to
                for ci in kids(d):
                    fi = ci.get('anyInit') if ci['kind'] == 'CXXCtorInitializer' else None
                    if fi and fi['name'] in cr:
                        a = strip(kids(ci)[0]).get('referencedDecl', {}).get('id')
                        ids = [p['id'] for p in params_of(d)]
                        if a not in ids: self.err(n, 'reference member not bound to a parameter')
                        self.ctxrefs.setdefault(obj, {})[fi['name']] = vs[ids.index(a)]
            self.contract_call(n, d, o, kids(n), vs)
            o.owned = True
            return o
        return self.inline_ctor(n, t, rm, d, vs)

    def inline_ctor(self, n, t, rm, d, vs):
        obj = self.fresh('obj')
        self.scope_types[obj] = t
        self.emit('decl', obj, t, '%s_uninit()' % rm.rust)
        o = V(obj, t, ('var', obj))
        save_this, self.this = self.this, o
        if d['id'] in self.stack:
            self.err(n, 'recursive constructor')
        self.stack.append(d['id'])
        ps = params_of(d)
        if len(vs) < len(ps):
            vs = vs + [self.ex(a) for a in self.default_args(d, [], len(vs))[len(vs):]]
        self.bind_params(d, ps, vs)
        for c in kids(d):
            if c['kind'] == 'CXXCtorInitializer':
                fi = c.get('anyInit', {})
                if not fi:
                    b = c.get('baseInit', {}).get('qualType', '').split('::')[-1]
                    br = self.ix.records.get(b)
                    if br is None or any(x['kind'] in ('FieldDecl', 'CXXConstructorDecl') and not x.get('isImplicit') for x in kids(br)):
                        self.err(n, 'base initialiser')
                    continue
                if fi['name'] in (getattr(rm, 'ctxref', None) or {}):
                    self.ctxrefs.setdefault(obj, {})[fi['name']] = self.ex(kids(c)[0])
                    continue
                if fi['name'] in rm.drop:
                    continue
                fv = self.field(n, o, fi['name'])
                e = kids(c)
                if not e:
                    continue
                v = self.ex(e[0])
                if fi['name'] in rm.refs and v.lv is not None:
                    o.refs = dict(getattr(o, 'refs', {}))
                    o.refs[fi['name']] = v
                if v.ty.k == 'lit':
                    v = V('str_from(%s)' % self.lit_slice(v), STR) if fv.ty.k == 'str' else self.lit_it(v)
                self.assign(fv, self.own(v))
        body = body_of(d)
        st = self.stmts_inlined(d, body, None)
        self.emit('inlined', st, None, None)
        self.stack.pop()
        self.this = save_this
        o.owned = True
        return o

    # ---- calls
    def call_args(self, n):
        return kids(n)[1:]

    def callee(self, n):
        c = strip(kids(n)[0])
        while c['kind'] in ('ImplicitCastExpr',) or c['kind'] == 'ParenExpr':
            c = strip(kids(c)[0])
        return c

    def x_CallExpr(self, n):
        c = self.callee(n)
        if c['kind'] != 'DeclRefExpr':
            self.err(n, 'call through ' + c['kind'])
        rd = c['referencedDecl']
        args = self.call_args(n)
        d = self.ix.definition(rd['id'])
        if d is not None:
            return self.user_call(n, d, None, args)
        r = self.m.lib.call(self, n, rd, args)
        if r is None:
            self.err(n, 'call to %s %s' % (rd.get('name'), rd.get('type', {}).get('qualType')))
        return r

    def x_CXXOperatorCallExpr(self, n):
        c = self.callee(n)
        rd = c['referencedDecl']
        args = self.call_args(n)
        d = self.ix.definition(rd['id'])
        nm = rd['name']
        r = self.m.lib.operator(self, n, nm, args, rd)
        if r is not None:
            return r
        if d is not None and rd['kind'] == 'CXXMethodDecl':
            obj = self.ex(args[0])
            return self.user_call(n, d, obj, args[1:])
        if d is not None:
            return self.user_call(n, d, None, args)
        self.err(n, 'operator call ' + nm)

    def x_CXXMemberCallExpr(self, n):
        me = strip(kids(n)[0])
        if me['kind'] != 'MemberExpr':
            self.err(n, 'member call through ' + me['kind'])
        base = kids(me)[0]
        args = self.call_args(n)
        mid = me.get('referencedMemberDecl')
        d = self.ix.definition(mid) if mid else None
        b = self.ex(base)
        if me.get('isArrow'):
            if b.ty.k == 'ptr':
                b = self.heapobj(b)
            elif b.ty.k == 'addr':
                b = b.target
            elif b.ty.k != 'rec':
                b = self.deref(n, b)
        r = self.m.lib.method(self, n, b, me['name'], args)
        if r is not None:
            return r
        if d is not None:
            return self.user_call(n, d, b, args)
        self.err(n, 'method %s of %r' % (me['name'], b.ty))

    def bind_params(self, d, ps, vs):
        for p, v in zip(ps, vs):
            t = self.m.nty(p)
            v = self.coerce(v, t)
            if self.m.is_ref(p) and (v.lv is not None) and (self.m.is_ref_nonconst(p) or not t.copy or (t.k == 'rec' and rawtype(p).rstrip().endswith('&&'))):
                self.env[p['id']] = v
            else:
                nm = self.newname(p.get('name', 'arg'))
                if v.ty.k == 'psv': t = PSV
                self.scope_types[nm] = t
                self.emit('decl', nm, t, self.own(v))
                self.env[p['id']] = V(nm, t, ('var', nm))
                if hasattr(v, 'container'):
                    self.env[p['id']].container = v.container

    def coerce(self, v, t):
        if v.ty.k == 'lit':
            if t.k == 'sv': return V(self.lit_slice(v), SV)
            if t.k == 'it': return self.lit_it(v)
            if t.k == 'str': return V('str_from(%s)' % self.lit_slice(v), STR)
        if v.ty.k == 'str' and t.k == 'sv':
            return V('%s.as_slice()' % v.code, SV)
        if v.ty.k == 'sit' and t.k == 'it' and hasattr(v, 'container'):
            return V('It { s: %s.as_slice(), i: %s }' % (v.container.code, v.code), IT)
        if v.ty.k == 'psv' and t.k == 'sv':
            return V('psv_slice(%s)' % v.code, SV)
        if v.ty.k == 'ptr' and v.ty.a is None:
            return V(v.code, t)
        return v

    def default_args(self, d, args, skip=0):
        ps = params_of(d)
        out = []
        for i, p in enumerate(ps):
            if i < skip:
                out.append(None)
                continue
            a = args[i] if i < len(args) else None
            if a is None or strip(a)['kind'] == 'CXXDefaultArgExpr':
                # default lives on some declaration
                e = None
                for j, n in self.ix.decl.items():
                    if n['kind'] in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl') and self.ix.root(j) == self.ix.root(d['id']):
                        q = params_of(n)
                        if i < len(q) and kids(q[i]):
                            e = kids(q[i])[0]
                if e is None:
                    raise Unsupported('default argument')
                out.append(e)
            else:
                out.append(a)
        return out

    def user_call(self, n, d, obj, args):
        args = self.default_args(d, args)
        c = self.m.contract_for(d)
        if c is not None:
            return self.contract_call(n, d, obj, args)
        return self.inline_call(n, d, obj, args)

    def contract_call(self, n, d, obj, args, given=None):
        info = self.m.require(d)
        codes, backs = [], []
        pi = 0
        params = info.params
        retpath = None
        vals = []
        if info.rec is not None:
            pi = 1
            nm, t, mode = params[0]
            if t.k == 'ptr':
                codes.append(obj.lv[2] if obj.lv and obj.lv[0] == 'heapobj' else obj.code)
            elif mode == 'out':
                codes.append(self.take(obj))
                backs.append(obj)
            else:
                codes.append(self.asref(obj) if not t.copy else obj.code)
            if info.c.ret_alias == 'this_':
                retpath = obj
        argvals = {}
        copies = []
        if info.ctx and given is None:
            given = [self.ex(a) for a in args] + [self.ctxrefs[obj.code][c] for c in info.ctx]
            args = list(args) + [None] * len(info.ctx)
        for i, ((nm, t, mode), a) in enumerate(zip(params[pi:], args)):
            pk = (info.c.param_kinds.get(nm) or [None])[0]
            v = given[i] if given is not None and i < len(given) else self.m.pargs[pk](self, a) if pk in self.m.pargs else self.ex(a)
            if info.c.param_kinds.get(nm) == ['heapref']:
                if not (v.lv and v.lv[0] == 'heapobj'):
                    self.err(n, 'argument %s is not an object of the heap: %r %r' % (nm, v, v.lv))
                codes.append(v.lv[2])
                continue
            v = self.coerce(v, t)
            argvals[nm] = v
            if v.ty.k == 'addr':
                v = v.target
            if mode == 'out':
                if v.lv is None:
                    v = self.hoist(v)
                codes.append(self.take(v))
                backs.append(v)
            elif mode == 'ref':
                if v.lv and v.lv[0] == 'heapfield' and any(v.lv[1] == self.m.heaps[h].var for h in info.mut_heaps):
                    v = self.hoist(V(self.own(v), v.ty))       # the callee changes the heap, not this object
                codes.append(self.asref(v))
            else:
                codes.append(self.own(v))
                if t.copy: copies.append((len(codes) - 1, t))
            if info.c.ret_alias == nm:
                retpath = v
        for h in info.heaps:
            hm = self.m.heaps[h]
            if h not in info.mut_heaps:
                codes.append(('&' if h in self.info.mut_heaps else '') + hm.var)
            else:
                codes.append(hm.var)
                backs.append(V(hm.var, T('heap', h), ('var', hm.var)))
        for nm, tys, frm in info.extras:
            v = argvals[frm]
            if not hasattr(v, 'container'):
                self.err(n, 'iterator argument %s without a known container' % frm)
            codes.append(self.asref(v.container))
        roots = {re.match(r'\w*', b.code).group(0) for b in backs} - {''}
        for i, t in copies:
            # read before the object it is read from is passed on
            if any(re.search(r'(?<![\w.])%s\b' % r, codes[i]) for r in roots):
                codes[i] = self.hoist(V(codes[i], t)).code
        call = '%s(%s)' % (info.name, ', '.join(codes))
        t = self.fresh()
        if backs:
            outs = [self.fresh('o') for _ in backs]
            self.emit('line', 'let (%s) = %s;' % (', '.join([t] + outs), call))
            for b, o in zip(backs, outs):
                self.assign(b, o)
                self.writeback(b)
        else:
            self.emit('line', 'let %s = %s;' % (t, call))
        if info.throws:
            self.emit('rethrow', t)
            t2 = self.fresh()
            self.scope_types[t2] = info.ret
            self.emit('decl', t2, info.ret, 'exn_ok(%s)' % t)
            t = t2
        self.scope_types[t] = info.ret
        if retpath is not None:
            return retpath
        r = V(t, info.ret)
        if 'ret' in info.c.containers:
            r.container = V(re.sub(r'\bthis_\b', obj.code if obj is not None else 'this_', info.c.containers['ret']), None)
        if not info.ret.copy:
            r = V(t, info.ret, ('var', t))
            r.owned = True
        return r

    def writeback(self, b):
        """reference members of a local object: what they refer to has changed with them"""
        for fname, target in getattr(b, 'refs', {}).items():
            fv = self.field(None, b, fname)
            self.assign(target, self.m.lib.clone(self, fv))

    def inline_call(self, n, d, obj, args):
        if d['id'] in self.stack:
            self.err(n, 'recursive function without contract: ' + self.ix.qname[d['id']])
        self.m.inlined.add(self.ix.qname[d['id']])
        vs = [self.ex(a) for a in args]
        ps = params_of(d)
        save_this = self.this
        if obj is not None:
            self.this = obj
        self.stack.append(d['id'])
        save_env = dict(self.env)
        self.bind_params(d, ps, vs)
        body = body_of(d)
        bs = kids(body)
        try:
            if len(bs) == 1 and bs[0]['kind'] == 'ReturnStmt' and kids(bs[0]):
                return self.ex(kids(bs[0])[0])
            q = d['type']['qualType']
            rq = q[:q.index('(')].strip()
            if rq.endswith('&') and bs[-1]['kind'] == 'ReturnStmt' and not any(x['kind'] == 'ReturnStmt' for b in bs[:-1] for x in walk(b)):
                # the object referred to, and what is done before
                st = self.stmts_inlined(d, {'kind': 'CompoundStmt', 'inner': bs[:-1]}, None)
                for x in st: self.pre.append(x)
                return self.ex(kids(bs[-1])[0])
            t = self.m.ty(rq)
            rvname = None
            if t.k != 'unit':
                rvname = self.fresh('ret')
                self.scope_types[rvname] = t
                self.emit('decl', rvname, t, self.default(t))
            st = self.stmts_inlined(d, body, t)
            self.emit('inlined', st, rvname, t)
            if rvname is None:
                return V('()', UNIT)
            r = V(rvname, t, ('var', rvname))
            r.owned = not t.copy
            return r
        finally:
            self.stack.pop()
            self.this = save_this

    def stmts_inlined(self, d, body, t):
        self.loop_owner.append(self.ix.qname[d['id']].split('::')[-1])
        try:
            return self.stmt_list(kids(body))
        finally:
            self.loop_owner.pop()

    # ------------------------------------------------------------------ statements -> IR
    def stmt_list(self, ns):
        save = self.pre
        self.pre = []
        for i, s in enumerate(ns):
            self.stmt(s)
            d = self.raii_decl(s)
            if d is not None:
                rest = self.stmt_list(ns[i + 1:])
                self.emit('raii', rest, self.destroy(d))
                break
        r = self.pre
        self.pre = save
        return r

    def raii_decl(self, s):
        """the declaration of a variable whose destructor has a contract"""
        if s['kind'] != 'DeclStmt': return None
        for d in kids(s):
            v = self.env.get(d.get('id')) if d['kind'] == 'VarDecl' and not self.m.is_ref(d) else None
            if v is not None and v.ty.k == 'rec' and getattr(self.m.records.get(v.ty.a), 'ctxref', None) and self.has_dtor(v.ty):
                if len(kids(s)) != 1: self.err(d, 'several declarations')
                return d
        return None

    def has_dtor(self, t):
        return any(c['kind'] == 'CXXDestructorDecl' and not c.get('isImplicit') for c in kids(self.ix.records[self.m.records[t.a].cpp]))

    def dtor(self, t):
        for c in kids(self.ix.records[self.m.records[t.a].cpp]):
            if c['kind'] == 'CXXDestructorDecl':
                return self.ix.definition(c['id'])
        raise Unsupported('destructor of %s' % t.a)

    def destroy(self, d):
        v = self.env[d['id']]
        save, self.pre = self.pre, []
        dd = self.dtor(v.ty)
        cr = self.m.records[v.ty.a].ctxref
        self.contract_call(d, dd, v, [None] * len(cr), [self.ctxrefs[v.code][c] for c in cr])
        r, self.pre = self.pre, save
        return r

    def stmt(self, n):
        k = n['kind']
        f = getattr(self, 's_' + k, None)
        if f:
            return f(n)
        # expression statement
        v = self.ex(n)
        if v is not None and v.code not in ('()', '') and v.lv is None and '(' in v.code and not v.ty.k == 'lit':
            # keep the evaluation: it may carry obligations
            if v.ty.k != 'unit':
                self.emit('line', 'let _ = %s;' % v.code)
            else:
                self.emit('line', v.code + ';')
        elif v is not None and v.lv is not None and v.lv[0] in ('cit', 'arr'):
            self.emit('line', 'let _ = %s;' % v.code)

    def s_NullStmt(self, n):
        pass

    def s_CompoundStmt(self, n):
        st = self.stmt_list(kids(n))
        self.emit('block', st)

    def s_AttributedStmt(self, n):
        for c in kids(n):
            if not c['kind'].endswith('Attr'):
                self.stmt(c)

    def s_DeclStmt(self, n):
        for d in kids(n):
            if d['kind'] == 'VarDecl':
                self.vardecl(d)
            elif d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'UsingDirectiveDecl', 'StaticAssertDecl'):
                if d['kind'] == 'TypedefDecl':
                    self.ix.typedefs[d['name']] = qtype(d)
            else:
                self.err(d, 'local declaration')

    def vardecl(self, d):
        ini = [c for c in kids(d) if not c['kind'].endswith('Attr')]
        nm0 = d.get('name', 'anon')
        raw = rawtype(d)
        # arrays
        mt = re.search(r'\[(\d+)\]$', raw)
        if mt:
            e = strip(ini[0]) if ini else None
            if e is None:
                self.err(d, 'uninitialised array')
            v = self.ex(e)
            nm = self.newname(nm0)
            if v.ty.k == 'lit' and re.search(r'\bconst\b', raw):
                self.env[d['id']] = v       # a constant: materialised at each use
                return
            if v.ty.k == 'lit':
                self.emit('line', self.lit_decl(nm + '_arr', v.bytes + [0]))
                self.scope_types[nm] = IT
                self.emit('decl', nm, IT, 'It { s: %s_arr, i: 0 }' % nm)
                self.env[d['id']] = V(nm, IT, ('var', nm))
                return
            et = v.elems[0].ty
            self.emit('line', 'let %s: [%s; %d] = [%s];' % (nm, et.rust(), len(v.elems), ', '.join(x.code for x in v.elems)))
            if et == I8:
                self.emit('line', 'proof { lemma_cstr(%s@); }' % nm)
                self.env[d['id']] = V('It { s: %s.as_slice(), i: 0 }' % nm, IT, None)
            else:
                self.env[d['id']] = V(nm, T('arr', et), None)
            return
        if self.m.lib.vardecl(self, d, ini):
            return
        if self.m.is_ref(d):
            v = self.ex(ini[0])
            if v.lv is None:
                v = self.hoist(v, rname(nm0))
            self.env[d['id']] = v
            return
        if re.match(r'^\s*(const\s+)?auto\b', raw) and 'desugaredQualType' not in d.get('type', {}):
            t = None
        else:
            t = self.m.nty(d)
        nm = self.newname(nm0)
        if not ini:
            t = t or self.m.nty(d)
            self.scope_types[nm] = t
            self.emit('decl', nm, t, self.default(t))
            self.env[d['id']] = V(nm, t, ('var', nm))
            return
        v = self.ex(ini[0])
        if v.ty.k == 'psv' and t is not None and t.k == 'sv':
            t = PSV
        v = self.coerce(v, t)
        if t.k == 'bool' and v.ty.k == 'int':
            v = V('(%s != 0)' % v.code, BOOL)
        if t.k == 'str' and self.info.c.param_kinds.get(nm0) == ['slice']:
            # a const copy of a text: the text itself
            ms = re.fullmatch(r'str_from\((it_range\(.*\)|\w+)\)', v.code)
            if not ms or not re.search(r'\bconst\b', raw):
                self.err(d, 'not a constant copy of a text')
            v = V(ms.group(1), SV)
            t = SV
        self.scope_types[nm] = t
        self.emit('decl', nm, t, self.own(v))
        self.env[d['id']] = V(nm, t, ('var', nm))
        if hasattr(v, 'container'):
            self.env[d['id']].container = v.container
        if hasattr(v, 'refs'):
            self.env[d['id']].refs = v.refs
        if v.code in self.ctxrefs:
            self.ctxrefs[nm] = self.ctxrefs[v.code]

    def cond(self, n):
        v = self.ex(n)
        if v.ty.k == 'ptr':
            return '(%s != 0)' % v.code
        if v.ty.k == 'int':
            return '(%s != 0)' % v.code
        if v.ty.k != 'bool':
            self.err(n, 'condition of type %r' % v.ty)
        return v.code

    def s_IfStmt(self, n):
        ks = kids(n)
        st_all, = [self.stmt_if(n, ks)]

    def stmt_if(self, n, ks):
        # optional init / condition variable
        if n.get('hasVar') or n.get('hasInit'):
            self.stmt(ks[0])
            ks = ks[1:]
            # clang repeats the variable as the condition
        c = self.cond(ks[0])
        a = self.stmt_list([ks[1]])
        b = self.stmt_list([ks[2]]) if len(ks) > 2 else []
        self.emit('if', c, a, b)

    def s_ReturnStmt(self, n):
        ks = kids(n)
        if not ks:
            self.emit('ret', None)
            return
        v = self.ex(ks[0])
        if len(self.stack) == 1 and (self.info.c.ret_alias or self.info.ret == UNIT):
            self.emit('ret', None)
            return
        if len(self.stack) == 1:
            v = self.coerce(v, self.info.ret)
        self.emit('ret', self.own(v) if v.ty.k not in ('unit', 'lit') else (None if v.ty.k == 'unit' else self.lit_it(v).code))

    def s_BreakStmt(self, n):
        self.emit('break')

    def s_ContinueStmt(self, n):
        self.emit('continue')

    def number_loop(self):
        owner = self.loop_owner[-1]
        self.loop_counter[owner] = self.loop_counter.get(owner, 0) + 1
        return '%s%d' % (owner + '#' if owner else '', self.loop_counter[owner])

    def loop_ir(self, n, condf, bodyf, incf, dowhile=False):
        key = self.number_loop()
        cond, cst = self.sub(condf) if condf else (None, [])
        b = bodyf()
        inc = self.sub(incf)[1] if incf else []
        self.emit('loop', n['id'] + key, key, cst, cond, b, inc, dowhile)

    def s_WhileStmt(self, n):
        ks = kids(n)
        if len(ks) == 3:
            self.err(n, 'while with declaration')
        self.loop_ir(n, lambda: self.cond(ks[0]), lambda: self.stmt_list([ks[1]]), None)

    def s_DoStmt(self, n):
        ks = kids(n)
        c = ks[1]
        while c['kind'] == 'ImplicitCastExpr': c = kids(c)[0]
        if (c['kind'] == 'CXXBoolLiteralExpr' and not c['value']) or (c['kind'] == 'IntegerLiteral' and c['value'] == '0'):
            self.emit('once', self.stmt_list([ks[0]]))
            return
        self.loop_ir(n, lambda: self.cond(ks[1]), lambda: self.stmt_list([ks[0]]), None, True)

    def s_ForStmt(self, n):
        ks = n['inner']
        init, var, cond, inc, body = ks
        save = self.pre
        self.pre = []
        if init.get('kind'):
            self.stmt(init)
        self.loop_ir(n, (lambda: self.cond(cond)) if cond.get('kind') else None,
                     lambda: self.stmt_list([body]),
                     (lambda: self.stmt(inc)) if inc.get('kind') else None)
        st = self.pre
        self.pre = save
        self.emit('block', st)

    def s_CXXForRangeStmt(self, n):
        if not self.m.lib.range_for(self, n):
            self.err(n, 'range for')

    def s_SwitchStmt(self, n):
        ks = kids(n)
        v = self.ex(ks[0])
        v = self.hoist(V(v.code, v.ty), 'sw')
        arms = []      # (values or None for default, stmts)

        def collect(s):
            if s['kind'] == 'CaseStmt':
                cv = const_value(kids(s)[0])
                if cv is None:
                    # enum constant
                    e = kids(s)[0]
                    self_v = self.ex(e)
                    cv = int(re.match(r'\(?(-?\d+)', self_v.code).group(1))
                sub = kids(s)[-1]
                if sub['kind'] in ('CaseStmt', 'DefaultStmt'):
                    arms.append(([cv], []))
                    collect(sub)
                else:
                    arms.append(([cv], [sub]))
            elif s['kind'] == 'DefaultStmt':
                sub = kids(s)[0]
                arms.append((None, []))
                if sub['kind'] in ('CaseStmt', 'DefaultStmt'):
                    collect(sub)
                else:
                    arms[-1][1].append(sub)
            else:
                if not arms:
                    self.err(s, 'statement before first case')
                arms[-1][1].append(s)
        for s in kids(ks[1]):
            collect(s)
        # dispatch
        default = None
        merged = []
        for i, (vals, ss) in enumerate(arms):
            merged.append((vals, i))
        # code for entering at arm i: all statements from i on (cut at an unconditional jump)

        def run_from(i):
            out = []
            for _, ss in arms[i:]:
                for s in ss:
                    out.append(s)
                    if s['kind'] in ('BreakStmt', 'ReturnStmt', 'ContinueStmt') or strip(s)['kind'] == 'CXXThrowExpr':
                        return out
            return out
        groups = []
        i = 0
        while i < len(arms):
            vals = []
            isdef = False
            j = i
            # group labels that share a body
            while True:
                if arms[j][0] is None: isdef = True
                else: vals += arms[j][0]
                if arms[j][1] or j + 1 >= len(arms): break
                j += 1
            groups.append((vals, isdef, j))
            i = j + 1
        chain = []
        for vals, isdef, j in groups:
            if isdef:
                default = j
        build = self.stmt_list(run_from(default)) if default is not None else []
        for vals, isdef, j in reversed(groups):
            if isdef:
                continue
            c = ' || '.join('%s == %s' % (v.code, ('(%d)' % x) if x < 0 else x) for x in vals)
            # per-arm counters for loops are shared; loops inside switch arms are numbered in emission order
            build = [('if', '(%s)' % c, self.stmt_list(run_from(j)), build)]
        self.emit('brkscope', build)

    def s_CXXTryStmt(self, n):
        ks = kids(n)
        self.has_try = True
        body = self.stmt_list([ks[0]])
        hs = []
        for c in ks[1:]:
            cs = kids(c)
            d = cs[0] if cs and cs[0]['kind'] == 'VarDecl' else None
            kinds = None
            if d is not None:
                t = norm_type(qtype(d)).rstrip('& ').replace('const ', '').split('::')[-1]
                kinds = [t] + self.m.lib.exn_sub.get(t, [])
            hs.append((kinds, self.stmt_list([cs[-1]])))
        self.emit('try', body, hs)

    def s_CXXForRange(self, n):
        self.err(n, 'range for')

    # ------------------------------------------------------------------ IR -> Rust (continuation passing at loops)
    def needs_cps(self, st, in_brk=False, in_loop=False, in_inl=False):
        for s in st:
            k = s[0]
            if k in ('loop', 'break', 'continue'):
                if k == 'loop': return True
                return True
            if k == 'inlined':
                if self.has_ret(s[1]): 
                    return True
                if self.needs_cps(s[1]): return True
            elif k == 'ret' and in_inl:
                return True
            elif k == 'try' or k in ('throw', 'rethrow') and self.has_try:
                return True
            elif k in ('block', 'brkscope', 'once', 'raii'):
                if k == 'brkscope':
                    return True
                if self.needs_cps(s[1]): return True
            elif k == 'if':
                if self.needs_cps(s[2]) or self.needs_cps(s[3]): return True
        return False

    def has_ret(self, st):
        for s in st:
            if s[0] == 'ret': return True
            if s[0] == 'try' and (self.has_ret(s[1]) or any(self.has_ret(h) for _, h in s[2])): return True
            if s[0] in ('block', 'brkscope', 'once', 'raii') and self.has_ret(s[1]): return True
            if s[0] == 'if' and (self.has_ret(s[2]) or self.has_ret(s[3])): return True
            if s[0] == 'loop' and self.has_ret(s[5]): return True
        return False

    def push(self, st, ctx, todo):
        for s in reversed(st):
            todo = (s, ctx, todo)
        return todo

    def ret_code(self, code):
        info = self.info
        c = code if code is not None else '()'
        if info.throws:
            c = 'Ok(%s)' % c
        if info.outs:
            c = '(%s, %s)' % (c, ', '.join(n for n, _ in info.outs))
        return c

    def throw_code(self, kind):
        info = self.info
        if not info.throws:
            return 'return unexpected_throw();'
        c = 'Err(Exn { kind: %s })' % kind
        if info.outs:
            c = '(%s, %s)' % (c, ', '.join(n for n, _ in info.outs))
        return 'return %s;' % c

    def exn_kind(self, name):
        if name not in self.m.lib.exn_kinds:
            self.m.lib.exn_kinds[name] = len(self.m.lib.exn_kinds) + 1
        return 'EXN_' + re.sub(r'\W', '_', name)

    def tail_proof(self, ind):
        t = self.c.tail
        if not t:
            return ''
        return ind + 'proof { %s }\n' % self.subst_loop(t)

    def gen(self, todo, ind, structured=False):
        """returns Rust text"""
        out = []
        while True:
            if todo is None:
                if structured:
                    return ''.join(out)
                if self.info.ret.k != 'unit':
                    # falling off the end of a non-void function
                    out.append(ind + 'return unreachable_end();\n')
                else:
                    out.append(self.tail_proof(ind))
                    out.append(ind + 'return %s;\n' % self.ret_code(None))
                return ''.join(out)
            s, ctx, todo = todo
            k = s[0]
            if k == 'line':
                out.append(ind + s[1] + '\n')
            elif k == 'decl':
                out.append('%slet mut %s: %s = %s;\n' % (ind, s[1], self.info.rust_t(s[2]).replace("<'a>", "<'_>"), s[3]))
            elif k == 'block':
                todo = self.push(s[1], ctx, todo)
            elif k == 'raii':
                # the rest of the scope, then the destructor; a jump out of the scope over it is not supported
                inner = Ctx(None, None, ctx.ret, (s[2],) + ctx.clean, ctx.outer, ctx.hand)
                todo = self.push(s[1], inner, self.push(s[2], ctx, todo))
            elif k == 'if':
                simple = not self.needs_cps(s[2]) and not self.needs_cps(s[3])
                if simple and ctx.ret is not None and (self.has_ret(s[2]) or self.has_ret(s[3])):
                    simple = False
                if simple:
                    a = self.gen(self.push(s[2], ctx, None), ind + '    ', True)
                    b = self.gen(self.push(s[3], ctx, None), ind + '    ', True)
                    out.append('%sif %s {\n%s%s}' % (ind, s[1], a, ind))
                    if b:
                        out.append(' else {\n%s%s}' % (b, ind))
                    out.append('\n')
                else:
                    if structured:
                        raise Unsupported('jump in structured context')
                    a = self.gen(self.push(s[2], ctx, todo), ind + '    ')
                    b = self.gen(self.push(s[3], ctx, todo), ind + '    ')
                    out.append('%sif %s {\n%s%s} else {\n%s%s}\n' % (ind, s[1], a, ind, b, ind))
                    return ''.join(out)
            elif k == 'brkscope':
                if structured:
                    raise Unsupported('switch in structured context')
                todo = self.push(s[1], Ctx(('T', todo), ctx.cont, ctx.ret, ctx.clean, ctx.outer, ctx.hand), todo)
            elif k == 'once':
                if self.needs_cps(s[1]):
                    if structured:
                        raise Unsupported('do-while(0) in structured context')
                    todo = self.push(s[1], Ctx(('T', todo), ('T', todo), ctx.ret, ctx.clean, ctx.outer, ctx.hand), todo)
                else:
                    todo = self.push(s[1], ctx, todo)
            elif k == 'break':
                todo = ctx.brk[1]
            elif k == 'continue':
                todo = ctx.cont[1]
            elif k == 'ret':
                if ctx.ret is not None:
                    rvname, t, after = ctx.ret
                    if rvname is not None and s[1] is not None:
                        out.append('%s%s = %s;\n' % (ind, rvname, s[1]))
                    self.gen_clean(out, ctx.clean, ind)
                    todo = after
                elif ctx.clean:
                    rv = s[1]
                    if rv is not None:
                        out.append('%slet ret__ = %s;\n' % (ind, rv))
                        rv = 'ret__'
                    self.gen_clean(out, ctx.clean, ind)
                    out.append(self.tail_proof(ind))
                    out.append('%sreturn %s;\n' % (ind, self.ret_code(rv)))
                    return ''.join(out)
                else:
                    if s[1] is not None and self.c.tail:
                        out.append('%slet ret__ = %s;\n' % (ind, s[1]))
                        out.append(self.tail_proof(ind))
                        out.append('%sreturn %s;\n' % (ind, self.ret_code('ret__')))
                    else:
                        out.append(self.tail_proof(ind))
                        out.append('%sreturn %s;\n' % (ind, self.ret_code(s[1])))
                    return ''.join(out)
            elif k == 'try':
                if structured:
                    raise Unsupported('try in structured context')
                todo = self.push(s[1], Ctx(ctx.brk, ctx.cont, ctx.ret, ctx.clean, ctx.outer, (s[2], ctx, todo)), todo)
            elif k == 'throw' and ctx.hand:
                out.append('%slet e__ = %s;\n' % (ind, self.exn_kind(s[1]) if s[1] != 'e__' else s[1]))
                out.append(self.gen(self.thrown(out, ctx, ind), ind))
                return ''.join(out)
            elif k == 'rethrow' and ctx.hand:
                if structured:
                    raise Unsupported('exception in structured context')
                o = ['%sif exn_is_err(&%s) {\n%s    let e__ = exn_kind_of(&%s);\n' % (ind, s[1], ind, s[1])]
                o.append(self.gen(self.thrown(o, ctx, ind + '    '), ind + '    '))
                out.append(''.join(o) + ind + '}\n')
            elif k == 'throw':
                self.gen_clean(out, ctx.clean + ctx.outer, ind)
                out.append(ind + self.throw_code(self.exn_kind(s[1]) if s[1] != 'e__' else s[1]) + '\n')
                return ''.join(out)
            elif k == 'rethrow':
                out.append('%sif exn_is_err(&%s) {\n%s    let e__ = exn_kind_of(&%s);\n' % (ind, s[1], ind, s[1]))
                self.gen_clean(out, ctx.clean + ctx.outer, ind + '    ')
                out.append('%s    %s\n%s}\n' % (ind, self.throw_code('e__'), ind))
            elif k == 'inlined':
                st, rvname, t = s[1], s[2], s[3]
                if structured and (self.has_ret(st) or self.needs_cps(st)):
                    raise Unsupported('inlined return in structured context')
                todo = self.push(st, Ctx(ctx.brk, ctx.cont, (rvname, t, todo), (), ctx.clean + ctx.outer, ctx.hand), todo)
            elif k == 'loop':
                if structured:
                    raise Unsupported('loop in structured context')
                out.append(self.enter_loop(s, ctx, todo, ind))
                return ''.join(out)
            elif k == 'branch':
                a = self.gen(s[2], ind + '    ')
                b = self.gen(s[3], ind + '    ')
                out.append('%sif %s {\n%s%s} else {\n%s%s}\n' % (ind, s[1], a, ind, b, ind))
                return ''.join(out)
            elif k == 'jump':
                out.append(self.tail_proof(ind))
                out.append(self.call_marker(s[1], ind))
                return ''.join(out)
            else:
                raise Unsupported('IR ' + k)

    def thrown(self, out, ctx, ind):
        """the handlers of the try statement that ctx is in, of the exception e__"""
        hs, c, after = ctx.hand
        clean = ctx.clean + ctx.outer
        self.gen_clean(out, clean[:len(clean) - len(c.clean + c.outer)], ind)
        st = [('throw', 'e__')]
        for kinds, h in reversed(hs):
            st = h if kinds is None else [('if', '(%s)' % ' || '.join('e__ == ' + self.exn_kind(x) for x in kinds), h, st)]
        return self.push(st, c, after)

    def gen_clean(self, out, clean, ind):
        for st in clean:
            out.append(self.gen(self.push(st, Ctx(), None), ind, True))

    def call_marker(self, fid, ind):
        return '%sreturn @@CALL:%d@@;\n' % (ind, fid)

    def enter_loop(self, s, ctx, todo, ind):
        _, nid, key, cst, cond, body, inc, dowhile = s
        memo = (nid, id(todo))
        if memo in self.loopfns:
            return self.tail_proof(ind) + self.call_marker(self.loopfns[memo], ind)
        fid = len(self.loop_texts)
        self.loopfns[memo] = fid
        rec = {'key': key, 'text': None, 'todo': todo}
        self.loop_texts.append(rec)
        jump = (('jump', fid), ctx, None)
        brk = ('T', todo)
        if dowhile:
            check = self.push(cst, ctx, (('branch', cond, jump, todo), ctx, None))
            bodytodo = self.push(body, Ctx(brk, ('T', check), ctx.ret, ctx.clean, ctx.outer, ctx.hand), check)
            rec['text'] = self.gen(bodytodo, '    ')
        else:
            incs = self.push(inc, ctx, jump)
            inner_ctx = Ctx(brk, ('T', incs), ctx.ret, ctx.clean, ctx.outer, ctx.hand)
            bodytodo = self.push(body, inner_ctx, incs)
            if cond is None:
                rec['text'] = self.gen(bodytodo, '    ')
            else:
                rec['text'] = self.gen(self.push(cst, ctx, (('branch', cond, bodytodo, todo), ctx, None)), '    ')
        return self.tail_proof(ind) + self.call_marker(fid, ind)

    # ------------------------------------------------------------------ contract text
    def subst(self, text, loop=False, ret=False):
        """rename contract identifiers.  x: current/final value; in_x: value on entry; ret: returned value"""
        info = self.info
        outs = {n: i for i, (n, _) in enumerate(info.outs)}
        names = {n for n, _, _ in info.params}

        def f(mo):
            w = mo.group(0)
            if w == 'ret':
                if loop:
                    return 'ret__'
                return 'r_.0' if info.outs else 'r_'
            if w.startswith('in_') and w[3:] in names:
                if loop:
                    return w if self.in_loop_fn is None else w + '@' if False else w
                return w[3:]
            if not loop and w in outs:
                return 'r_.%d' % (outs[w] + 1)
            return w
        return re.sub(r"(?<![\w.])[A-Za-z_]\w*", f, text)

    in_loop_fn = None

    def declare(self):
        """the contract alone: the body is verified in another unit"""
        info, c = self.info, self.c
        req = ''.join('        %s,\n' % self.subst_req(x) for nm, x in c.requires)
        ens = ''.join('        %s,\n' % self.subst(x) for nm, x in c.ensures)
        sig = "pub fn %s<'a>(%s) -> (r_: %s)" % (info.name, ', '.join('%s: %s' % (n, info.ptype(t, md)) for n, t, md in info.params), info.ret_rust())
        self.m.imported_out.append('// %s\n#[verifier::external_body]\n%s\n%s%s{ unimplemented!() }\n' % (
            'proved in unit %s' % c.imported if c.imported else 'assumed', sig, '    requires\n' + req if req else '', '    ensures\n' + ens if ens else ''))
        if c.imported: self.m.imported.append(info.name)

    def lifetime_decl(self):
        return "<'a>"

    def run(self):
        m, info, f, c = self.m, self.info, self.info.f, self.c
        # bind parameters
        pi = 0
        if info.rec is not None:
            nm, t, mode = info.params[0]
            pi = 1
            if t.k == 'ptr':
                self.this = V('this_', t)
                hv = self.heapobj(self.this)
                self.this = V('this_', t, ('var', 'this_'))
            else:
                self.this = V('this_', t, ('cref',) if mode == 'ref' else ('var', 'this_'))
        ps = params_of(f)
        for (nm, t, mode), p in zip(info.params[pi:], ps):
            self.scope_types[nm] = t
            self.env[p['id']] = V(nm, t, ('cref',) if mode == 'ref' else ('var', nm))
            if c.param_kinds.get(nm) == ['heapref']:
                self.env[p['id']] = self.heapobj(V(nm, t, ('var', nm)))
            if nm in c.containers:
                self.env[p['id']].container = V(c.containers[nm], None)
        for nm, t, mode in info.params:
            self.scope_types[nm] = t
            self.used.add(nm)
        if info.ctx:
            self.ctxrefs['this_'] = {nm: V(nm, T('rec', rt), ('var', nm)) for nm, rt in m.records[info.rec['name']].ctxref.items()}
        self.pre = []
        if f['kind'] == 'CXXConstructorDecl':
            self.ctor_inits(f)
        init = self.pre
        self.pre = []
        ir = init + self.stmt_list(kids(body_of(f)))
        ctx = Ctx(None, None, None)
        text = self.gen(self.push(ir, ctx, None), '    ')
        self.finish(text)

    def ctor_inits(self, f):
        for ci in kids(f):
            if ci['kind'] != 'CXXCtorInitializer': continue
            e = kids(ci)
            if 'baseInit' in ci:
                base = norm_type(ci['baseInit']['qualType']).split('::')[-1]
                if len(e) != 1 or e[0]['kind'] != 'CXXConstructExpr':
                    self.err(f, 'base initialiser')
                if base in self.m.links: continue
                sig = e[0]['ctorType']['qualType']
                for c in kids(self.ix.records[base]):
                    if c['kind'] == 'CXXConstructorDecl' and c['type']['qualType'] == sig:
                        d = self.ix.definition(c['id'])
                        if d is None: self.err(f, 'base constructor')
                        self.m.inlined.add(base + '::' + base)
                        self.bind_params(d, params_of(d), [self.ex(a) for a in kids(e[0])])
                        self.ctor_inits(d)
                        if kids(body_of(d)):
                            self.emit('inlined', self.stmts_inlined(d, body_of(d), UNIT), None, UNIT)
                        break
                else:
                    self.err(f, 'base constructor of ' + base)
                continue
            fi = ci.get('anyInit')
            if not fi:
                self.err(f, 'base initialiser')
            if not e: continue
            if fi['name'] in (getattr(self.m.records.get(self.this.ty.a), 'ctxref', None) or {}):
                self.ctxrefs.setdefault(self.this.code, {})[fi['name']] = self.ex(e[0])
                continue
            if fi['name'] in self.m.records[self.this.ty.a].drop: continue
            fv = self.field(f, self.this, fi['name'])
            v = self.coerce(self.ex(e[0]), fv.ty)
            self.assign(fv, self.own(v))

    def finish(self, text):
        m, info, c = self.m, self.info, self.c
        # scope variables used by each loop function
        names = set(self.scope_types)
        lt = self.loop_texts
        auto = self.auto_facts([text] + [r['text'] for r in lt])
        uses, decls, callees = [], [], []
        invs = []
        for r in lt:
            spec = c.loop_spec(r['key'], self)
            r['spec'] = spec
            t = r['text']
            specs = ' '.join(x for _, x in spec.inv) + ' ' + (spec.decreases or '') + ' ' + (spec.head or '')
            r['spectext'] = specs
            w = set(re.findall(r'(?<![\w.])[A-Za-z_]\w*', t))
            uses.append(w & names | {n for n, _ in info.outs} & names)
            dc = set(re.findall(r'\blet (?:mut )?(\w+)', t))
            for g in re.findall(r'\blet \(([^)]*)\) =', t):
                dc |= set(re.findall(r'\w+', g))
            decls.append(dc)
            callees.append(set(int(x) for x in re.findall(r'@@CALL:(\d+)@@', t)))
        need = [set(u) - d for u, d in zip(uses, decls)]
        # variables mentioned by the invariants
        for i, r in enumerate(lt):
            w = set(re.findall(r'(?<![\w.])[A-Za-z_]\w*', r['spectext']))
            need[i] |= (w & names) - decls[i]
        for i in range(len(lt)):
            for n in list(need[i]):
                for fact in auto.get(n, []):
                    w = set(re.findall(r'(?<![\w.])[A-Za-z_]\w*', fact))
                    if not (w & decls[i]):
                        need[i] |= w & names
        changed = True
        while changed:
            changed = False
            for i, r in enumerate(lt):
                s = set(need[i])
                for j in callees[i]:
                    s |= need[j]
                s -= (decls[i] - set())
                if s != need[i]:
                    need[i] = s
                    changed = True
        entry = [(n, t, md) for n, t, md in info.params]
        alltext = ' '.join([x for _, x in c.ensures] + [r['spectext'] for r in lt] + [c.tail or ''] + [c.decreases or ''])
        ghosts = [(n, t, md) for n, t, md in entry]
        order = {n: i for i, n in enumerate(self.scope_types)}
        sigs = []
        for i, r in enumerate(lt):
            vs = sorted(need[i], key=lambda n: order[n])
            sigs.append(vs)
        pmode = {n: md for n, _, md in info.params}

        def callfix(t, in_loop):
            def f(mo):
                j = int(mo.group(1))
                a = ['in_%s' % n if True else '' for n, _, _ in ghosts]
                return '%s_L%d(%s)' % (info.name, j + 1, ', '.join(a + sigs[j]))
            return re.sub(r'@@CALL:(\d+)@@', f, t)

        def ptype(n):
            t = self.scope_types[n]
            if pmode.get(n) == 'ref' and not t.copy:
                return info.ptype(t, 'ref')
            return info.rust_t(t)
        o = []
        lname = self.m.ix.qname[info.f['id']]
        o.append('// ---- %s  (%s)' % (lname, info.f['type']['qualType']))
        attrs = ''
        if not c.terminates:
            attrs += '#[verifier::exec_allows_no_decreases_clause]\n'
        if c.rlimit:
            attrs += '#[verifier::rlimit(%s)]\n' % c.rlimit
        if c.attrs:
            attrs += c.attrs + '\n'
        mut_rebind = ''.join('    let mut %s = %s;\n' % (n, n) for n, t, md in info.params if md != 'ref')
        ghost_bind = ''.join('    let ghost in_%s = %s;\n' % (n, n) for n, _, _ in ghosts)
        ghost_pack = ''
        head = '    proof { %s }\n' % self.subst_loop(c.head) if c.head else ''
        req = ''.join('        %s, // %s.requires.%s\n' % (self.subst_req(x), info.name, nm) for nm, x in c.requires)
        ens = ''.join('        %s, // %s.ensures.%s\n' % (self.subst(x), info.name, nm) for nm, x in c.ensures)
        sig = "pub fn %s<'a>(%s) -> (r_: %s)" % (info.name, ', '.join('%s: %s' % (n, info.ptype(t, md)) for n, t, md in info.params), info.ret_rust())
        o.append('%s%s\n%s%s%s{\n%s%s%s%s}\n' % (
            attrs, sig, '    requires\n' + req if req else '', '    ensures\n' + ens if ens else '',
            ('    decreases %s,\n' % self.subst_req(c.decreases)) if c.decreases else '',
            ghost_bind.replace('let ghost in_', 'let ghost g_in_') if False else ''.join('    let in_%s: Ghost<%s> = Ghost(%s);\n' % (n, self.ghost_t(t), self.ghost_v(n, t, md)) for n, t, md in ghosts),
            mut_rebind, head, callfix(text, False)))
        for i, r in enumerate(lt):
            spec = r['spec']
            req = ''.join('        %s, // %s.loop%s.inv.%s\n' % (self.subst_loop(x, True), info.name, r['key'], nm) for nm, x in spec.inv)
            for n in sigs[i]:
                for fact in auto.get(n, []):
                    w = set(re.findall(r'(?<![\w.])[A-Za-z_]\w*', fact))
                    if not ((w & names) - set(sigs[i])):
                        req += '        %s, // %s.loop%s.inv.auto_%s\n' % (fact, info.name, r['key'], n)
            # parameters passed by const reference do not change
            for n in sigs[i]:
                if pmode.get(n) == 'ref':
                    t = self.scope_types[n]
                    req += '        in_%s@ == %s, // %s.loop%s.inv.const_%s\n' % (n, n if t.copy else '*' + n, info.name, r['key'], n)
            ens = ''.join('        %s, // %s.ensures.%s\n' % (self.subst_ens_loop(x), info.name, nm) for nm, x in c.ensures)
            ps = ', '.join(['in_%s: Ghost<%s>' % (n, self.ghost_t(t)) for n, t, md in ghosts] + ['%s: %s' % (n, ptype(n)) for n in sigs[i]])
            rb = ''.join('    let mut %s = %s;\n' % (n, n) for n in sigs[i] if pmode.get(n) != 'ref')
            head = '    proof { %s }\n' % self.subst_loop(spec.head, False) if spec.head else ''
            o.append("%spub fn %s_L%d<'a>(%s) -> (r_: %s)\n%s%s%s{\n%s%s%s}\n" % (
                attrs, info.name, i + 1, ps, info.ret_rust(),
                '    requires\n' + req if req else '', '    ensures\n' + ens if ens else '',
                ('    decreases %s,\n' % self.subst_loop(spec.decreases, True)) if spec.decreases else '',
                rb, head, callfix(r['text'], True)))
        self.m.out.append('\n'.join(o))
        self.m.under_contract.append({'function': lname, 'rust': info.name, 'loops': len(lt), 'ensures': [n for n, _ in c.ensures],
                                      'requires': [n for n, _ in c.requires], 'file': info.f.get('_file')})
        self.m.loops_total += len(lt)

    def auto_facts(self, texts):
        """loop invariants that follow from the shape of the code alone: a variable that is never assigned after its
        definition, an iterator that is only moved (they are proved like any other invariant)"""
        info = self.info
        pmode = {n: md for n, _, md in info.params}
        alltext = '\n'.join(texts)
        defs, bad = {}, set()
        for mo in re.finditer(r'(?m)\blet (?:mut )?(\w+)(?:: [^=;]*?)? = (.*);[^;\n]*$|(?<![\w.])(\w+) = ([^=].*);', alltext):
            defs.setdefault(mo.group(1) or mo.group(3), []).append((bool(mo.group(1)), (mo.group(2) or mo.group(4)).strip()))
        for n in self.scope_types:
            if re.search(r'&mut %s\b|(?<![\w.])%s(?:\.\w+)+ = |\(([^()]*,)?\s*%s\s*(,[^()]*)?\) = ' % (n, n, n), alltext):
                bad.add(n)

        def const(n):
            if n not in self.scope_types or n in bad:
                return False
            if n in pmode:
                return n not in defs
            # emitted several times on different paths: always the same definition
            return n in defs and len(set(c for _, c in defs[n])) == 1 and all(l for l, _ in defs[n])
        facts = {}
        for n, t in self.scope_types.items():
            if n in bad:
                continue
            if n in pmode and pmode[n] != 'ref' and t.copy and const(n) and t.k in ('sv', 'it', 'int', 'bool'):
                facts.setdefault(n, []).append('%s == in_%s@' % (n, n))
            if n not in pmode and const(n):
                c = defs[n][0][1]
                mo = re.fullmatch(r'(sv_begin|sv_end)\((\w+)\)', c)
                if t.k == 'it' and mo and const(mo.group(2)):
                    facts.setdefault(n, []).append('%s.s@ == %s@ && %s.i == %s' % (n, mo.group(2), n, mo.group(2) + '@.len()' if mo.group(1) == 'sv_end' else '0'))
                mo = re.fullmatch(r'(\w+)\.len\(\)', c)
                if t.k in ("int", "sit") and mo and const(mo.group(1)) and self.scope_types[mo.group(1)].k in ('sv', 'str'):
                    facts.setdefault(n, []).append('%s == %s@.len()' % (n, mo.group(1)))
        # iterators that are only moved stay in their text
        root = {}

        def src(n, seen):
            if n in seen:
                return set()
            seen = seen | {n}
            rs = set()
            if n in pmode:
                rs.add('in_%s@.s' % n)
            if n in bad:
                return {None}
            for l, c in defs.get(n, []):
                mo = re.fullmatch(r'(?:sv_begin|sv_end)\((\w+)\)', c)
                if mo and const(mo.group(1)):
                    rs.add(mo.group(1))
                    continue
                mo = re.fullmatch(r'(\w+)(?:\.(?:inc|dec)\(\))?', c)
                if mo and mo.group(1) in self.scope_types and self.scope_types[mo.group(1)].k == 'it':
                    rs |= src(mo.group(1), seen)
                    continue
                mo = re.fullmatch(r"(\w+)\.(?:add|sub)\(.*\)", c)
                if mo and mo.group(1) in self.scope_types:
                    rs |= src(mo.group(1), seen)
                    continue
                rs.add(None)
            return rs
        for n, t in self.scope_types.items():
            if t.k == 'it' and n not in facts and (n in defs or n in pmode):
                rs = src(n, frozenset())
                if len(rs) == 1 and None not in rs:
                    facts.setdefault(n, []).append('%s.s@ == %s@' % (n, rs.pop()))
        return facts

    # in_x inside proofs / loop functions is a Ghost<T>
    def ghost_t(self, t):
        return t.rust()

    def ghost_v(self, n, t, md):
        return ('*' + n) if md == 'ref' and not t.copy else n

    def subst_loop(self, text, spec=False):
        names = {n for n, _, _ in self.info.params}

        def f(mo):
            w = mo.group(0)
            if w.startswith('in_') and w[3:] in names:
                return w + '@'
            if w == 'ret': return 'ret__'
            return w
        return re.sub(r"(?<![\w.])[A-Za-z_]\w*", f, text)

    def subst_req(self, text):
        names = {n for n, _, _ in self.info.params}

        def f(mo):
            w = mo.group(0)
            if w.startswith('in_') and w[3:] in names:
                return w[3:]
            return w
        return re.sub(r"(?<![\w.])[A-Za-z_]\w*", f, text)

    def subst_ens_loop(self, text):
        info = self.info
        outs = {n: i for i, (n, _) in enumerate(info.outs)}
        names = {n for n, _, _ in info.params}

        def f(mo):
            w = mo.group(0)
            if w == 'ret':
                return 'r_.0' if info.outs else 'r_'
            if w.startswith('in_') and w[3:] in names:
                return w + '@'
            if w in outs:
                return 'r_.%d' % (outs[w] + 1)
            if w in names:
                return 'in_' + w + '@'
            return w
        r = re.sub(r"(?<![\w.])[A-Za-z_]\w*", f, text)
        refs = [n for n, _, md in info.params if md == 'ref']
        return re.sub(r'\*(in_(?:%s)@)' % '|'.join(refs), r'\1', r) if refs else r

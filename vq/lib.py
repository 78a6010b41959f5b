"""Model of the C++ library operations the code under contract uses: C++ operation -> prelude function."""
import re
from cppast import *
from trans import *


class Lib:
    def __init__(self):
        self.exn_kinds = {'out_of_range': 1}
        self.exn_sub = {}       # the classes derived from a class of exceptions
        self.types = {
            'quickbook::string_view': SV, 'string_view': SV, 'boost::string_view': SV, 'boost::basic_string_view<char>': SV,
            'boost::basic_string_view<char, std::char_traits<char>>': SV, 'basic_string_view<char, std::char_traits<char>>': SV,
            'boost::basic_string_view<char, char_traits<char>>': SV, 'basic_string_view<char>': SV,
            'std::string': STR, 'std::basic_string<char>': STR, 'string': STR, 'std::__cxx11::basic_string<char>': STR,
            'basic_string<char>': STR, 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>': STR,
            'basic_string<char, std::char_traits<char>, std::allocator<char>>': STR,
            'std::ostream': OS, 'std::basic_ostream<char>': OS, 'std::stringstream': OS, 'std::ostringstream': OS, 'ostream': OS,
            'basic_ostream<char>': OS, 'std::basic_ostringstream<char>': OS,
            'boost::string_view::const_iterator': IT, 'quickbook::string_view::const_iterator': IT, 'string_iterator': IT,
            'string_view::const_iterator': IT,
            '__gnu_cxx::__normal_iterator<char *, std::basic_string<char>>': T('sit'),
            'std::string::iterator': T('sit'), 'iterator': T('sit'),
            'std::basic_string<char>::iterator': T('sit'),
            'std::string::const_iterator': T('sit'), 'std::basic_string<char>::const_iterator': T('sit'),
            '__gnu_cxx::__normal_iterator<const char *, std::basic_string<char>>': T('sit'),
            'std::istream_iterator<char>': IT, 'std::back_insert_iterator<std::basic_string<char>>': BI,
            'istream_iterator<char>': IT, 'back_insert_iterator<std::basic_string<char>>': BI,
            'std::string::size_type': U64, 'size_type': U64, 'string_view::size_type': U64, 'quickbook::string_view::size_type': U64, 'boost::string_view::size_type': U64, 'difference_type': I64,
        }
        self.type_rx = [
            (re.compile(r'__gnu_cxx::__normal_iterator<(.*?) \*, (?:std::)?vector<.*>>'), lambda m, x: T('vit', m.ty(x.group(1)))),
            (re.compile(r'(?:std::)?vector<(.*?)>::const_iterator'), lambda m, x: T('vit', m.ty(x.group(1)))),
            (re.compile(r'(?:boost::)?intrusive_ptr<(.*?)>'), lambda m, x: m.ty(x.group(1))),
            (re.compile(r'(?:std::)?vector<(.*?)(?:, std::allocator<.*>)?>'), lambda m, x: T('vec', m.ty(x.group(1)))),
        ]
        self.hooks = []      # extra module-specific handlers (objects with any of the methods below)

    def _hook(self, meth, *a):
        for h in self.hooks:
            f = getattr(h, meth, None)
            if f:
                r = f(*a)
                if r is not None:
                    return r
        return None

    # ------------------------------------------------------------------
    def clone(self, ft, v):
        if v.ty.k in ('str', 'os'):
            return 'str_clone(%s)' % ft.asref(v)
        if v.ty.k == 'rec':
            return '%s_clone(%s)' % (v.ty.a.split('::')[-1], ft.asref(v))
        r = self._hook('clone', ft, v)
        if r is not None:
            return r
        if v.ty.k == 'vec' and v.ty.a.copy:
            return 'vec_copy_clone(&%s)' % v.code
        raise Unsupported('copy of %r' % v.ty)

    def default(self, ft, ty):
        return self._hook('default', ft, ty)

    def slice(self, ft, v):
        """code of type &[i8] for a text-like value"""
        if v.ty.k == 'lit':
            return ft.lit_slice(v)
        if v.ty.k == 'str':
            return '%s.as_slice()' % v.code
        if v.ty.k == 'sv':
            return v.code
        if v.ty.k == 'psv':
            return 'psv_slice(%s)' % v.code
        if v.ty.k == 'it':
            return 'cstr_slice(%s)' % v.code
        raise Unsupported('text of %r' % v.ty)

    def global_var(self, ft, rd, n):
        if rd['name'] == 'npos':
            return V('NPOS', U64)
        return self._hook('global_var', ft, rd, n)

    def deref(self, ft, n, v):
        if v.ty.k == 'vit' and v.ty.a is not None and v.ty.a.k == 'rec':
            r = self._hook('deref', ft, n, v)
            if r is not None: return r
        if v.ty.k == 'vit':
            return V('%s[%s]' % (v.container.code, v.code), v.ty.a, ('cref',) if v.ty.a.copy else ('celem',))
        if v.ty.k in ('bi', 'rec'):
            return v
        if v.ty.k == 'sit':
            c = v.container
            return V('str_at(&%s, %s)' % (c.code, v.code), I8, ('slot', 'str_set(&mut %s, %s, %%s);' % (c.code, v.code)))
        return self._hook('deref', ft, n, v)

    def incdec(self, ft, n, v, one):
        if v.ty.k == 'vit':
            ft.emit('line', '%s = vidx_%s(%s, &%s);' % (v.code, one, v.code, v.container.code))
            return v
        if v.ty.k == 'bi':
            return v
        if v.ty.k == 'sit':
            ft.emit('line', '%s = idx_%s(%s, &%s);' % (v.code, one, v.code, v.container.code))
            return v
        return self._hook('incdec', ft, n, v, one)

    def binop(self, ft, n, op, a, b):
        return self._hook('binop', ft, n, op, a, b)

    def compare(self, ft, n, op, a, b):
        if a.ty.k in ('sit', 'vit') and b.ty.k == a.ty.k:
            if a.container.code != b.container.code:
                ft.err(n, 'comparison of iterators of different containers')
            return V('(%s %s %s)' % (a.code, op, b.code), BOOL)
        if a.ty.k in ('str', 'sv', 'lit', 'it', 'psv') and b.ty.k in ('str', 'sv', 'lit', 'it', 'psv') and op in ('==', '!='):
            r = 'slice_eq(%s, %s)' % (self.slice(ft, a), self.slice(ft, b))
            return V(r if op == '==' else '!' + r, BOOL)
        if a.ty.k in ('optit',) or b.ty.k in ('optit',):
            o = a if a.ty.k == 'optit' else b
            return V('%s%s.is_some' % ('!' if op == '==' else '', o.code), BOOL)
        return self._hook('compare', ft, n, op, a, b)

    def assign(self, ft, n, a, b):
        return self._hook('assign', ft, n, a, b)

    def member(self, ft, n, b, nm):
        return self._hook('member', ft, n, b, nm)

    def index(self, ft, n, a, b):
        return self._hook('index', ft, n, a, b)

    def vardecl(self, ft, d, ini):
        if not ini:
            return self._hook('vardecl', ft, d, ini)
        try:
            t = ft.m.nty(d)
        except Unsupported:
            t = None
        if t is not None and t.k == 'vit' and ini[0]['kind'] == 'CXXConstructExpr' and not kids(ini[0]):
            nm = ft.newname(d['name'])          # singular iterator
            ft.scope_types[nm] = T('idx')
            ft.emit('decl', nm, T('idx'), '0')
            ft.env[d['id']] = V(nm, t, ('var', nm))
            return True
        if t is not None and t.k in ('sit', 'vit'):
            v = ft.ex(ini[0])
            if v.ty.k not in ('sit', 'vit') or not hasattr(v, 'container'):
                ft.err(d, 'string iterator from %r %s' % (v.ty, d.get('type')))
            t = v.ty      # "iterator" may be a local name for another container's iterator
            nm = ft.newname(d['name'])
            ft.scope_types[nm] = T('idx')
            ft.emit('decl', nm, T('idx'), v.code)
            r = V(nm, t, ('var', nm))
            r.container = v.container
            ft.env[d['id']] = r
            return True
        return self._hook('vardecl', ft, d, ini)

    def range_for(self, ft, n):
        ks = kids(n)
        # DeclStmt __range, begin, end, cond, inc, DeclStmt var, body
        ds = [k for k in ks if k['kind'] == 'DeclStmt']
        rng = kids(kids(ds[0])[0])
        var = kids(ds[-1])[0]
        body = ks[-1]
        save, ft.pre = ft.pre, []
        r = ft.ex(rng[0])
        if r.ty.k in ('sv', 'str', 'vec', 'psv'):
            if r.ty.k == 'psv': r = V('psv_slice(%s)' % r.code, SV)
            if r.lv is None or r.lv[0] not in ('var', 'field', 'cref'):
                r = ft.hoist(V(r.code, r.ty), 'rng')
            ix = ft.newname('%s_i' % var.get('name', 'x'))
            ft.scope_types[ix] = T('idx')
            ft.emit('decl', ix, T('idx'), '0usize')

            def bodyf():
                s0, ft.pre = ft.pre, []
                if r.ty.k == 'vec':
                    el = V('%s[%s]' % (r.code, ix), r.ty.a, ('cref',))
                else:
                    el = V('str_at(&%s, %s)' % (r.code, ix) if r.ty.k == 'str' else 'sv_at(%s, %s)' % (r.code, ix), I8, ('cit',))
                if ft.m.is_ref(var) and not el.ty.copy:
                    ft.env[var['id']] = el
                else:
                    nm = ft.newname(var['name'])
                    ft.scope_types[nm] = el.ty
                    ft.emit('decl', nm, el.ty, ft.own(el))
                    ft.env[var['id']] = V(nm, el.ty, ('var', nm))
                ft.stmt(body)
                st, ft.pre = ft.pre, s0
                return st
            ft.loop_ir(n, lambda: '(%s < %s.len())' % (ix, r.code), bodyf, lambda: ft.emit('line', '%s = %s + 1;' % (ix, ix)))
            st, ft.pre = ft.pre, save
            ft.emit('block', st)
            return True
        if r.ty.k == 'hdeque':
            h = ft.m.heaps[r.ty.a]
            ix = ft.newname('%s_i' % var.get('name', 'x'))
            ft.scope_types[ix] = T('idx')
            ft.emit('decl', ix, T('idx'), '0usize')

            def bodyh():
                s0, ft.pre = ft.pre, []
                ft.env[var['id']] = V('%s.o(%s + 1)' % (h.var, ix), T('rec', r.ty.a), ('heapobj', r.ty.a, '(%s + 1)' % ix))
                ft.stmt(body)
                st, ft.pre = ft.pre, s0
                return st
            ft.loop_ir(n, lambda: '(%s < %s.v.len())' % (ix, h.var), bodyh, lambda: ft.emit('line', '%s = %s + 1;' % (ix, ix)))
            st, ft.pre = ft.pre, save
            ft.emit('block', st)
            return True
        ft.pre = save
        return self._hook('range_for', ft, n)

    # ------------------------------------------------------------------ construction
    def construct(self, ft, n, t, vs):
        r = self._hook('construct', ft, n, t, vs)
        if r is not None:
            return r
        if t.k == 'sv' and len(vs) == 1 and vs[0].ty.k == 'psv':
            return vs[0]
        if t.k == 'sit' and len(vs) == 1 and vs[0].ty.k == 'it':
            return vs[0]        # an iterator of a constant text (see vardecl)
        if t.k == 'sv':
            if not vs:
                return V('empty_slice()', SV)
            if len(vs) == 1:
                v = vs[0]
                if v.ty.k == 'sv': return V(v.code, SV)
                return V(self.slice(ft, v), SV)
            if len(vs) == 2:
                a, b = vs
                if a.ty.k == 'straddr' and b.ty.k == 'int':
                    ce, ie = a.strelem[:2]
                    if len(a.strelem) > 2:
                        return V('sv_part(%s, %s, %s)' % (ce, ie, ft.int_cast(b, U64).code), SV)
                    return V('str_slice(&%s, %s, %s)' % (ce, ie, ft.int_cast(b, U64).code), SV)
                if b.ty.k == 'int':
                    return V('it_slice(%s, %s)' % (ft.coerce(a, IT).code, ft.int_cast(b, U64).code), SV)
        if t.k == 'str':
            if not vs:
                return V('Vec::new()', STR)
            if len(vs) == 1:
                v = vs[0]
                if v.ty.k in ('lit', 'sv', 'it', 'psv'):
                    return V('str_from(%s)' % self.slice(ft, v), STR)
                if v.ty.k == 'str':
                    if v.lv is None or v.owned: return v
                    return V(ft.own(v), STR)
            if len(vs) >= 2:
                a, b = vs[0], vs[1]
                if a.ty.k == 'it' and b.ty.k == 'it':
                    return V('str_from(it_range(%s, %s))' % (a.code, b.code), STR)
                if a.ty.k == 'it' and b.ty.k == 'int':
                    return V('str_from(it_slice(%s, %s))' % (a.code, ft.int_cast(b, U64).code), STR)
                if a.ty.k == 'int' and b.ty.k == 'int':
                    return V('str_fill(%s, %s)' % (ft.int_cast(a, U64).code, b.code), STR)
                if a.ty.k == 'sit' and b.ty.k == 'sit':
                    return V('str_from(str_range(&%s, %s, %s))' % (a.container.code, a.code, b.code), STR)
        if t.k == 'vec' and not vs:
            return V('Vec::new()', t)
        if t.k == 'vec' and len(vs) == 1 and vs[0].ty == t:
            v = vs[0]
            if n.get('elidable') or v.lv is None or v.owned:
                return v
            return V(self.clone(ft, v), t)
        if t.k == 'vec' and len(vs) == 1 and vs[0].ty.k == 'int':
            k = ft.int_cast(vs[0], U64).code
            if t.a.k == 'str': return V('vec_str_sized(%s)' % k, t)
            if t.a.k == 'int': return V('vec_sized_%s(%s)' % (t.a.a, k), t)
        if t.k == 'os' and not vs:
            return V('Vec::new()', OS)
        if t.k == 'it' and len(vs) == 1 and vs[0].ty.k == 'it':
            return vs[0]
        if t.k in ('sit', 'vit', 'bi', 'psv') and len(vs) == 1 and (vs[0].ty.k == t.k or {t.k, vs[0].ty.k} == {'sit', 'vit'}):
            return vs[0]
        return None

    # ------------------------------------------------------------------ free functions
    CTYPE = {'isalnum', 'isalpha', 'isdigit', 'isupper', 'islower', 'isspace', 'ispunct', 'isxdigit', 'tolower'}

    def call(self, ft, n, rd, args):
        with ft.once(args): return self._call(ft, n, rd, args)

    def _call(self, ft, n, rd, args):
        nm = rd['name']
        r = self._hook('call', ft, n, rd, args)
        if r is not None:
            return r
        if nm in self.CTYPE and len(args) == 1:
            v = ft.ex(args[0])
            return V('c_%s(%s)' % (nm, ft.int_cast(v, I32).code), I32)
        if nm == 'strchr':
            a = ft.coerce(ft.ex(args[0]), IT)
            b = ft.ex(args[1])
            return V('c_strchr(%s, %s)' % (a.code, ft.int_cast(b, I32).code), T('optit'))
        if nm in ('move', 'forward') and len(args) == 1:
            return ft.ex(args[0])
        if nm in ('swap', 'invoke_swap') and len(args) == 2:
            a, b = ft.ex(args[0]), ft.ex(args[1])
            if nm == 'invoke_swap' and a.ty.k == 'rec':
                # the type's own swap
                for f in ft.ix.funcs.get('quickbook::swap', []):
                    ps = params_of(f)
                    try:
                        mine = len(ps) == 2 and all(ft.m.nty(p) == a.ty and ft.m.is_ref_nonconst(p) for p in ps)
                    except Unsupported:
                        continue
                    if mine and body_of(f):
                        return ft.inline_call(n, f, None, args) or V('()', UNIT)
            t1, t2 = ft.fresh(), ft.fresh()
            ft.emit('line', 'let %s = %s; let %s = %s;' % (t1, a.code, t2, b.code))
            ft.assign(a, t2)
            ft.assign(b, t1)
            return V('()', UNIT)
        if nm == 'distance' and len(args) == 2:
            a, b = ft.two(args[0], args[1])
            if a.ty.k == 'it':
                return V('it_diff(%s, %s)' % (b.code, a.code), I64)
        if nm in ('min', 'max') and len(args) == 2:
            a, b = ft.two(args[0], args[1])
            if a.ty.k == 'int':
                return V('%s_%s(%s, %s)' % (nm, a.ty.a, a.code, b.code), a.ty)
        return None

    # ------------------------------------------------------------------ operators
    def operator(self, ft, n, nm, args, rd):
        with ft.once(args): return self._operator(ft, n, nm, args, rd)

    def _operator(self, ft, n, nm, args, rd):
        r = self._hook('operator', ft, n, nm, args, rd)
        if r is not None:
            return r
        if nm in ('operator==', 'operator!=', 'operator<', 'operator>'):
            a, b = ft.two(args[0], args[1])
            if a.ty.k == 'it' and b.ty.k == 'it':
                return ft.compare(n, nm[8:], a, b)
            return self.compare(ft, n, nm[8:], a, b)
        if nm == 'operator->' and len(args) == 1:
            v = ft.ex(args[0])
            if v.ty.k in ('rec', 'ptr'):
                return v
            return self.deref(ft, n, v)
        if nm == 'operator*' and len(args) == 1:
            v = ft.ex(args[0])
            return self.deref(ft, n, v) if v.ty.k != 'it' else ft.deref(n, v)
        if nm in ('operator++', 'operator--'):
            v = ft.ex(args[0])
            if v.ty.k == 'bi':
                return v
            if v.ty.k == 'it':
                return ft.incdec(n, v, nm[8:], len(args) > 1)
            if v.ty.k in ('sit', 'vit'):
                old = None
                if len(args) > 1:
                    old = ft.hoist(V(v.code, T('idx')))
                    o = V(old.code, v.ty)
                    o.container = v.container
                    old = o
                self.incdec(ft, n, v, 'inc' if nm == 'operator++' else 'dec')
                return old or v
            return None
        if nm == 'operator+=':
            a = ft.ex(args[0])
            if a.ty.k == 'str':
                b = ft.ex(args[1])
                self.append(ft, a, b)
                return a
            if a.ty.k == 'sit':
                b = ft.ex(args[1])
                ft.emit('line', '%s = idx_add(%s, %s, &%s);' % (a.code, a.code, ft.int_cast(b, I64).code, a.container.code))
                return a
        if nm == 'operator+':
            a, b = ft.two(args[0], args[1])
            if a.ty.k == 'it' and b.ty.k == 'int' and b.ty != I8:
                return V('%s.add(%s)' % (a.code, ft.int_cast(b, I64).code), IT)
            if a.ty.k in ('str', 'lit', 'it', 'sv') and b.ty.k in ('str', 'lit', 'it', 'sv', 'int') or (a.ty.k == 'int' and b.ty.k == 'str'):
                t = ft.fresh('s')
                ft.scope_types[t] = STR
                ft.emit('decl', t, STR, 'Vec::new()')
                r = V(t, STR, ('var', t))
                self.append(ft, r, a)
                self.append(ft, r, b)
                r.owned = True
                return r
            if a.ty.k == 'sit' and b.ty.k == 'int':
                r = V('idx_add(%s, %s, &%s)' % (a.code, ft.int_cast(b, I64).code, a.container.code), T('sit'))
                r.container = a.container
                return r
        if nm == 'operator-':
            a, b = ft.two(args[0], args[1])
            if a.ty.k == 'sit' and b.ty.k == 'sit':
                return V('idx_diff(%s, %s)' % (a.code, b.code), I64)
            if a.ty.k == 'it' and b.ty.k == 'int':
                return V('%s.sub(%s)' % (a.code, ft.int_cast(b, I64).code), IT)
            if a.ty.k == 'sit':
                r = V('idx_sub(%s, %s, &%s)' % (a.code, ft.int_cast(b, I64).code, a.container.code), T('sit'))
                r.container = a.container
                return r
        if nm == 'operator[]':
            a, b = ft.two(args[0], args[1])
            if a.ty.k == 'sv':
                i = ft.int_cast(b, U64).code
                r = V('sv_at(%s, %s)' % (a.code, i), I8, ('cit',))
                r.strelem = (a.code, i, 'sv')
                return r
            if a.ty.k == 'str':
                i = ft.int_cast(b, U64).code
                r = V('str_at(&%s, %s)' % (a.code, i), I8, ('slot', 'str_set(&mut %s, %s, %%s);' % (a.code, i)))
                r.strelem = (a.code, i)
                return r
            if a.ty.k == 'vec':
                i = ft.int_cast(b, U64).code
                return V('%s[%s]' % (a.code, i), a.ty.a, ('index', a.code, i))
            if a.ty.k == 'sit':
                i = 'idx_add(%s, %s, &%s)' % (a.code, ft.int_cast(b, I64).code, a.container.code)
                return V('str_at(&%s, %s)' % (a.container.code, i), I8, ('slot', 'str_set(&mut %s, %s, %%s);' % (a.container.code, i)))
        if nm == 'operator=':
            a = ft.ex(args[0])
            b = ft.ex(args[1])
            if a.ty.k == 'bi' and b.ty.k == 'int':
                ft.emit('line', '%s.push(%s);' % (a.code, b.code))
                return a
            if a.ty.k == 'str' and b.ty.k in ('lit', 'it', 'sv'):
                ft.assign(a, 'str_from(%s)' % self.slice(ft, b))
                return a
            if a.ty.k == 'sit' and b.ty.k == 'sit':
                if a.container.code != b.container.code:
                    ft.err(n, 'iterator assigned from another container')
                ft.emit('line', '%s = %s;' % (a.code, b.code))
                return a
            if a.ty.k in ('str', 'sv', 'it') or a.ty == b.ty:
                return ft.do_assign(n, a, ft.coerce(b, a.ty))
        if nm == 'operator<<':
            a = ft.ex(args[0])
            if a.ty.k == 'os':
                b = ft.ex(args[1])
                self.put(ft, a, b)
                return a
        return None

    def append(self, ft, a, b):
        if b.ty.k == 'int' and b.ty.a == 'i8':
            ft.emit('line', '%s.push(%s);' % (a.code, b.code))
        else:
            ft.emit('line', 'str_append(&mut %s, %s);' % (a.code, self.slice(ft, b)))

    def put(self, ft, a, b):
        if b.ty.k == 'int' and b.ty.a != 'i8':
            ft.emit('line', 'os_put_%s(&mut %s, %s);' % (b.ty.a, a.code, b.code))
        else:
            self.append(ft, a, b)

    # ------------------------------------------------------------------ methods
    def method(self, ft, n, b, nm, args):
        with ft.once(args): return self._method(ft, n, b, nm, args)

    def _method(self, ft, n, b, nm, args):
        r = self._hook('method', ft, n, b, nm, args)
        if r is not None:
            return r
        k = b.ty.k
        args = [a for a in args if strip(a)['kind'] != 'CXXDefaultArgExpr']
        if k == 'psv':
            if nm == 'begin': return V('%s.b' % b.code, IT)
            if nm == 'end': return V('psv_end(%s)' % b.code, IT)
            if nm in ('size', 'length'): return V('%s.n' % b.code, U64)
            if nm == 'empty': return V('(%s.n == 0)' % b.code, BOOL)
            b = V('psv_slice(%s)' % b.code, SV)
            k = 'sv'
        if k == 'sv':
            return self.m_sv(ft, n, b, nm, args)
        if k == 'str':
            return self.m_str(ft, n, b, nm, args)
        if k == 'os':
            return self.m_os(ft, n, b, nm, args)
        if k == 'vec':
            return self.m_vec(ft, n, b, nm, args)
        return None

    def m_sv(self, ft, n, b, nm, args):
        if nm in ('find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of') and len(args) == 2:
            v = ft.ex(args[0])
            return V('str_%s(%s, %s, %s)' % (nm, b.code, self.charset(ft, v), ft.int_cast(ft.ex(args[1]), U64).code), U64)
        if nm in ('begin', 'cbegin', 'data'):
            return V('sv_begin(%s)' % b.code, IT)
        if nm in ('end', 'cend'):
            return V('sv_end(%s)' % b.code, IT)
        if nm in ('size', 'length'):
            return V('%s.len()' % b.code, U64)
        if nm == 'empty':
            return V('(%s.len() == 0)' % b.code, BOOL)
        if nm == 'to_s' or nm == 'to_string':
            return V('str_from(%s)' % b.code, STR)
        if nm == 'front':
            return V('sv_at(%s, 0)' % b.code, I8, ('cit',))
        if nm == 'back':
            return V('sv_at(%s, %s.len().wrapping_sub(1))' % (b.code, b.code), I8, ('cit',))
        if nm == 'at':
            return None
        if nm == 'remove_prefix' or nm == 'remove_suffix':
            a = ft.int_cast(ft.ex(args[0]), U64)
            ft.assign(b, 'sv_%s(%s, %s)' % (nm, b.code, a.code))
            return V('()', UNIT)
        if nm == 'substr':
            a = ft.int_cast(ft.ex(args[0]), U64).code if args else '0'
            c = ft.int_cast(ft.ex(args[1]), U64).code if len(args) > 1 else 'NPOS'
            t = ft.fresh()
            ft.emit('line', 'let %s = sv_substr(%s, %s, %s);' % (t, b.code, a, c))
            ft.emit('rethrow', t)
            return V('exn_ok(%s)' % t, SV)
        if nm in ('find_first_of', 'find') and len(args) == 1:
            v = ft.ex(args[0])
            if nm == 'find' and not (v.ty.k == 'int' or (v.ty.k == 'lit' and len(v.bytes) == 1)):
                return V('sv_find(%s, %s)' % (b.code, self.slice(ft, v)), U64)
            return V('sv_find_first_of(%s, %s)' % (b.code, self.charset(ft, v)), U64)
        if nm == 'find_first_not_of' and len(args) == 1:
            v = ft.ex(args[0])
            return V('sv_find_first_not_of(%s, %s)' % (b.code, self.charset(ft, v)), U64)
        if nm == 'starts_with':
            v = ft.ex(args[0])
            return V('sv_starts_with(%s, %s)' % (b.code, self.charset(ft, v)), BOOL)
        return None

    def charset(self, ft, v):
        if v.ty.k == 'int':
            t = ft.fresh('cs')
            ft.emit('line', 'let %s: [i8; 1] = [%s];' % (t, v.code))
            ft.emit('line', 'proof { assert(%s@ =~= seq![%s]); }' % (t, v.code))
            return t + '.as_slice()'
        return self.slice(ft, v)

    def m_str(self, ft, n, b, nm, args):
        if nm in ('begin', 'end', 'cbegin', 'cend'):
            r = V('0usize' if nm.endswith('begin') else '%s.len()' % b.code, T('sit'))
            r.container = b
            return r
        if nm in ('size', 'length'):
            return V('%s.len()' % b.code, U64)
        if nm == 'empty':
            return V('(%s.len() == 0)' % b.code, BOOL)
        if nm in ('reserve', 'shrink_to_fit'):
            for a in args:
                ft.ex(a)
            return V('()', UNIT)
        if nm == 'clear':
            ft.assign(b, 'Vec::new()')
            return V('()', UNIT)
        if nm == 'push_back':
            v = ft.ex(args[0])
            ft.emit('line', '%s.push(%s);' % (b.code, v.code))
            return V('()', UNIT)
        if nm in ('c_str', 'data'):
            return None
        if nm == 'append' or nm == 'assign':
            vs = [ft.ex(a) for a in args]
            if nm == 'assign':
                t = ft.fresh('s')
                ft.scope_types[t] = STR
                ft.emit('decl', t, STR, 'Vec::new()')
                dst = V(t, STR, ('var', t))
            else:
                dst = b
            if len(vs) == 1:
                self.append(ft, dst, vs[0])
            elif vs[0].ty.k == 'it' and vs[1].ty.k == 'it':
                ft.emit('line', 'str_append(&mut %s, it_range(%s, %s));' % (dst.code, vs[0].code, vs[1].code))
            elif vs[0].ty.k == 'it' and vs[1].ty.k == 'int':
                ft.emit('line', 'str_append(&mut %s, it_slice(%s, %s));' % (dst.code, vs[0].code, ft.int_cast(vs[1], U64).code))
            elif vs[0].ty.k == 'int' and vs[1].ty.k == 'int':
                ft.emit('line', 'str_append_fill(&mut %s, %s, %s);' % (dst.code, ft.int_cast(vs[0], U64).code, vs[1].code))
            elif vs[0].ty.k == 'sit':
                ft.emit('line', 'str_append(&mut %s, str_range(&%s, %s, %s));' % (dst.code, vs[0].container.code, vs[0].code, vs[1].code))
            else:
                return None
            if nm == 'assign':
                ft.assign(b, dst.code)
            return b
        if nm == 'substr':
            a = ft.int_cast(ft.ex(args[0]), U64).code if args else '0'
            c = ft.int_cast(ft.ex(args[1]), U64).code if len(args) > 1 else 'NPOS'
            t = ft.fresh()
            ft.emit('line', 'let %s = sv_substr(%s.as_slice(), %s, %s);' % (t, b.code, a, c))
            ft.emit('rethrow', t)
            return V('str_from(exn_ok(%s))' % t, STR)
        if nm == 'swap':
            v = ft.ex(args[0])
            t1, t2 = ft.fresh(), ft.fresh()
            ft.emit('line', 'let %s = %s; let %s = %s;' % (t1, b.code, t2, v.code))
            ft.assign(b, t2)
            ft.assign(v, t1)
            return V('()', UNIT)
        if nm == 'back':
            i = '%s.len().wrapping_sub(1)' % b.code
            return V('str_at(&%s, %s)' % (b.code, i), I8, ('slot', 'str_set(&mut %s, %s, %%s);' % (b.code, i)))
        if nm == 'pop_back':
            ft.emit('line', 'str_pop(&mut %s);' % b.code)
            return V('()', UNIT)
        if nm == 'erase':
            vs = [ft.ex(a) for a in args]
            if vs[0].ty.k == 'int':
                pos = ft.hoist(ft.int_cast(vs[0], U64)).code
                cnt = ft.hoist(ft.int_cast(vs[1], U64)).code if len(vs) > 1 else 'NPOS'
                t = ft.fresh()
                ft.emit('line', 'let %s = str_erase(&mut %s, %s, %s);' % (t, b.code, pos, cnt))
                return b
            if vs[0].ty.k == 'sit':
                a = vs[0].code
                e = vs[1].code if len(vs) > 1 else '(%s + 1)' % a
                if any(v.container.code != b.code for v in vs):
                    ft.err(n, 'erase with foreign iterators')
                t = ft.hoist(V(a, T('idx')))
                e = ft.hoist(V(e, T('idx'))).code
                ft.emit('line', 'str_erase_range(&mut %s, %s, %s);' % (b.code, t.code, e))
                r = V(t.code, T('sit')); r.container = b
                return r
        if nm == 'insert':
            vs = [ft.ex(a) for a in args]
            if vs[0].ty.k == 'int' and len(vs) == 2:
                ft.emit('line', 'str_insert(&mut %s, %s, %s);' % (b.code, ft.int_cast(vs[0], U64).code, self.slice(ft, vs[1])))
                return b
        if nm == 'front':
            return V('str_at(&%s, 0)' % b.code, I8, ('slot', 'str_set(&mut %s, 0, %%s);' % b.code))
        if nm == 'resize' and len(args) == 1:
            v = ft.ex(args[0])
            ft.emit('line', 'str_resize(&mut %s, %s);' % (b.code, ft.int_cast(v, U64).code))
            return V('()', UNIT)
        if nm in ('find', 'rfind', 'find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of'):
            v = ft.ex(args[0])
            p = ft.int_cast(ft.ex(args[1]), U64).code if len(args) > 1 else None
            single = v.ty.k == 'int' or (v.ty.k == 'lit' and len(v.bytes) == 1)
            base = {'find': 'find_first_of' if single else 'find', 'rfind': 'find_last_of' if single else 'rfind'}.get(nm, nm)
            if p is None:
                p = '0' if 'first' in base or base == 'find' else 'NPOS'
            return V('str_%s(%s.as_slice(), %s, %s)' % (base, b.code, self.charset(ft, v), p), U64)
        return None

    def m_os(self, ft, n, b, nm, args):
        if nm == 'str' and not args:
            return V('str_clone(&%s)' % b.code, STR)
        if nm == 'put':
            v = ft.ex(args[0])
            ft.emit('line', '%s.push(%s);' % (b.code, v.code))
            return b
        if nm == 'write':
            vs = [ft.ex(a) for a in args]
            ft.emit('line', 'str_append(&mut %s, it_slice(%s, %s));' % (b.code, ft.coerce(vs[0], IT).code, ft.int_cast(vs[1], U64).code))
            return b
        return None

    def m_vec(self, ft, n, b, nm, args):
        if nm in ('begin', 'end', 'cbegin', 'cend'):
            r = V('0usize' if nm.endswith('begin') else '%s.len()' % b.code, T('vit', b.ty.a))
            r.container = b
            return r
        if nm == 'back':
            return V('%s[%s.len().wrapping_sub(1)]' % (b.code, b.code), b.ty.a, ('cref',))
        if nm == 'front':
            return V('%s[0]' % b.code, b.ty.a, ('cref',))
        if nm == 'size':
            return V('%s.len()' % b.code, U64)
        if nm == 'empty':
            return V('(%s.len() == 0)' % b.code, BOOL)
        if nm == 'push_back':
            v = ft.ex(args[0])
            ft.emit('line', '%s.push(%s);' % (b.code, ft.own(ft.coerce(v, b.ty.a))))
            return V('()', UNIT)
        if nm == 'clear':
            ft.assign(b, 'Vec::new()')
            return V('()', UNIT)
        if nm == 'pop_back':
            ft.emit('line', 'vec_pop(&mut %s);' % b.code)
            return V('()', UNIT)
        if nm == 'reserve':
            for a in args: ft.ex(a)
            return V('()', UNIT)
        return None

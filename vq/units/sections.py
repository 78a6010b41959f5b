from trans import *
SOURCES = ['src/document_state.cpp', 'src/id_generation.cpp', 'src/utils.cpp']
CONTRACTS = ['idnorm.vqc', 'utils.vqc', 'phs.vqc', 'sections.vqc']
IMPORTS = {'idnorm.vqc': 'idnorm', 'utils.vqc': 'utils'}
SPECS = ['idnorm.rs', 'utils.rs', 'phs.rs', 'sections.rs']
HD = T('hdeque', 'id_placeholder')


class Hooks:
    def member(self, ft, n, b, nm):
        if b.ty.k == 'rec' and b.ty.a == 'document_state_impl' and nm == 'placeholders':
            return V('h_id_placeholder', HD, ('var', 'h_id_placeholder'))
        return None

    def method(self, ft, n, b, nm, args):
        if b.ty.k == 'hdeque':
            h = ft.m.heaps[b.ty.a]
            if nm == 'size': return V('%s.v.len()' % h.var, U64)
            if nm == 'back':
                return V('', T('rec', b.ty.a), ('heapobj', b.ty.a, '%s.v.len()' % h.var))
            if nm == 'push_back':
                v = ft.ex(args[0])
                ft.emit('line', '%s.v.push(%s);' % (h.var, v.code))
                return V('()', UNIT)
        if b.ty.k == 'ptr' and nm == 'get':
            return b
        if b.ty.k == 'ptr' and nm == 'operator bool':
            return V('(%s != 0)' % b.code, BOOL)
        if b.ty == T('rec', 'Value') and not args:
            if nm == 'check': return V('value_check_(%s)' % ft.asref(b), BOOL)
            if nm == 'empty': return V('value_empty_(%s)' % ft.asref(b), BOOL)
            if nm == 'get_quickbook': return V('value_quickbook_(%s)' % ft.asref(b), SV)
        return None

    def construct(self, ft, n, t, vs):
        if t.k == 'ptr' and not vs: return V('0usize', t)
        return None

    def operator(self, ft, n, nm, args, rd):
        if nm == 'operator=' and len(args) == 2:
            a = ft.ex(args[0])
            if a.ty.k == 'ptr':
                b = ft.ex(args[1])
                ft.assign(a, b.code)
                return a
        if nm == 'operator!' and len(args) == 1:
            a = ft.ex(args[0])
            if a.ty.k == 'ptr':
                return V('(%s == 0)' % a.code, BOOL)
        return None

    def call(self, ft, n, rd, args):
        nm = rd['name']
        if nm == 'make_shared':
            t = ft.m.nty(n)
            rec = ft.ix.records[t.a]
            vs = [ft.ex(a) for a in args]
            h = ft.m.heaps[t.a]
            if not vs:
                obj = ft.fresh('obj')
                ft.scope_types[obj] = T('rec', t.a)
                ft.emit('decl', obj, T('rec', t.a), '%s_uninit()' % h.rm.rust)
                for c in kids(rec):
                    if c['kind'] == 'FieldDecl' and 'shared_ptr' in rawtype(c):
                        ft.emit('line', '%s.%s = 0;' % (obj, c['name']))     # a default constructed shared_ptr
                ft.emit('line', '%s.v.push(%s);' % (h.var, obj))
                return ft.hoist(V('%s.v.len()' % h.var, t), 'p')
            for c in kids(rec):
                if c['kind'] == 'CXXConstructorDecl' and not c.get('isImplicit'):
                    ps = [ft.m.nty(p) for p in params_of(c)]
                    if len(ps) == len(vs) and all(self.fits(v, p) for v, p in zip(vs, ps)):
                        d = ft.ix.definition(c['id'])
                        obj = ft.fresh('obj')
                        rt = T('rec', t.a)
                        ft.scope_types[obj] = rt
                        ft.emit('decl', obj, rt, '%s_uninit()' % h.rm.rust)
                        o = V(obj, rt, ('var', obj))
                        ft.contract_call(n, d, o, args, vs)
                        ft.emit('line', '%s.v.push(%s);' % (h.var, obj))
                        return ft.hoist(V('%s.v.len()' % h.var, t), 'p')
            ft.err(n, 'constructor of %s' % t.a)
        if nm == 'lexical_cast':
            v = ft.ex(args[0])
            q = rd.get('type', {}).get('qualType', '')
            if 'string' in q.split('(')[0] and v.ty.k == 'int':
                t = ft.fresh('s')
                ft.scope_types[t] = STR
                ft.emit('decl', t, STR, 'Vec::new()')
                ft.emit('line', 'os_put_%s(&mut %s, %s);' % (v.ty.a, t, v.code))
                r = V(t, STR, ('var', t))
                r.owned = True
                return r
        if nm == 'empty_value':
            return V('value_none_()', T('rec', 'Value'))
        if nm == 'count' and len(args) == 2:
            v, c = ft.two(args[0], args[1])
            if v.ty.k == 'str' and c.ty.k == 'int':
                return V('str_count(&%s, %s)' % (v.code, c.code), I64)
        return None

    def fits(self, v, p):
        if v.ty.k == 'str' and p.k == 'sv': return True
        return v.ty.k == p.k and (v.ty.a == p.a or v.ty.a is None)


def setup(m, lib):
    m.records['id_category'] = RecModel(m, 'id_category', copy=True)
    m.records['source_mode_info'] = RecModel(m, 'source_mode_info', copy=True)
    lib.types['value'] = lib.types['quickbook::value'] = T('rec', 'Value')
    for r in ('id_placeholder', 'file_info', 'section_info'):
        HeapModel(m, r)
    HeapModel(m, 'doc_info', const=False)
    m.records['document_state_impl'] = RecModel(m, 'document_state_impl', drop=('placeholders',), copy=True)
    m.records['document_state'] = RecModel(m, 'document_state')
    lib.hooks.append(Hooks())
    lib.type_rx.insert(0, (re.compile(r'(?:boost::)?scoped_ptr<(?:quickbook::)?document_state_impl>'), lambda m, x: T('rec', 'document_state_impl')))
    lib.type_rx.insert(0, (re.compile(r'(?:boost::)?shared_ptr<(?:quickbook::)?(\w+)>'), lambda m, x: T('ptr', x.group(1))))
    lib.type_rx.insert(0, (re.compile(r'typename boost::detail::sp_if_not_array<(?:quickbook::)?(\w+)>::type'), lambda m, x: T('ptr', x.group(1))))

from trans import *
SOURCES = ['src/xml_parse.cpp']
CONTRACTS = ['idxml.vqc', 'xmlparse.vqc']
IMPORTS = {'idxml.vqc': 'idxml'}
SPECS = ['parse.rs', 'xmlparse.rs']
ALIST, BUILDER = T('rec', 'AttrList'), T('rec', 'XBuilder')


class Hooks:
    """std::list<std::pair<std::string, std::string> > as a list of pairs; the tree builder as a recorder of what it is told
    (what it makes of that is unit tree)"""
    def method(self, ft, n, b, nm, args):
        if b.ty == ALIST:
            if nm in ('begin', 'end'):
                r = V('0usize' if nm == 'begin' else '%s.v.len()' % b.code, T('vit', ALIST))
                r.container = V('%s.v' % b.code, ALIST, b.lv)
                return r
            if nm == 'push_back':
                v = ft.ex(args[0])
                self.back = V('%s.get_attributes_(%s)' % (b.lv[1], b.lv[2]), ALIST, ('cref',))
                ft.emit('line', '%s.attributes_push(%s, %s);' % (b.lv[1], b.lv[2], v.code))
                return V('()', UNIT)
            if nm == 'back':
                r = V('(%s.v.len() - 1)' % b.code, T('alref'))
                r.container = V('%s.v' % b.code, ALIST, b.lv)
                return r
        if b.ty == BUILDER:
            if nm == 'add_element':
                v = ft.ex(args[0])
                ft.emit('line', 'xb_add_element(&mut %s, %s);' % (b.code, v.code))
                return V('()', UNIT)
            if nm in ('start_children', 'end_children') and not args:
                ft.emit('line', 'xb_%s(&mut %s);' % (nm, b.code))
                return V('()', UNIT)
            if nm in ('parent', 'current') and not args:
                return ft.hoist(V('xb_%s(%s)' % (nm, ft.asref(b)), T('ptr', 'xml_element')))
            if nm == 'release' and not args:
                r = ft.hoist(V('xb_release(&mut %s)' % b.code, BUILDER))
                r.owned = True
                return r
        return None

    def deref(self, ft, n, v):
        if v.ty == T('vit', ALIST):
            r = V(v.code, T('alref'))
            r.container = v.container
            return r
        if v.ty.k == 'alref':
            return v
        return None

    def member(self, ft, n, b, nm):
        if b.ty.k == 'alref':
            c = b.container
            if nm == 'first':
                return V('%s[%s].first' % (c.code, b.code), STR)
            if nm == 'second':
                if c.lv[0] != 'heapfield': ft.err(n, 'list element')
                return V('%s[%s].second' % (c.code, b.code), STR, ('slot', '%s.attributes_set(%s, %s, %%s);' % (c.lv[1], c.lv[2], b.code)))
        return None

    def call(self, ft, n, rd, args):
        nm = rd['name']
        if nm == 'make_pair' and len(args) == 2:
            vs = [ft.own(ft.coerce(ft.ex(a), STR)) for a in args]
            return V('Attr { first: %s, second: %s }' % tuple(vs), T('rec', 'Attr'))
        if nm == 'decode_string' and len(args) == 1:
            v = ft.coerce(ft.ex(args[0]), SV)
            r = ft.hoist(V('decode_string_(%s)' % v.code, STR))
            r.owned = True
            return r
        return None

    def construct(self, ft, n, t, vs):
        if t == ALIST and not vs: return V('AttrList_uninit()', ALIST)
        if t == BUILDER:
            if not vs: return V('xb_new()', BUILDER)
            if len(vs) == 1 and vs[0].ty == BUILDER: return vs[0]
        return None

    def new(self, ft, n, t, ctor):
        """new xml_element(...): the cell at the end of the heap"""
        h = ft.m.heaps[t.a]
        vs = [ft.ex(a) for a in kids(ctor)]
        sig = ctor.get('ctorType', ctor.get('type', {})).get('qualType')
        for c in kids(ft.ix.records[t.a]):
            if c['kind'] == 'CXXConstructorDecl' and c['type']['qualType'] == sig:
                d = ft.ix.definition(c['id'])
                obj = ft.fresh('obj')
                ft.scope_types[obj] = T('rec', t.a)
                ft.emit('decl', obj, T('rec', t.a), '%s_uninit()' % h.rm.rust)
                save, ft.this = ft.this, V(obj, T('rec', t.a), ('var', obj))
                ft.stack.append(d['id'])
                ft.bind_params(d, params_of(d), vs)
                ft.ctor_inits(d)
                ft.stack.pop()
                ft.this = save
                if kids(body_of(d)): ft.err(n, 'constructor body')
                ft.m.inlined.add(ft.ix.qname[d['id']])
                ft.emit('line', '%s.v.push(%s);' % (h.var, obj))
                return ft.hoist(V('%s.v.len()' % h.var, T('ptr', t.a)), 'p')
        ft.err(n, 'constructor of %s: %s' % (t.a, sig))


def setup(m, lib):
    lib.type_rx.insert(0, (re.compile(r'std::list<std::pair<(?:std::)?string, (?:std::)?string> ?>'), lambda m, x: ALIST))
    lib.type_rx.insert(0, (re.compile(r'std::_List_iterator<.*>|(?:std::)?list<.*>::iterator'), lambda m, x: T('vit', ALIST)))
    lib.type_rx.insert(0, (re.compile(r'(?:quickbook::detail::)?(?:xml_tree_builder|tree_builder<.*>|xml_tree|tree<.*>)'), lambda m, x: BUILDER))
    HeapModel(m, 'xml_element', const=False)
    m.links.add('tree_node<xml_element>')
    lib.hooks.append(Hooks())

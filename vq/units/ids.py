from trans import *
from units.idxml import Hooks as XmlHooks
SOURCES = ['src/id_xml.cpp', 'src/id_generation.cpp', 'src/document_state.cpp']
CONTRACTS = ['idxml.vqc', 'idnorm.vqc', 'phs.vqc', 'ids.vqc']
IMPORTS = {'idxml.vqc': 'idxml', 'idnorm.vqc': 'idnorm'}
SPECS = ['parse.rs', 'idxml.rs', 'idnorm.rs', 'phs.rs', 'ids.rs']

SMIT, SMRES, SMAP, HD = T('smit'), T('smres'), T('smap'), T('hdeque', 'id_placeholder')
# the methods each callback class overrides; the replay of the recorded events (ids.rs) calls these
CALLBACKS = {'replace_ids_callback': {'start', 'id_value', 'finish'}, 'get_placeholder_order_callback': {'id_value'}}


class Hooks:
    def member(self, ft, n, b, nm):
        if b.ty.k == 'rec' and b.ty.a == 'document_state_impl' and nm == 'placeholders':
            return V('h_id_placeholder', HD, ('var', 'h_id_placeholder'))
        if nm == 'state' and b.ty.k == 'rec' and b.ty.a in CALLBACKS:
            return V('&document_state_impl {}', T('rec', 'document_state_impl'), ('cref',))
        if b.ty.k == 'smres':
            if nm == 'first':
                r = V(b.code, SMIT)
                r.container = b.container
                return r
            if nm == 'second':
                return V('%s_new' % b.code, BOOL)
        if b.ty.k == 'smref':
            if nm == 'second':
                return V('%s.get(&%s)' % (b.container.code, b.code), T('ptr', 'id_placeholder'), ('slot', '%s.put(&%s, %%s);' % (b.container.code, b.code)))
        return None

    def deref(self, ft, n, v):
        if v.ty.k == 'smit':
            r = V(v.code, T('smref'))
            r.container = v.container
            return r
        if v.ty.k == 'smref':
            return v
        return None

    def vardecl(self, ft, d, ini):
        if ini and re.search(r'chosen_id_map::iterator|unordered_map', rawtype(d)):
            v = ft.ex(ini[0])
            if v.ty.k == 'smit':
                ft.env[d['id']] = v
                return True
            ft.err(d, 'map iterator from %r' % v.ty)
        return None

    def method(self, ft, n, b, nm, args):
        if b.ty.k == 'smap':
            if nm == 'emplace' and len(args) == 2:
                k, v = ft.ex(args[0]), ft.ex(args[1])
                t = ft.fresh('k')
                ft.emit('decl', t, STR, ft.own(k))
                ft.scope_types[t] = STR
                ft.emit('decl', t + '_new', BOOL, '%s.emplace(&%s, %s)' % (b.code, t, v.code))
                ft.scope_types[t + '_new'] = BOOL
                r = V(t, SMRES)
                r.container = b
                return r
            if nm == 'at':
                k = ft.ex(args[0])
                return V('%s.get(%s)' % (b.code, ft.asref(k)), T('ptr', 'id_placeholder'))
        if b.ty.k == 'hdeque':
            h = ft.m.heaps[b.ty.a]
            if nm == 'size': return V('%s.v.len()' % h.var, U64)
            if nm == 'at':
                i = ft.int_cast(ft.ex(args[0]), U64)
                i = ft.hoist(i, 'at')
                ft.emit('if', '(%s >= %s.v.len())' % (i.code, h.var), [('throw', 'out_of_range')], [])
                return V('', T('rec', b.ty.a), ('heapobj', b.ty.a, '(%s + 1)' % i.code))
            if nm == 'back':
                return V('', T('rec', b.ty.a), ('heapobj', b.ty.a, '%s.v.len()' % h.var))
            if nm == 'push_back':
                v = ft.ex(args[0])
                ft.emit('line', '%s.v.push(%s);' % (h.var, v.code))
                return V('()', UNIT)
        if nm == 'parse' and b.ty.k == 'rec' and b.ty.a == 'xml_processor' and len(args) == 2:
            x = ft.coerce(ft.ex(args[0]), SV)
            cb = ft.ex(args[1])
            cls = cb.ty.a if cb.ty.k == 'rec' else None
            if cls not in CALLBACKS:
                ft.err(n, 'callback class %s' % cls)
            rec = ft.ix.records[cls]
            have = {c['name'] for c in kids(rec) if c['kind'] == 'CXXMethodDecl' and not c.get('isImplicit') and c['name'] in ('start', 'id_value', 'finish')}
            if have != CALLBACKS[cls]:
                ft.err(n, 'callback methods of %s' % cls)
            d = [f for f in ft.ix.funcs.get('quickbook::xml_processor::parse', [])]
            ft.m.require(d[0])
            for c in sorted(have):
                ft.m.require(ft.ix.funcs['quickbook::%s::%s' % (cls, c)][0])
            ev = ft.fresh('ev')
            t = ft.fresh('o')
            ft.emit('line', 'let (_, %s, %s) = xml_processor_parse(%s, %s, events_new());' % (t, ev, b.code, x.code))
            ft.assign(b, t)
            t = ft.fresh()
            t2 = ft.fresh('cb')
            ft.emit('line', 'let (%s, %s) = replay_%s(%s, %s, h_id_placeholder);' % (t, t2, cls, ev, cb.code))
            ft.assign(cb, t2)
            ft.writeback(cb)
            ft.emit('rethrow', t)
            return V('()', UNIT)
        return None

    def construct(self, ft, n, t, vs):
        if len(vs) == 1 and vs[0].ty.k == 'smit': return vs[0]
        if t.k == 'smap' and not vs: return V('StrMap::empty()', t)
        return None

    def default(self, ft, ty):
        return 'StrMap::empty()' if ty.k == 'smap' else None

    def clone(self, ft, v):
        if v.ty == T('vec', STR): return 'vec_str_clone(&%s)' % v.code
        return None

    def call(self, ft, n, rd, args):
        nm = rd['name']
        if nm == 'lexical_cast':
            v = ft.ex(args[0])
            q = rd.get('type', {}).get('qualType', '')
            if 'string' in q.split('(')[0] and v.ty.k == 'int':
                t = ft.fresh('s')
                ft.scope_types[t] = STR
                ft.emit('decl', t, STR, 'Vec::new()')
                ft.emit('line', 'os_put_%s(&mut %s, %s);' % (v.ty.a, t, v.code))
                r = V(t, STR, ('var', t))
                r.owned = True
                return r
            if q.split('(')[0].strip() == 'unsigned int' and v.ty.k == 'str':
                t = ft.fresh()
                ft.emit('line', 'let %s = lexical_cast_u32(%s.as_slice());' % (t, v.code))
                ft.emit('rethrow', t)
                return V('exn_ok(%s)' % t, U32)
        if nm == 'count' and len(args) == 2:
            v, c = ft.two(args[0], args[1])
            if v.ty.k == 'str' and c.ty.k == 'int':
                return V('str_count(&%s, %s)' % (v.code, c.code), I64)
        if nm == 'sort' and len(args) == 2:
            v = ft.ex(args[0])
            c = ft.ex(args[1])
            if v.ty.k == 'vec' and v.ty.a.k == 'ptr' and c.ty.k == 'rec' and c.ty.a == 'placeholder_compare':
                ft.assign(v, 'sort_placeholders(%s, &%s, h_id_placeholder)' % (v.code, c.code))
                return v
        return None


def setup(m, lib):
    m.records['xml_processor'] = RecModel(m, 'xml_processor')
    lib.types['callback'] = lib.types['quickbook::xml_processor::callback'] = lib.types['xml_processor::callback'] = T('rec', 'Events')
    REC_LT.add('Events')
    OPTV = T('optref', T('vec', STR))
    lib.types['std::vector<std::string> *'] = lib.types['std::vector<std::basic_string<char>> *'] = OPTV
    lib.exn_kinds.update(bad_lexical_cast=2, runtime_error=3)
    HeapModel(m, 'id_placeholder')
    P = T('ptr', 'id_placeholder')
    lib.types['placeholder_index::iterator'] = T('vit', P)
    lib.types['placeholder_index'] = T('vec', P)
    lib.types['chosen_id_map'] = SMAP
    m.records['id_category'] = RecModel(m, 'id_category', copy=True)
    m.records['document_state_impl'] = RecModel(m, 'document_state_impl', drop=('current_file', 'placeholders'))
    m.records['generate_id_block_type'] = RecModel(m, 'generate_id_block_type', refs=('generated_ids',))
    m.records['placeholder_compare'] = RecModel(m, 'placeholder_compare', refs=('order',))
    m.records['get_placeholder_order_callback'] = RecModel(m, 'get_placeholder_order_callback', refs=('order',), drop=('state',))
    m.records['replace_ids_callback'] = RecModel(m, 'replace_ids_callback', drop=('state',))
    REC_LT.add('replace_ids_callback')
    lib.hooks += [XmlHooks(), Hooks()]
    lib.type_rx.insert(0, (re.compile(r'(?:std::)?vector<(?:quickbook::)?id_placeholder \*>::iterator'), lambda m, x: T('vit', P)))
    lib.type_rx.insert(0, (re.compile(r'boost::(?:unordered::)?unordered_map<.*>'), lambda m, x: SMAP))

from trans import *
import units.program as program
from units.program import PATH, OUT, HTML, W
SOURCES = ['src/bb2html.cpp']
FLAGS = program.FLAGS
CONTRACTS = ['htmlout.vqc']
SPECS = ['world.rs', 'htmlout.rs']
CH, TREE = T('rec', 'ChunkRef', True), T('rec', 'XmlTree', True)
STATE = T('rec', 'html_state')


class Hooks(program.Hooks):
    def default(self, ft, ty):
        return 'XmlTree { }' if ty == TREE else program.Hooks.default(self, ft, ty)

    def construct(self, ft, n, t, vs):
        if t == TREE: return V('XmlTree { }', TREE)
        if t == STATE and len(vs) == 2: return V('html_state_new(%s)' % ft.asref(vs[1]), STATE)
        return program.Hooks.construct(self, ft, n, t, vs)

    def vardecl(self, ft, d, ini): return False

    def member(self, ft, n, b, nm):
        if b.ty == CH and nm == 'path_':
            return V('()', STR, ('slot', 'chunk_set_path(%s, %%s);' % b.code))
        return None

    def method(self, ft, n, b, nm, args):
        if b.ty == TREE and nm == 'root': return V('tree_root()', CH)
        if b.ty == PATH and nm == 'filename': return b
        return program.Hooks.method(self, ft, n, b, nm, args)

    def operator(self, ft, n, nm, args, rd):
        if nm == 'operator/' and len(args) == 2:
            a, b = ft.ex(args[0]), ft.ex(args[1])
            if a.ty == PATH: return V('path_join(%s, %s)' % (a.code, b.code), PATH)
        if nm == 'operator=' and len(args) == 2:
            a = ft.ex(args[0])
            if a.ty == TREE:
                ft.ex(args[1])
                return V('()', UNIT)
        return program.Hooks.operator(self, ft, n, nm, args, rd)

    def call(self, ft, n, rd, args):
        nm = rd['name']
        if nm == 'xml_parse': return self.thrower(ft, 'xml_parse(%s, %s)' % (ft.coerce(ft.ex(args[0]), SV).code, W), TREE)
        if nm == 'chunk_document': return V('XmlTree { }', TREE)
        if nm == 'path_to_generic': return V('path_text(%s)' % ft.ex(args[0]).code, STR)
        if nm == 'generic_to_path': return V('text_path(%s)' % ft.coerce(ft.ex(args[0]), SV).code, PATH)
        if nm == 'create_directory':
            self.thrower(ft, 'create_dirs(%s)' % ft.ex(args[0]).code, UNIT)
            return V('()', UNIT)
        if nm == 'post_process':
            a = ft.coerce(ft.ex(args[0]), SV)
            return ft.hoist(self.thrower(ft, 'post_process(%s, -1, -1)' % a.code, STR), 's')
        return program.Hooks.call(self, ft, n, rd, args)


def setup(m, lib):
    program.setup(m, lib)
    del lib.hooks[0], m.records['parse_document_options'], m.records['state']
    for q in ('', 'quickbook::', 'quickbook::detail::', 'detail::'):
        for t in ('xml_tree', 'chunk_tree', 'ids_type'): lib.types[q + t] = TREE
        for t in ('chunk *', 'xml_element *'): lib.types[q + t] = CH
        for t in ('html_options',): lib.types.pop(q + t, None)
    lib.exn_kinds['xml_parse_error'] = 6
    m.records['html_options'] = RecModel(m, 'html_options', drop=('boost_root_path', 'css_path', 'graphics_path'), types={'home_path': PATH})
    m.records['html_state'] = RecModel(m, 'html_state', drop=('ids',), types={'options': T('rec', 'html_options')})
    lib.hooks.insert(0, Hooks())

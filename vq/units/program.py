from trans import *
from units.lists import messages
SOURCES = ['src/quickbook.cpp']
import units.scope as scope
FLAGS = scope.FLAGS
CONTRACTS = ['program.vqc']
SPECS = ['world.rs', 'program.rs']
PATH, OUT, PST, DOC, BUF, HTML, DEPS, FILE = [T('rec', x, c) for x, c in (('PathArg', True), ('OutFile', False), ('state', False), ('Doc', True), ('Buf', True), ('HtmlOps', True), ('Deps', True), ('FileRef', True))]
W = '&mut h_world'
GRAMMAR, INFO, VAL = T('grammar'), T('rec', 'ParseInfo', True), T('rec', 'Val', True)


class WorldModel:
    """what the program has read and written"""
    var = 'h_world'
    def text(self): return ''


class StateModel(RecModel):
    def fields(self): return [('error_count', I32), ('strict_mode', BOOL), ('current_file', FILE)]


class Hooks:
    def default(self, ft, ty):
        return {'Doc': 'Doc { }', 'Buf': 'Buf { }', 'PathArg': 'path_empty()'}.get(ty.a) if ty.k == 'rec' else None

    def construct(self, ft, n, t, vs):
        if t == OUT and vs: return V('of_open(%s, %s)' % (vs[0].code, W), OUT)
        if t == PST: return V('state_new(%s, %s)' % (vs[0].code, W), PST)
        if t in (DOC, BUF, VAL) and not vs: return V('%s { }' % t.a, t)
        return None

    def state(self, ft): return 'state'

    def member(self, ft, n, b, nm):
        if b.ty == GRAMMAR: return V({'doc_info': '0i32', 'command_line_macro': '1i32'}.get(nm, '2i32'), I32)
        if b.ty == INFO and nm in ('full', 'hit', 'stop'): return V('%s.%s' % (b.code, nm), IT if nm == 'stop' else BOOL)
        if b.ty == PST and nm == 'dependencies': return V('()', DEPS)
        return None

    def method(self, ft, n, b, nm, args):
        if b.ty == OUT:
            if nm == 'fail': return V('of_fail(&%s)' % b.code, BOOL)
            if nm in ('close', 'flush'):
                ft.emit('line', 'of_close(&mut %s, %s);' % (b.code, W))
                return V('()', UNIT)
        if b.ty == PATH:
            if nm == 'empty': return V('path_is_empty(%s)' % b.code, BOOL)
            if nm == 'parent_path': return V('path_parent(%s)' % b.code, PATH)
        if b.ty == DEPS:
            vs = [ft.ex(a) for a in args]
            if nm == 'write_dependencies':
                t = ft.fresh('t')
                ft.emit('line', 'let %s = write_deps(%s, %s);' % (t, vs[0].code, W))
                ft.emit('rethrow', t)
            return V('()', UNIT)
        if b.ty == PST and nm == 'grammar': return V('()', GRAMMAR)
        if b.ty == FILE and nm == 'source': return V('file_source(%s)' % b.code, SV)
        if nm == 'position_of': return V('()', UNIT)
        if b.ty == BUF and nm == 'str': return V('()', BUF)
        if b.ty == DOC and nm == 'replace_placeholders': return ft.hoist(V('document_text(%s)' % W, STR), 's')
        return None

    def operator(self, ft, n, nm, args, rd):
        if nm == 'operator<<' and messages(n): return V('()', UNIT)
        if nm == 'operator<<' and len(args) == 2:
            a = ft.ex(args[0])
            if a.ty == OUT:
                b = ft.ex(args[1])
                ft.emit('line', 'of_write(&mut %s, %s);' % (a.code, ft.coerce(b, SV).code))
                return a
        return None

    def thrower(self, ft, call, ty):
        t = ft.fresh('t')
        ft.emit('line', 'let %s = %s;' % (t, call))
        ft.emit('rethrow', t)
        return V('exn_ok(%s)' % t, ty)

    def ref(self, ft, n, rd):
        if rd.get('name') == 'preset_defines' and rd.get('kind') == 'VarDecl': return ft.hoist(V('preset_defines()', T('vec', SV)), 'v')
        return None

    def call(self, ft, n, rd, args):
        nm = rd['name']
        if nm == 'load': return self.thrower(ft, 'load_file(%s)' % ft.ex(args[0]).code, FILE)
        if nm == 'parse' and len(args) == 3:
            a, b, g = [ft.hoist(ft.ex(x), 'p') for x in args]
            return ft.hoist(V('run_document(&mut %s, it_range(%s, %s), %s, %s)' % (self.state(ft), a.code, b.code, g.code, W), INFO), 'i')
        if nm in ('pre', 'post'):
            r = self.thrower(ft, 'document_%s(&mut %s, %s)' % (nm, self.state(ft), W), STR if nm == 'pre' else UNIT)
            return ft.hoist(r, 's') if nm == 'pre' else V('()', UNIT)
        if nm == 'post_process':
            vs = [ft.ex(a) for a in args if strip(a)['kind'] != 'CXXDefaultArgExpr']
            return ft.hoist(self.thrower(ft, 'post_process(%s, %s, %s)' % (ft.coerce(vs[0], SV).code, ft.int_cast(vs[1], I32).code, ft.int_cast(vs[2], I32).code), STR), 's')
        if nm == 'boostbook_to_html':
            vs = [ft.ex(a) for a in args]
            return ft.hoist(V('write_html(%s, %s, %s)' % (ft.coerce(vs[0], SV).code, vs[1].code, W), I32), 'r')
        if nm == 'exists' and len(args) == 1: return V('path_exists(%s)' % ft.ex(args[0]).code, BOOL)
        if nm == 'create_directories':
            self.thrower(ft, 'create_dirs(%s)' % ft.ex(args[0]).code, UNIT)
            return V('()', UNIT)
        return None


def setup(m, lib):
    lib.exn_kinds.update(runtime_error=3, load_error=4, post_process_failure=5)
    lib.exn_sub['runtime_error'] = ['load_error', 'post_process_failure']
    for ns in ('fs::', 'boost::filesystem::', 'std::', ''):
        lib.types[ns + 'ofstream'] = OUT
        lib.types[ns + 'path'] = PATH
    lib.types['basic_ofstream<char>'] = OUT
    for q in ('', 'quickbook::'):
        for t, v in (('state', PST), ('document_state', DOC), ('string_stream', BUF), ('dependency_tracker', DEPS), ('file_ptr', FILE), ('detail::html_options', HTML), ('html_options', HTML), ('dependency_tracker::flags', I32)): lib.types[q + t] = v
    lib.types['html_options'] = HTML
    m.records['state'] = StateModel(m, 'state')
    for q in ('', 'quickbook::'):
        for t, v in (('value', VAL), ('file_position', UNIT)): lib.types[q + t] = v
    lib.type_rx.insert(0, (re.compile(r'.*parse_info<.*>'), lambda *a: INFO))
    for t in ('quickbook::lookback_iterator<char *>', 'quickbook::lookback_iterator<const char *>', 'lookback_iterator<const char *>', 'parse_iterator'): lib.types[t] = IT
    m.heaps['world'] = WorldModel()
    m.records['parse_document_options'] = RecModel(m, 'parse_document_options', types={'output_path': PATH, 'deps_out': PATH, 'locations_out': PATH, 'xinclude_base': PATH, 'html_ops': HTML, 'deps_out_flags': I32})
    lib.hooks.insert(0, Hooks())

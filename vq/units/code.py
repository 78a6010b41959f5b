from trans import *
import units.tmpl as tmpl
import units.scope as scope
from units.scope import COL, TGT, var
SOURCES = ['src/template_stack.cpp', 'src/state.cpp', 'src/include_paths.cpp', 'src/actions.cpp', 'src/utils.cpp', 'src/syntax_highlight.cpp']
FLAGS = scope.FLAGS
CONTRACTS = ['tmpl.vqc', 'scope.vqc', 'utils.vqc', 'code.vqc']
IMPORTS = {'tmpl.vqc': 'tmpl', 'scope.vqc': 'scope', 'utils.vqc': 'utils'}
SPECS = scope.SPECS + ['utils.rs', 'code.rs']
HL = 'syntax_highlight_actions'


GRAMMARS = {'cpp_highlight': 1, 'python_highlight': 2, 'teletype_highlight': 3}
GRAM, MAPPED, CALLOUTS = T('rec', 'CodeGrammar'), T('rec', 'MappedText'), T('rec', 'Callouts')


class Hooks:
    def member(self, ft, n, b, nm):
        return V('file_snippets(%s)' % b.code, BOOL) if b.ty == tmpl.FILE and nm == 'is_code_snippets' else None

    def construct(self, ft, n, t, vs):
        if t == MAPPED and not vs: return V('mapped_new()', MAPPED)
        if t == GRAM and len(vs) == 1:      # of that name
            g = [GRAMMARS[k] for k in GRAMMARS if k in n['type']['qualType']]
            return V('CodeGrammar { rule: %di32, block: %s.support_callouts }' % (g[0], vs[0].code), GRAM)
        return None

    def default(self, ft, ty):
        return 'mapped_new()' if ty == MAPPED else None

    def call(self, ft, n, rd, args):
        nm = rd['name']
        if nm == 'parse' and len(args) == 3:
            vs = [ft.ex(a) for a in args]
            if vs[2].ty != GRAM: return None
            a, b = [ft.hoist(v, 'p') for v in vs[:2]]
            ft.emit('line', 'run_code(&mut state, it_range(%s, %s), &%s);' % (a.code, b.code, vs[2].code))
            return V('()', UNIT)
        if nm == 'invoke_swap' and len(args) == 2:
            a, b = [ft.ex(x) for x in args]
            t = ft.hoist(V(a.code, a.ty), 'w')
            ft.assign(a, b.code)
            ft.assign(b, t.code)
            return V('()', UNIT)
        return None

    def method(self, ft, n, b, nm, args):
        if b.ty == COL and nm == 'get' and not args:        # the stream: the text being collected
            v = ft.hoist(V('col_take(&mut %s)' % b.code, OS), 's')
            v.lv = ('slot', 'col_put(&mut %s, %%s);' % b.code)
            return v
        if b.ty == COL and nm == 'str' and not args: return ft.hoist(V('col_str(&%s)' % b.code, STR), 's')
        if b.ty == COL and nm == 'clear' and not args:
            ft.emit('line', 'let _ = col_swap(&mut %s, Vec::new());' % b.code)
            return V('()', UNIT)
        if b.ty == MAPPED:
            if nm == 'start':
                ft.emit('line', 'mapped_start(&mut %s, %s);' % (b.code, ft.ex(args[0]).code))
                return V('()', UNIT)
            if nm == 'unindent_and_add':
                a = ft.coerce(ft.ex(args[0]), SV)
                ft.emit('line', 'mapped_unindent(&mut %s, %s);' % (b.code, a.code))
                return V('()', UNIT)
            if nm == 'release': return V('mapped_release(&mut %s)' % b.code, tmpl.FILE)
        if b.ty == tmpl.FILE and nm == 'source' and not args: return V('file_source(%s)' % b.code, SV)
        if b.ty == T('rec', 'Qv'):
            if nm == 'consume' and not args: return V('qv_first(&%s)' % b.code, T('rec', 'Qv'))
            if nm == 'finish' and not args: return V('()', UNIT)
            if nm == 'get_tag' and not args: return V('%s.tag' % b.code, I32)
            if nm == 'get_quickbook' and not args: return V('qv_text(&%s)' % b.code, SV)
        if b.ty == T('rec', 'state') and nm == 'start_callouts':
            ft.emit('line', 'start_callouts(&mut %s);' % b.code)
            return V('()', UNIT)
        if b.ty == T('rec', 'state') and nm == 'end_callouts': return V('end_callouts(&mut %s)' % b.code, STR)
        if nm == 'position_of': return V('()', UNIT)     # for messages
        return None


def setup(m, lib):
    scope.setup(m, lib)
    m.records[HL] = RecModel(m, HL, drop=('state', 'do_macro_impl', 'marked_text'))
    m.records[HL].ctxref = {'state': 'state'}
    for t in ('file_position', 'quickbook::file_position'): lib.types[t] = UNIT
    for g in GRAMMARS: lib.types[g] = lib.types['quickbook::' + g] = GRAM
    for t in ('mapped_file_builder', 'quickbook::mapped_file_builder'): lib.types[t] = MAPPED
    for t in ('value_consumer', 'quickbook::value_consumer'): lib.types[t] = T('rec', 'Qv')
    m.ptypes['cstr'] = SV       # a NUL-terminated text
    lib.hooks.insert(0, Hooks())

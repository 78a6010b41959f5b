from trans import *
from units.lists import messages
import units.tmpl as tmpl
SOURCES = ['src/template_stack.cpp', 'src/state.cpp', 'src/include_paths.cpp', 'src/actions.cpp']
FLAGS = tmpl.FLAGS
CONTRACTS = ['tmpl.vqc', 'scope.vqc']
IMPORTS = {'tmpl.vqc': 'tmpl'}
SPECS = ['tmpl.rs', 'scopestate.rs', 'scope.rs']
PATH, QP, MAC, COL = T('rec', 'PathArg', True), T('rec', 'quickbook_path', True), T('rec', 'Macros'), T('rec', 'Collector')
VALS, DOC = T('rec', 'Vals'), T('rec', 'Doc')
FIELDS = {'order_pos': None, 'xinclude_base': PATH, 'templates': None, 'error_count': None, 'document': DOC, 'imported': None, 'macro': MAC, 'source_mode': None,
          'tagged_source_mode_stack': None, 'current_file': tmpl.FILE, 'current_path': QP, 'template_depth': None, 'min_section_level': None,
          'in_list': None, 'in_list_save': T('vec', BOOL), 'out': COL, 'phrase': COL, 'values': VALS, 'anchors': T('vec', STR), 'source_mode_next': None, 'explicit_list': None}
TGT, MARKUP = T('rec', 'Tgt', True), T('rec', 'Markup', True)


class StateModel(RecModel):
    def fields(self):
        if self._f is None:
            fs = [c for c in kids(self.m.ix.records['state']) if c['kind'] == 'FieldDecl']
            for c in fs:
                if c['name'] not in FIELDS: self.m.dropped.append('state::' + c['name'])
            self._f = [(c['name'], FIELDS[c['name']] or self.m.nty(c)) for c in fs if c['name'] in FIELDS] + [('qbk_version_n', U32)]
        return self._f


def state_model(m, lib):
    lib.types['fs::path'] = lib.types['boost::filesystem::path'] = PATH
    for t in ('quickbook_path', 'quickbook::quickbook_path'): lib.types[t] = QP
    for t in ('string_symbols', 'quickbook::string_symbols', 'boost::spirit::classic::symbols<std::string>'): lib.types[t] = MAC
    for t in ('collector', 'quickbook::collector'): lib.types[t] = COL
    m.records['quickbook_path'] = RecModel(m, 'quickbook_path', copy=True)
    m.records['source_mode_info'] = RecModel(m, 'source_mode_info', copy=True)
    m.records['state'] = StateModel(m, 'state')


def var(ft, ty):
    """the state in scope"""
    for nm in ('state', 'state_', 'this_'):
        if ft.scope_types.get(nm) == T('rec', 'state'): return V(nm, T('rec', 'state'), ('var', nm))
    return None


TAGS = {'paragraph': 1, 'paragraph_in_list': 2}     # of Markup
ACTIONS = ('paragraph_action', 'phrase_end_action', 'explicit_list_action')


def text(ft, n):
    v = ft.ex(n)
    if v.ty.k == 'lit': return 'str_from(%s)' % ft.lit_slice(v)
    if v.ty.k == 'str': return ft.own(v)
    return 'str_from(%s)' % ft.coerce(v, SV).code


def target(ft, n):
    n = strip(n)
    if n['kind'] == 'ConditionalOperator':
        q, a, b = kids(n)
        q = ft.hoist(ft.ex(q), 'c')
        return V('(if %s { %s } else { %s })' % (q.code, target(ft, a).code, target(ft, b).code), TGT)
    m = n.get('name')
    if n['kind'] != 'MemberExpr' or m not in ('out', 'phrase'): ft.err(n, 'not one of the texts of the state')
    return V('Tgt { phrase: %s }' % ('true' if m == 'phrase' else 'false'), TGT)


class Hooks:
    def ref(self, ft, n, rd):
        if rd.get('name') == 'space_p': return V('()', T('space'))
        if rd.get('name') == 'qbk_version_n' and rd.get('kind') == 'VarDecl':
            s = var(ft, 'state')
            if s: return V(s.code + '.qbk_version_n', U32, ('field',))
        return None

    def member(self, ft, n, b, nm):
        if b.ty == VALS and nm == 'builder': return b
        if b.ty == T('rec', 'state') and nm == 'grammar_': return V('()', T('grammar'))
        if b.ty == T('grammar'): return V('RULE_' + nm, I32)
        if b.ty == MARKUP and nm in ('pre', 'post'): return V('markup_%s(%s)' % (nm, b.code), STR)
        if b.ty == T('rec', 'ParseInfo', True) and nm == 'full': return V(b.code + '.full', BOOL)
        return None

    def method(self, ft, n, b, nm, args):
        if b.ty == COL:
            if nm in ('push', 'pop'):
                ft.emit('line', 'col_%s(&mut %s);' % (nm, b.code))
                return V('()', UNIT)
            if nm == 'swap':
                s = ft.ex(args[0])
                t = ft.fresh('o')
                ft.emit('line', 'let %s = col_swap(&mut %s, %s);' % (t, b.code, s.code))
                ft.assign(s, t)
                return V('()', UNIT)
        if b.ty == T('vec', BOOL):      # std::stack<bool>
            if nm == 'push':
                ft.emit('line', '%s.push(%s);' % (b.code, ft.ex(args[0]).code))
                return V('()', UNIT)
            if nm == 'top': return V('stack_top(&%s)' % b.code, BOOL)
            if nm == 'pop':
                ft.emit('line', 'vec_pop(&mut %s);' % b.code)
                return V('()', UNIT)
        if b.ty == TGT and nm == 'get': return b
        if b.ty == T('space') and nm == 'test': return V('(c_isspace(%s as i32) != 0)' % ft.ex(args[0]).code, BOOL)
        if b.ty == VALS and nm in ('save', 'restore'):
            ft.emit('line', 'vals_%s(&mut %s);' % (nm, b.code))
            return V('()', UNIT)
        if b.ty == DOC:
            if nm == 'section_level': return V('doc_section_level(&%s)' % b.code, I32)
            if nm == 'section_source_mode':
                st = ft.this if ft.this is not None and ft.this.ty == T('rec', 'state') else var(ft, 'state')
                return V('doc_section_source_mode(%s)' % ft.asref(st), T('rec', 'source_mode_info', True))
        if b.ty == T('rec', 'Qv'):
            if nm == 'is_encoded' and not args: return V('qv_is_encoded(&%s)' % b.code, BOOL)
            if nm == 'get_encoded' and not args: return V('qv_get_encoded(&%s)' % b.code, STR)
        return None

    def deref(self, ft, n, v):
        if v.ty == T('macroat'):
            return V('()', STR, ('slot', 'macro_set(&mut %s, %s.as_slice(), %%s);' % (v.table, v.code)))
        return None

    def clone(self, ft, v):
        if v.ty == MAC: return 'Macros_clone(%s)' % ft.asref(v)
        return None

    def default(self, ft, ty):
        if ty == MAC: return 'macros_new()'
        if ty == COL: return 'col_new()'
        return None

    def construct(self, ft, n, t, vs):
        if t == MAC and not vs: return V('macros_new()', MAC)
        return None

    def operator(self, ft, n, nm, args, rd):
        if nm == 'operator()' and len(args) == 1:
            a = ft.ex(args[0])
            if a.ty.k == 'rec' and a.ty.a in ACTIONS: return ft.contract_call(n, ft.ix.definition(rd['id']), a, [])
        if nm == 'operator*' and len(args) == 1:
            a = ft.ex(args[0])
            if a.ty == T('grammar'): return a
        if nm == 'operator=' and len(args) == 2:
            c = strip(args[0])
            if c['kind'] == 'CallExpr' and strip(kids(strip(kids(c)[0]))[0] if kids(strip(kids(c)[0])) else c).get('referencedDecl', {}).get('name') == 'tie':
                vs = [ft.ex(x) for x in kids(c)[1:]]
                r = ft.ex(args[1])
                if r.ty == tmpl.RES and len(vs) == 2:
                    ft.assign(vs[0], r.code + '.ok')
                    ft.assign(vs[1], r.code + '.n')
                    return V('()', UNIT)
        if nm == 'operator<<' and len(args) == 2 and not messages(n):
            c = strip(args[0])
            if c['kind'] == 'ConditionalOperator':
                q, a, b = kids(c)
                qv = ft.hoist(ft.ex(q), 'c')
                va, vb = ft.ex(a), ft.ex(b)
                s = ft.hoist(V(text(ft, args[1]), STR), 's')
                if va.ty == COL and vb.ty == COL:
                    ft.emit('line', 'if %s { col_add(&mut %s, %s.as_slice()); } else { col_add(&mut %s, %s.as_slice()); }' % (qv.code, va.code, s.code, vb.code, s.code))
                    return V('()', UNIT)
            a = ft.ex(args[0])
            if a.ty in (COL, TGT):
                s = ft.hoist(V(text(ft, args[1]), STR), 's')
                ft.emit('line', 'col_add(&mut %s, %s.as_slice());' % (a.code, s.code) if a.ty == COL else 'tgt_add(&mut %s, %s, %s.as_slice());' % (var(ft, 'state').code, a.code, s.code))
                return a
        return None

    def call(self, ft, n, rd, args):
        nm = rd['name']
        if nm == 'print_string' and len(args) == 2:
            t = ft.ex(args[1])
            if t.ty == TGT:
                s = ft.hoist(V('encoded(%s)' % ft.coerce(ft.ex(args[0]), SV).code, STR), 's')
                ft.emit('line', 'tgt_add(&mut %s, %s, %s.as_slice());' % (var(ft, 'state').code, t.code, s.code))
                return V('()', UNIT)
        if nm == 'get_markup' and len(args) == 1:
            c = strip(args[0])
            while c['kind'].endswith('CastExpr'): c = strip(kids(c)[0])
            c = c.get('referencedDecl', {})
            if c.get('kind') == 'EnumConstantDecl': return V('Markup { tag: %di32 }' % TAGS.get(c['name'], 0), MARKUP)
        if nm == 'find' and args:
            a = ft.ex(args[0])
            if a.ty == MAC:
                k = ft.ex(args[1])
                k = V(ft.lit_slice(k), SV) if k.ty.k == 'lit' else ft.coerce(k, SV)
                k = ft.hoist(V('str_from(%s)' % k.code, STR), 'k')
                r = V(k.code, T('macroat'))
                r.table = a.code
                return r
        if nm in ('encode_string', 'path_to_generic') and len(args) == 1:
            a = ft.ex(args[0])
            if a.ty == PATH: return V('path_text(%s)' % a.code, STR)
            return V('encoded(%s)' % ft.coerce(a, SV).code, STR)
        if nm == 'load' and args:
            s = var(ft, 'state')
            t = ft.fresh('t')
            ft.emit('line', 'let %s = load_file(%s);' % (t, ft.ex(args[0]).code))
            ft.emit('rethrow', t)
            return V('exn_ok(%s)' % t, tmpl.FILE)
        if nm == 'parse_file' and len(args) == 3:
            t = ft.fresh('t')
            ft.emit('line', 'let (%s, h1, h2) = parse_file(&mut state, h_template_scope, h_template_symbol); h_template_scope = h1; h_template_symbol = h2;' % t)
            ft.emit('rethrow', t)
            return V('()', UNIT)
        if nm == 'parse' and len(args) == 3:
            a, b = ft.two(args[0], args[1])
            g = ft.hoist(ft.ex(args[2]), 'g')
            t = ft.fresh('t')
            ft.emit('line', 'let %s = run_grammar(&mut state, it_range(%s, %s), %s, h_template_scope, h_template_symbol);' % (t, a.code, b.code, g.code))
            ft.emit('line', 'let (%s, h1, h2) = %s; h_template_scope = h1; h_template_symbol = h2;' % (t, t))
            return V('ParseInfo { full: %s }' % t, T('rec', 'ParseInfo', True))
        return None


def setup(m, lib):
    tmpl.setup(m, lib)
    m.records['state_save'] = RecModel(m, 'state_save', drop=('state', 'doc_type'), types={k: v for k, v in FIELDS.items() if v is not None})
    m.records['state_save'].ctxref = {'state': 'state'}
    m.ptypes['tgt'] = TGT
    m.pargs['tgt'] = target        # one of the two texts of the state
    for t in ('markup', 'detail::markup', 'quickbook::detail::markup'): lib.types[t] = MARKUP
    for a in ACTIONS:
        m.records[a] = RecModel(m, a, drop=('state',))
        m.records[a].ctxref = {'state': 'state'}
    for t in ('quickbook::lookback_iterator<char *>', 'quickbook::lookback_iterator<const char *>', 'lookback_iterator<const char *>', 'parse_iterator'):
        lib.types[t] = IT
    lib.hooks.insert(0, Hooks())

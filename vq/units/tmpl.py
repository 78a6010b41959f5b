from trans import *
from units.lists import messages
SOURCES = ['src/template_stack.cpp', 'src/actions.cpp']
FLAGS = ['-include', 'boost/core/invoke_swap.hpp']
CONTRACTS = ['tmpl.vqc']
SPECS = ['tmpl.rs', 'scopestate.rs']
HD, FILE, PAIR, RES, QV = T('hdeque', 'template_scope'), T('rec', 'FileRef', True), T('rec', 'ItPair', True), T('rec', 'ArgsResult', True), T('rec', 'Qv')
TAB = T('rec', 'SymTab')


class Hooks:
    """scopes: the deque of scopes is the heap of template_scope: the pointer to the k-th scope from the bottom is k
    (push_front and pop_front leave the other elements of a deque where they are)"""

    def member(self, ft, n, b, nm):
        if b.ty.k == 'rec' and b.ty.a == 'template_stack' and nm == 'scopes':
            return V('h_template_scope', HD, ('var', 'h_template_scope'))
        if b.ty == PAIR and nm in ('first', 'second'):
            return V('%s.%s' % (b.code, nm), IT)
        return None

    def ref(self, ft, n, rd):
        if rd.get('name') == 'qbk_version_n' and rd.get('kind') == 'VarDecl':
            return V('qbk_version()', U32)
        return None

    def method(self, ft, n, b, nm, args):
        if b.ty.k == 'hdeque':
            h = ft.m.heaps[b.ty.a]
            if nm == 'empty': return V('(%s.v.len() == 0)' % h.var, BOOL)
            if nm == 'front':
                p = ft.hoist(V('%s.v.len()' % h.var, U64), 'p')
                return V('', T('rec', b.ty.a), ('heapobj', b.ty.a, p.code))
            if nm == 'begin': return V('%s.v.len()' % h.var, T('ptr', b.ty.a))
            if nm == 'push_front':
                v = ft.ex(args[0])
                ft.emit('line', '%s.v.push(%s);' % (h.var, v.code))
                return V('()', UNIT)
            if nm == 'pop_front':
                ft.emit('line', 'heap_pop(&mut %s);' % h.var)
                return V('()', UNIT)
        if b.ty == T('rec', 'Qv') and not args:
            if nm == 'get_file': return V('%s.file' % b.code, FILE)
            if nm == 'get_tag': return V('%s.tag' % b.code, I32)
            if nm == 'get_quickbook': return V('%s.text.as_slice()' % b.code, SV)
        if b.ty == T('vec', QV) and nm == 'back':
            return V('args_back(&%s)' % b.code, QV, ('slot', 'args_set_back(&mut %s, %%s);' % b.code))
        if b.ty.k == 'str' and nm == 'c_str': return V('c_str(%s)' % ft.coerce(b, SV).code, SV)
        if b.ty == FILE and nm == 'version':
            return V('file_version(%s)' % b.code, U32)
        return None

    def deref(self, ft, n, v):
        return v if v.ty == FILE else None

    def operator(self, ft, n, nm, args, rd):
        if nm == 'operator<<' and messages(n):
            return V('()', UNIT)        # error and warning messages
        if nm == 'operator->' and len(args) == 1:
            a = ft.ex(args[0])
            if a.ty == FILE: return a
        if nm == 'operator*' and len(args) == 1:
            a = ft.ex(args[0])
            if a.ty == T('ptr', 'template_scope'): return ft.heapobj(a)     # an iterator of scopes
        return None

    def construct(self, ft, n, t, vs):
        if t == TAB and not vs: return V('symtab_new()', TAB)
        return None

    def clone(self, ft, v):
        if v.ty == T('vec', STR): return 'strs_clone(%s)' % ft.asref(v)
        return None

    def default(self, ft, ty):
        return 'symtab_new()' if ty == TAB else None

    def call(self, ft, n, rd, args):
        nm = rd['name']
        if nm == 'make_pair' and len(args) == 2:
            a, b = ft.two(args[0], args[1])
            if a.ty == IT and b.ty == IT: return V('ItPair { first: %s, second: %s }' % (a.code, b.code), PAIR)
            if a.ty == BOOL and b.ty.k == 'vit': return V('ArgsResult { ok: %s, n: %s }' % (a.code, b.code), RES)
        if nm == 'qbk_value' and len(args) == 4:
            f, a, b, t = [ft.ex(x) for x in args]
            return V('qv_new(%s, %s, %s, %s)' % (f.code, a.code, b.code, ft.int_cast(t, I32).code), QV)
        if nm in ('find', 'add') and args:
            a = ft.ex(args[0])
            if a.ty == TAB:
                k = ft.coerce(ft.ex(args[1]), SV)
                if nm == 'find':
                    return V('symtab_find(%s, %s)' % (ft.asref(a), k.code), T('ptr', 'template_symbol'))
                x = ft.ex(args[2])
                k = ft.hoist(V('str_from(%s)' % k.code, STR), 'k')
                ft.emit('line', 'h_template_symbol.v.push(template_symbol_copy(%s));' % ft.asref(x))
                t = ft.fresh('tab')
                ft.emit('line', 'let %s = symtab_add(%s, &%s, h_template_symbol.v.len());' % (t, ft.asref(a), k.code))
                ft.assign(a, t)
                return V('()', UNIT)
        return None


def setup(m, lib):
    lib.types['value'] = lib.types['quickbook::value'] = T('rec', 'Qv')
    lib.types['template_symbols'] = lib.types['quickbook::template_symbols'] = TAB
    HeapModel(m, 'template_scope', const=False, types={'symbols': TAB})
    HeapModel(m, 'template_symbol', const=False)
    m.records['template_stack'] = RecModel(m, 'template_stack', drop=('scopes', 'scope'))
    REC_LT.add('ItPair')
    for t in ('file_ptr', 'quickbook::file_ptr', 'boost::intrusive_ptr<file>', 'boost::intrusive_ptr<quickbook::file>'):
        lib.types[t] = FILE
    lib.type_rx.insert(0, (re.compile(r'(?:std::)?pair<(?:quickbook::)?string_iterator, (?:quickbook::)?string_iterator>|(?:std::)?pair<const char \*, const char \*>'), lambda m, x: PAIR))
    lib.type_rx.insert(0, (re.compile(r'(?:std::)?pair<bool, (?:std::)?vector<(?:std::)?string>::const_iterator>|(?:std::)?pair<bool, .*normal_iterator.*>'), lambda m, x: RES))
    from units.scope import state_model
    state_model(m, lib)
    lib.hooks.append(Hooks())

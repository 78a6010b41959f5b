from trans import *
SOURCES = ['src/post_process.cpp']
CONTRACTS = ['tidy.vqc']
SPECS = ['tidy.rs']
STACK = T('strstack')


class Hooks:
    def member(self, ft, n, b, nm):
        # tidy_compiler::out and ::current_indent are the objects its printer refers to (its constructor; checked in setup)
        if b.ty.k == 'rec' and b.ty.a == 'tidy_compiler' and nm in ('out', 'current_indent'):
            return ft.field(n, ft.field(n, b, 'printer'), nm)
        return None

    def vardecl(self, ft, d, ini):
        # an iter_type into a local or printed string, not into the input
        if ini and ft.m.nty(d) == IT and strings_own(ini[0]):
            v = ft.ex(ini[0])
            if v.ty.k != 'sit':
                ft.err(d, 'iterator from %r' % v.ty)
            nm = ft.newname(d['name'])
            ft.scope_types[nm] = T('idx')
            ft.emit('decl', nm, T('idx'), v.code)
            r = V(nm, v.ty, ('var', nm))
            r.container = v.container
            ft.env[d['id']] = r
            return True
        return None

    def construct(self, ft, n, t, vs):
        if t == IT and len(vs) == 1 and vs[0].ty.k == 'sit':
            return vs[0]
        return None

    def compare(self, ft, n, op, a, b):
        if {a.ty.k, b.ty.k} == {'setit', 'setend'} and op in ('==', '!='):
            x = a if a.ty.k == 'setit' else b
            return V(('!' if op == '==' else '') + x.code, BOOL)
        return None

    def operator(self, ft, n, nm, args, rd):
        if nm in ('operator==', 'operator!=') and len(args) == 2:
            a, b = ft.two(args[0], args[1])
            return self.compare(ft, n, nm[8:], a, b)
        return None

    def method(self, ft, n, b, nm, args):
        if b.ty.k == 'rec' and b.ty.a == 'TagSet':
            if nm == 'find': return V('tags_find(&%s, %s)' % (b.code, ft.m.lib.slice(ft, ft.ex(args[0]))), T('setit'))
            if nm == 'end': return V('()', T('setend'))
        if b.ty.k == 'rec' and b.ty.a == 'TagStack':
            if nm == 'empty': return V('tags_empty(&%s)' % b.code, BOOL)
            if nm == 'top': return V('(*tags_top(&%s))' % b.code, STR)
            if nm == 'push':
                ft.emit('line', 'tags_push(&mut %s, str_clone(&%s));' % (b.code, ft.ex(args[0]).code))
                return V('()', UNIT)
            if nm == 'pop':
                ft.emit('line', 'tags_pop(&mut %s);' % b.code)
                return V('()', UNIT)
        return None


def strings_own(n):
    if n.get('kind') == 'CXXMemberCallExpr':
        me = strip(kids(n)[0])
        if me.get('kind') == 'MemberExpr' and me['name'] in ('begin', 'end', 'cbegin', 'cend'):
            return 'string' in kids(me)[0]['type']['qualType'] and 'view' not in kids(me)[0]['type']['qualType']
    return any(strings_own(c) for c in kids(n))


def ctor_of(ix, q):
    fs = [f for f in ix.funcs.get(q, []) if f['kind'] == 'CXXConstructorDecl' and any(c['kind'] == 'CXXCtorInitializer' for c in kids(f))]
    if len(fs) != 1:
        raise ExtractError('%s: %d constructors' % (q, len(fs)))
    return fs[0], {c['anyInit']['name']: strip(kids(c)[0]) for c in kids(fs[0]) if c['kind'] == 'CXXCtorInitializer' and 'anyInit' in c and kids(c)}


# the printer's `out' and `current_indent' are the compiler's
def check_aliases(ix):
    f, init = ctor_of(ix, 'quickbook::pretty_printer::pretty_printer')
    ps = [p['id'] for p in params_of(f)]
    pos = {}
    for nm in ('out', 'current_indent'):
        e = init.get(nm, {})
        if e.get('kind') != 'DeclRefExpr' or e['referencedDecl']['id'] not in ps:
            raise ExtractError('pretty_printer::%s is not a parameter' % nm)
        pos[nm] = ps.index(e['referencedDecl']['id'])
    f, init = ctor_of(ix, 'quickbook::tidy_compiler::tidy_compiler')
    pr = init.get('printer', {})
    args = [strip(a) for a in kids(pr)] if pr.get('kind') == 'CXXConstructExpr' else []
    o = args[pos['out']] if len(args) > max(pos.values()) else {}
    ci = args[pos['current_indent']] if o else {}
    mine = init.get('out', {})
    same_out = (o.get('kind') == 'DeclRefExpr' and mine.get('kind') == 'DeclRefExpr' and o['referencedDecl']['id'] == mine['referencedDecl']['id']
                or o.get('kind') == 'MemberExpr' and o['name'] == 'out' and strip(kids(o)[0])['kind'] == 'CXXThisExpr')
    if not same_out or ci.get('kind') != 'MemberExpr' or ci['name'] != 'current_indent' or strip(kids(ci)[0])['kind'] != 'CXXThisExpr':
        raise ExtractError("the printer does not refer to the compiler's output and indentation")


def setup(m, lib):
    check_aliases(m.ix)
    lib.hooks.append(Hooks())
    for t in ('iter_type', '__gnu_cxx::__normal_iterator<char *, std::basic_string<char>>', 'std::string::const_iterator', 'std::basic_string<char>::const_iterator', '__gnu_cxx::__normal_iterator<const char *, std::basic_string<char>>'):
        lib.types[t] = IT       # parameters: iterators of the input
    m.records['pretty_printer'] = RecModel(m, 'pretty_printer')
    m.records['tidy_compiler'] = RecModel(m, 'tidy_compiler', drop=('out', 'current_indent'),
                                          types={'tags': T('rec', 'TagStack'), 'block_tags': T('rec', 'TagSet')})
    m.records['tidy_grammar'] = RecModel(m, 'tidy_grammar')

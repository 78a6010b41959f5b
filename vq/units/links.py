from trans import *
SOURCES = ['src/bb2html.cpp']
CONTRACTS = ['links.vqc']
SPECS = ['parse.rs', 'links.rs']


POU = T('rec', 'PathOrUrl')


class Hooks:
    def call(self, ft, n, rd, args):
        if rd['name'] in ('find', 'count') and len(args) == 3:
            a, b, c = ft.ex(args[0]), ft.ex(args[1]), ft.ex(args[2])
            if a.ty.k != 'it' or b.ty.k != 'it': return None
            if c.ty.k == 'lit': return None
            c = ft.coerce(c, I8)
            return ft.hoist(V('it_%s(%s, %s, %s)' % (rd['name'], a.code, b.code, c.code), a.ty if rd['name'] == 'find' else I64))
        if rd['name'] == 'starts_with' and len(args) >= 2:
            a, b = ft.ex(args[0]), ft.ex(args[1])
            return ft.hoist(V('slice_starts(%s, %s)' % (a.code, ft.coerce(b, SV).code), BOOL))
        if rd['name'] == 'strlen' and len(args) == 1:
            b = ft.ex(args[0])
            return V('%dusize' % len(b.bytes), U64) if b.ty.k == 'lit' else None
        return None

    def method(self, ft, n, b, nm, args):
        if b.ty == POU and nm == 'operator bool':
            return V('%s.set()' % b.code, BOOL)
        return None

    def operator(self, ft, n, nm, args, rd):
        if nm == 'operator/' and len(args) == 2:
            a = ft.ex(args[0])
            if a.ty == POU:
                return ft.hoist(V('%s.join(%s)' % (a.code, ft.coerce(ft.ex(args[1]), SV).code), POU))
        return None


def setup(m, lib):
    lib.type_rx.insert(0, (re.compile(r'(?:quickbook::detail::)?path_or_url'), lambda m, x: POU))
    m.records['html_options'] = RecModel(m, 'html_options', drop=('chunked_output', 'home_path', 'css_path', 'graphics_path', 'pretty_print'))
    m.records['html_state'] = RecModel(m, 'html_state', drop=('ids', 'error_count'), types={'options': T('rec', 'html_options')})
    m.records['html_gen'] = RecModel(m, 'html_gen', drop=('printer', 'chunk', 'in_toc'), types={'state': T('rec', 'html_state'), 'path': STR})
    lib.hooks.append(Hooks())

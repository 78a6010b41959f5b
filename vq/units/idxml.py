from trans import *
SOURCES = ['src/id_xml.cpp']
CONTRACTS = ['idxml.vqc']
SPECS = ['parse.rs', 'idxml.rs']


class Hooks:
    """xml_processor's callback is a recorder: the events it is sent, in order"""
    def method(self, ft, n, b, nm, args):
        if b.ty.k == 'rec' and b.ty.a == 'Events':
            if nm not in ('start', 'id_value', 'finish'):
                return None
            v = ft.ex(args[0])
            if nm == 'id_value':
                if v.ty.k != 'psv':
                    ft.err(n, 'id_value with a view which is not part of the source')
            else:
                v = ft.coerce(v, SV)
            ft.emit('line', 'events_%s(&mut %s, %s);' % (nm, b.code, v.code))
            return V('()', UNIT)
        return None

    def construct(self, ft, n, t, vs):
        # a view of part of a buffer keeps its place in the buffer
        if t.k == 'sv' and len(vs) == 2 and vs[0].ty.k == 'it' and vs[1].ty.k == 'int':
            c = ft.int_cast(vs[1], U64).code
            r = ft.hoist(V('psv_of(%s, %s)' % (vs[0].code, c), PSV))
            return r
        return None

    def global_var(self, ft, rd, n):
        d = ft.ix.decl.get(rd['id'])
        if d is None or not kids(d) or kids(d)[-1]['kind'] != 'InitListExpr':
            return None
        els = [ft.ex(c) for c in kids(kids(d)[-1])]
        if not els or any(e.ty.k not in ('lit', 'it') for e in els):
            return None
        lits = [ft.str_bytes(self._lit(c)) for c in kids(kids(d)[-1])]
        fn = rd['name'] + '__at'
        if fn not in getattr(ft.m, '_tables', set()):
            ft.m._tables = getattr(ft.m, '_tables', set()) | {fn}
            o = "pub fn %s<'a>(i: i64) -> (r: It<'a>)\n    requires 0 <= i < %d,\n    ensures r.i == 0, r.s@.len() > 0, cstr_end(r.s@, 0) < r.s@.len(),\n" % (fn, len(lits))
            sq = ['Seq::<i8>::empty()' if not b else 'seq![%s]' % ', '.join('%di8' % x for x in b) for b in lits]
            o += ''.join('        i == %d ==> cstr(r.s@, 0) =~= %s,\n' % (i, s) for i, s in enumerate(sq)) + '{\n'
            for i, b in enumerate(lits):
                o += '    if i == %d {\n        %s\n        return It { s: lit_%d, i: 0 };\n    }\n' % (i, ft.lit_decl('lit_%d' % i, b + [0]), i)
            o += '    unreachable_end()\n}\n'
            ft.m.out.append(o)
        return V(fn, T('strtable'), None)

    def _lit(self, c):
        while c['kind'] != 'StringLiteral':
            c = kids(c)[0]
        return c

    def index(self, ft, n, a, b):
        if a.ty.k == 'strtable':
            return V('%s(%s)' % (a.code, ft.int_cast(b, I64).code), IT)
        return None

    def call(self, ft, n, rd, args):
        nm = rd['name']
        if nm == 'sort' and len(args) == 1:
            v = ft.ex(args[0])
            if v.ty == T('vec', STR):
                ft.assign(v, 'vec_str_sort(%s)' % v.code)
                return v
        if nm == 'find' and len(args) == 2:
            v = ft.ex(args[0])
            x = ft.ex(args[1])
            if v.ty == T('vec', STR):
                r = ft.hoist(V('vec_str_find(&%s, %s)' % (v.code, ft.m.lib.slice(ft, x)), T('idx')))
                r = V(r.code, T('vit', STR))
                r.container = v
                return r
        if nm == 'find' and len(args) == 3:
            a, b = ft.two(args[0], args[1])
            c = ft.ex(args[2])
            if a.ty.k == 'it':
                return ft.hoist(V('it_find(%s, %s, %s)' % (a.code, b.code, c.code), IT))
        return None


def setup(m, lib):
    m.records['xml_processor'] = RecModel(m, 'xml_processor')
    lib.types['callback'] = lib.types['quickbook::xml_processor::callback'] = lib.types['xml_processor::callback'] = T('rec', 'Events')
    REC_LT.add('Events')
    lib.hooks.append(Hooks())

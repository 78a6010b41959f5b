from trans import *
SOURCES = ['src/main_grammar.cpp', 'src/actions.cpp']
FLAGS = ['-include', 'boost/core/invoke_swap.hpp']
CONTRACTS = ['lists.vqc']
SPECS = ['lists.rs']


class Hooks:
    def operator(self, ft, n, nm, args, rd):
        if nm == 'operator<<' and messages(n):
            return V('()', UNIT)        # error and warning messages
        return None

    def ref(self, ft, n, rd):
        if rd.get('name') == 'qbk_version_n' and rd.get('kind') == 'VarDecl' and 'this_' in [p[0] for p in ft.info.params]:
            return V('this_.state_.qbk_version_n', U32)
        return None

    def method(self, ft, n, b, nm, args):
        if b.ty == IT and nm == 'base':
            return b                # the position a parse iterator (lookback_iterator) is at
        if b.ty.k == 'rec' and b.ty.a == 'ListStack':
            if nm == 'empty': return V('lstack_empty(&%s)' % b.code, BOOL)
            if nm == 'top': return V('lstack_top(&%s)' % b.code, ft.m.ty('quickbook::list_stack_item'))
            if nm == 'push':
                x = ft.ex(args[0])
                ft.emit('line', 'lstack_push(&mut %s, %s);' % (b.code, x.code))
                return V('()', UNIT)
            if nm == 'pop':
                ft.emit('line', 'lstack_pop(&mut %s);' % b.code)
                return V('()', UNIT)
        return None


def messages(n):
    if n.get('kind') == 'CallExpr':
        r = kids(n)[0]
        while r.get('kind') != 'DeclRefExpr' and len(kids(r)) == 1:
            r = kids(r)[0]
        r = r.get('referencedDecl', {})
        return r.get('name') in ('outerr', 'outwarn')
    return n.get('kind') == 'CXXOperatorCallExpr' and messages(strip(kids(n)[1]))


class StateModel(RecModel):
    """the parts of quickbook::state the list grammar works on, and a record of the output"""

    def fields(self):
        if self._f is None:
            fs = [c for c in kids(self.m.ix.records['state']) if c['kind'] == 'FieldDecl' and c['name'] in ('explicit_list', 'in_list', 'error_count')]
            self._f = [(c['name'], self.m.nty(c)) for c in fs] + [('ev', T('rec', 'Events')), ('qbk_version_n', U32)]
            self.m.dropped.append('state: all other members')
        return self._f


def setup(m, lib):
    for t in ('quickbook::lookback_iterator<char *>', 'quickbook::lookback_iterator<const char *>', 'lookback_iterator<const char *>', 'parse_iterator'):
        lib.types[t] = IT
    m.records['state'] = StateModel(m, 'state')
    m.records['list_stack_item'] = RecModel(m, 'list_stack_item', copy=True)
    drop = [c['name'] for c in kids(m.ix.records['main_grammar_local']) if c['kind'] == 'FieldDecl' and c['name'] not in ('list_stack', 'list_indent', 'block_type', 'state_')]
    m.records['main_grammar_local'] = RecModel(m, 'main_grammar_local', drop=drop, types={'list_stack': T('rec', 'ListStack'), 'state_': T('rec', 'state')})
    lib.hooks.append(Hooks())

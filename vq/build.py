"""Generate and verify one unit (a Verus crate) from the current source."""
import os, sys, json, re, subprocess, time, hashlib
import cppast, contracts
from cppast import ExtractError
from trans import *
from lib import Lib

HERE = os.path.dirname(os.path.abspath(__file__))
VERUS = os.environ.get('VQ_VERUS', 'verus')


class Unit:
    def __init__(self, name, sources, vqc, spec, hook=None, extra=None):
        self.name, self.sources, self.vqc, self.spec, self.hook = name, sources, vqc, spec, hook


def spec_text(s):
    """b"..." in specifications: the bytes as a sequence"""
    def f(m):
        bs = m.group(1).encode().decode('unicode_escape').encode('latin1')
        return 'seq![%s]' % ', '.join('%di8' % (b - 256 if b > 127 else b) for b in bs) if bs else 'Seq::<i8>::empty()'
    return re.sub(r'\bb"((?:[^"\\]|\\.)*)"', f, s)


def load_unit(name):
    import importlib
    m = importlib.import_module('units.' + name)
    return m


def generate(name):
    u = load_unit(name)
    ix = cppast.Index()
    docs = []
    flt = u.FILTER if hasattr(u, 'FILTER') else 'quickbook::'
    if len(u.SOURCES) == 1:
        docs = cppast.load(os.path.join(cppast.REPO, u.SOURCES[0]), flt, getattr(u, 'FLAGS', []))
    else:
        # one translation unit which includes all of them, so that declarations are shared
        import tempfile
        with tempfile.NamedTemporaryFile('w', suffix='.cpp', delete=False) as t:
            for s in u.SOURCES:
                t.write('#include "%s"\n' % os.path.join(cppast.REPO, s))
        try:
            docs = cppast.load(t.name, flt, ['-I' + os.path.join(cppast.REPO, 'src')] + getattr(u, 'FLAGS', []))
        finally:
            os.unlink(t.name)
    ix.add_docs(docs)
    cs = {}
    for f in u.CONTRACTS:
        new = contracts.parse(os.path.join(HERE, 'units', f), spec_text)
        imp = getattr(u, 'IMPORTS', {}).get(f)
        for c in new.values():
            for c1 in (c if isinstance(c, list) else [c]):
                c1.imported = imp
        cs.update(new)
    lib = Lib()
    m = Module(ix, cs, lib)
    if hasattr(u, 'setup'):
        u.setup(m, lib)
    for q, c in cs.items():
        for c1 in (c if isinstance(c, list) else [c]):
            if getattr(c1, 'ret_type_s', None):
                c1.ret_type = m.ty(c1.ret_type_s)
    body = m.emit_all()
    kinds = '\n'.join('pub const EXN_%s: u32 = %d;' % (re.sub(r'\W', '_', k), v) for k, v in lib.exn_kinds.items())
    out = '#![allow(unused_imports, unused_mut, unused_variables, dead_code, non_snake_case, unused_parens, unused_assignments, non_upper_case_globals, unused_braces, unreachable_code, non_camel_case_types)]\n'
    out += open(os.path.join(HERE, 'prelude.rs')).read()
    out += 'verus! {\n' + kinds + '\n'
    recs = ''
    seen = []
    for r in m.records.values():
        if r not in seen:
            seen.append(r)
            recs += r.text()
    for h in m.heaps.values():
        recs += h.text()
    for p in u.SPECS:
        out += '// ==== spec %s\n' % p + spec_text(open(os.path.join(HERE, 'units', p)).read()) + '\n'
    out += '\n'.join(m.imported_out)
    out += '// ==== generated from %s\n' % ', '.join(u.SOURCES)
    out += recs + body
    out += '\nfn main() {}\n} // verus!\n'
    out = re.sub(r'TAG::([\w:]+)', lambda t: str(ix.enums['quickbook::' + t.group(1)]), out)     # enumerators by name
    return m, out


if __name__ == '__main__':
    name = sys.argv[1]
    m, out = generate(name)
    p = '/tmp/w/%s.rs' % name
    open(p, 'w').write(out)
    print('inlined:', sorted(m.inlined))
    if '--gen' not in sys.argv:
        r = subprocess.run([VERUS, p] + [a for a in sys.argv[2:]], capture_output=True, text=True)
        t = r.stdout + r.stderr
        t = '\n\n'.join(b for b in t.split('\n\n') if not re.match(r'\s*(note: |warning: )?(automatically chose|  trigger|Verus printed|note:   trigger)', b.strip()))
        print(t[:12000])

"""Contract files (*.vqc)."""
import os, re
from cppast import ExtractError


class LoopSpec:
    def __init__(self):
        self.inv, self.decreases, self.head = [], None, None


class Contract:
    def __init__(self, q):
        self.q = q
        self.rust_name = re.sub(r'\W+', '_', q.replace('quickbook::', '').replace('detail::', ''))
        self.sig = None
        self.requires, self.ensures = [], []
        self.decreases = None
        self.head = self.tail = None
        self.loops = {}
        self.throws = False
        self.external = False
        self.mutable_this = False
        self.const_this = False
        self.optional = False
        self.heaps = []
        self.ret_alias = None
        self.ret_type = None
        self.terminates = True
        self.rlimit = None
        self.attrs = ''
        self.param_kinds = {}
        self.containers = {}
        self.extras = []
        self.file = None
        self.imported = None

    def matches(self, f):
        return self.sig is None or self.sig == f['type']['qualType']

    def loop_spec(self, key, ft):
        s = self.loops.get(key)
        if s is None and os.environ.get('VQ_NOINV'):
            return LoopSpec()
        if s is None:
            raise ExtractError('no invariant for loop %s of %s' % (key, self.q))
        return s


def parse(path, pre=lambda s: s):
    cs = {}
    cur = None
    loop = None
    last = None
    for ln, raw in enumerate(open(path), 1):
        line = pre(raw.rstrip('\n'))
        s = line.split('//')[0].rstrip() if line.lstrip().startswith('//') else line.rstrip()
        if not s.strip():
            continue
        if s.startswith('== '):
            m = re.match(r'== (.+?)(?:\s+@\s*(.*?))?(?:\s+as\s+(\w+))?\s*$', s)
            cur = Contract(m.group(1).strip())
            if m.group(2): cur.sig = m.group(2)
            if m.group(3): cur.rust_name = m.group(3)
            cur.file = path
            if cur.q in cs:
                if not isinstance(cs[cur.q], list): cs[cur.q] = [cs[cur.q]]
                cs[cur.q].append(cur)
            else:
                cs[cur.q] = cur
            loop = None
            last = None
            continue
        ind = len(s) - len(s.lstrip())
        t = s.strip()
        m = re.match(r'(requires|ensures|inv|decreases|head|tail|loop|throws|external|optional|heaps|ret_alias|ret_type|noterm|rlimit|attrs|mutable_this|const_this|param|container|extra)\b\s*(.*)$', t)
        if m and ind <= (4 if loop else 2):
            k, rest = m.group(1), m.group(2)
            if ind <= 2 and k not in ('inv',):
                loop = None
            tgt = loop or cur
            if k == 'loop':
                loop = LoopSpec()
                cur.loops[rest.strip().rstrip(':')] = loop
                last = None
                continue
            if k in ('requires', 'ensures', 'inv'):
                mm = re.match(r'(\w+)\s*:\s*(.*)$', rest)
                l = {'requires': cur.requires, 'ensures': cur.ensures, 'inv': getattr(tgt, 'inv', None)}[k]
                l.append((mm.group(1), mm.group(2)))
                last = ('list', l)
            elif k in ('decreases', 'head', 'tail'):
                setattr(tgt, k, rest.lstrip(': '))
                last = ('attr', tgt, k)
            elif k == 'throws': cur.throws = True
            elif k == 'external': cur.external = True
            elif k == 'mutable_this': cur.mutable_this = True
            elif k == 'const_this': cur.const_this = True
            elif k == 'optional': cur.optional = True
            elif k == 'noterm': cur.terminates = False
            elif k == 'heaps': cur.heaps = rest.split()
            elif k == 'ret_alias': cur.ret_alias = rest.strip()
            elif k == 'rlimit': cur.rlimit = rest.strip()
            elif k == 'attrs': cur.attrs += rest + '\n'
            elif k == 'param': cur.param_kinds[rest.split()[0]] = rest.split()[1:]
            elif k == 'extra':
                w = rest.split()
                cur.extras.append((w[0], ' '.join(w[2:]), w[1]))
            elif k == 'container': cur.containers[rest.split()[0]] = rest.split()[1]
            elif k == 'ret_type': cur.ret_type_s = rest.strip()
            continue
        if last is None:
            raise ExtractError('%s:%d: cannot parse %r' % (path, ln, line))
        if last[0] == 'list':
            n, e = last[1][-1]
            last[1][-1] = (n, (e + ' ' + t).strip())
        else:
            _, tgt, k = last
            setattr(tgt, k, (getattr(tgt, k) + '\n        ' + t).strip())
    return cs

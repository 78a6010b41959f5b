"""Run the generator and the verifier on one unit; map the verifier's answers to named obligations."""
import os, re, sys, json, subprocess, time, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
from cppast import ExtractError

VERUS = os.environ.get('VQ_VERUS', 'verus')


def run_verus(path, timeout, extra=()):
    t0 = time.time()
    try:
        p = subprocess.run([VERUS, '--output-json', '--time-expanded', '--num-threads', '4', path] + list(extra) + ['--', '--error-format=json'],
                           capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        subprocess.run(['pkill', '-f', path], check=False)
        return {'timeout': True, 'wall': time.time() - t0, 'msgs': [], 'res': None, 'raw': 'verifier timed out after %d s' % timeout}
    msgs = []
    for l in p.stderr.splitlines():
        try:
            d = json.loads(l)
        except Exception:
            continue
        if d.get('level') in ('error', 'note', 'error: internal compiler error'):
            msgs.append(d)
    res = None
    try:
        res = json.loads(p.stdout[p.stdout.index('{'):])
    except Exception:
        pass
    return {'timeout': False, 'wall': time.time() - t0, 'msgs': msgs, 'res': res,
            'raw': '\n'.join(d.get('rendered') or d.get('message', '') for d in msgs if d.get('level') == 'error') or p.stderr[-3000:]}


def fn_ranges(text):
    """(name, first line, last line) of every fn in the text, in order"""
    out = []
    for m in re.finditer(r'(?m)^\s*(?:pub\s+)?(?:open\s+|closed\s+|uninterp\s+)?(?:broadcast\s+)?(?:(proof|spec|axiom)\s+)?(?:const\s+)?fn\s+(\w+)', text):
        out.append((m.group(2), text.count('\n', 0, m.start(2)) + 1, m.group(1) or 'exec'))
    n = text.count('\n') + 1
    return [(a, l, (out[i + 1][1] - 1 if i + 1 < len(out) else n), k) for i, (a, l, k) in enumerate(out)]


def analyse_names(line, fr):
    for n, a, b, k in fr:
        if a <= line <= b:
            return n, k
    return None, None


def scan_escapes(text):
    """every construct that would make an obligation vanish"""
    found = []
    body = re.sub(r'//[^\n]*', '', text)
    for rx in (r'\bassume\s*\(', r'\badmit\s*\(', r'external_body', r'assume_specification', r'\bexternal\b', r'\baxiom\b', r'uninterp', r'exec_allows_no_decreases'):
        for m in re.finditer(rx, body):
            l = body.count('\n', 0, m.start())
            nm = re.search(r'fn\s+(\w+)', body[m.start():m.start() + 400])
            found.append((m.group(0), nm.group(1) if nm else '?'))
    return found


class UnitResult:
    pass


def verify_unit(name, outdir, timeout=240, vacuity=True):
    """status: ok / failed / inapplicable (annotations no longer fit the source, or tool limit)"""
    r = UnitResult()
    r.name, r.status, r.reason = name, None, ''
    r.failed = {}          # rust fn -> [obligation text]
    r.limits = {}          # rust fn -> reason  (resource limit)
    r.times, r.verified, r.wall = {}, 0, 0
    r.contracts, r.labels, r.raw, r.text, r.calls = [], [], '', '', {}
    r.inlined, r.dropped, r.escapes, r.imported = [], [], [], []
    r.vac_total = r.vac_ok = 0
    t0 = time.time()
    try:
        m, text = build.generate(name)
    except ExtractError as e:
        r.status, r.reason = 'inapplicable', 'extraction: %s' % e
        r.wall = time.time() - t0
        return r
    except subprocess.CalledProcessError as e:
        r.status, r.reason = 'inapplicable', 'extraction: %s' % e
        r.wall = time.time() - t0
        return r
    except (KeyError, AttributeError, TypeError, IndexError, AssertionError) as e:
        import traceback
        r.status, r.reason = 'inapplicable', 'extraction (construct outside the supported subset): %r %s' % (e, traceback.format_exc()[-600:])
        r.wall = time.time() - t0
        return r
    r.text = text
    r.contracts = m.under_contract
    r.inlined = sorted(m.inlined)
    r.dropped = list(m.dropped)
    r.escapes = [e for e in scan_escapes(text) if e[1] not in m.imported]
    r.imported = list(m.imported)
    path = os.path.join(outdir, name + '.rs')
    open(path, 'w').write(text)
    r.path = path
    fr = fn_ranges(text)
    lines = text.split('\n')
    # call graph by name
    names = {n for n, _, _, _ in fr}
    for n, a, b, k in fr:
        body = re.sub(r'//[^\n]*', '', '\n'.join(lines[a - 1:b]))
        r.calls.setdefault(n, set()).update(set(re.findall(r'\b(\w+)\s*(?:::<[^>]*>)?\(', body)) & names - {n})
    r.kinds = {n: k for n, _, _, k in fr}
    r.labels = re.findall(r'// ((?:\w+)\.(?:requires|ensures|loop[\w:#]*\.inv)\.\w+)', text)
    o = run_verus(path, timeout)
    r.verus_wall = o['wall']
    if o['timeout']:
        r.status, r.reason = 'inapplicable', o['raw']
        r.wall = time.time() - t0
        return r
    res = o['res'] or {}
    vr = res.get('verification-results') or {}
    r.raw = o['raw']
    if not vr or vr.get('encountered-vir-error') or 'verified' not in vr:
        r.status, r.reason = 'inapplicable', 'the contracts no longer fit the extracted code: ' + (o['raw'][:1500])
        r.wall = time.time() - t0
        return r
    r.verified = vr['verified']
    r.threads = res.get('times-ms', {}).get('num-threads')
    r.smt_ms = res.get('times-ms', {}).get('smt', {}).get('total', 0)
    for md in res.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in md.get('function-breakdown', []):
            nm = f['function'].split('::')[-1]
            t = r.times.setdefault(nm, [0, True])
            t[0] += f.get('time-micros', 0) / 1e6
            t[1] = t[1] and f['success']
    hard = False
    for d in o['msgs']:
        if d['level'] != 'error' or d['message'].startswith('aborting due to'):
            continue
        prim = [s for s in d.get('spans', []) if s.get('file_name', '').endswith(name + '.rs')]
        # the function whose obligation fails: the exit/call site when there is one
        site = None
        lab = ''
        for s in prim:
            t = s['text'][0]['text'] if s.get('text') else ''
            mm = re.search(r'// (\w+\.(?:requires|ensures|loop[\w:#]*\.inv)\.\w+)', t)
            if mm:
                lab = mm.group(1)
        if d.get('code'):
            hard = True
            continue
        fnames = []
        for s in prim:
            n, k = analyse_names(s['line_start'], fr)
            fnames.append((s, n, k))
        msg = d['message']
        pick = None
        if 'precondition' in msg:
            pick = next(((s, n, k) for s, n, k in fnames if s['is_primary']), None)
        elif 'postcondition' in msg:
            pick = next(((s, n, k) for s, n, k in fnames if not s['is_primary']), None) or (fnames[0] if fnames else None)
        else:
            pick = next(((s, n, k) for s, n, k in fnames if s['is_primary']), None) or (fnames[0] if fnames else None)
        if pick is None:
            hard = True
            continue
        s, n, k = pick
        code = s['text'][0]['text'].strip()[:200] if s.get('text') else ''
        tx = msg + (': ' + lab if lab else '') + ' at `' + code + '`'
        if not lab and 'precondition' in msg:
            for s2, n2, k2 in fnames:
                if not s2['is_primary'] and s2.get('text'):
                    tx += ' (requires ' + s2['text'][0]['text'].strip()[:120] + ')'
        if re.search(r'resource limit|rlimit|timed? ?out|could not determine', msg, re.I):
            r.limits[n] = msg
        else:
            r.failed.setdefault(n, []).append(tx)
    for nm, (tm, ok) in r.times.items():
        if not ok and nm not in r.failed and nm not in r.limits:
            r.limits[nm] = 'not verified (no obligation named by the verifier)'
    if hard and not r.failed:
        r.status, r.reason = 'inapplicable', 'the contracts no longer fit the extracted code: ' + o['raw'][:1500]
        r.wall = time.time() - t0
        return r
    if r.failed or r.limits or vr.get('errors', 0):
        r.status = 'failed'
    elif vr.get('success'):
        r.status = 'ok'
    else:
        r.status, r.reason = 'inapplicable', o['raw'][:1500]
    if vacuity and r.status == 'ok':
        vacuity_run(r, outdir, timeout)
    r.wall = time.time() - t0
    return r


def base_name(fn):
    return re.sub(r'_L\d+$', '', fn)


def vacuity_run(r, outdir, timeout):
    """assert(false) right behind every precondition must be rejected"""
    text = r.text
    i = text.index('// ==== generated from')
    headpart, gen = text[:i], text[i:]
    out, want = [], []
    for m in re.finditer(r"(?m)^pub fn (\w+)(<'a>)?\((.*?)\) -> \(r_: (.*?)\)\n((?:    requires\n(?:        .*\n)+?)?)(?=    ensures|    decreases|\{)", gen):
        nm = m.group(1)
        if '.inv.dead' in m.group(5): continue   # a loop the contract excludes on purpose
        out.append("pub fn vac_%s<'a>(%s) -> (r_: %s)\n%s{ assert(false); unreachable_end() }\n" % (nm, m.group(3), m.group(4), m.group(5)))
        want.append('vac_' + nm)
    others = re.sub(r"(?ms)^#\[verifier::[^\n]*\n(?=pub fn)", '', gen)
    end = others.rindex('fn main()')
    # the functions themselves are kept as declarations: specifications may call them
    decl = re.sub(r'(?m)^(pub fn \w+)', r'#[verifier::external_body]\n\1', others[:end])
    t2 = headpart + decl + '\n' + '\n'.join(out) + '\nfn main() {}\n} // verus!\n'
    p = os.path.join(outdir, r.name + '_vac.rs')
    open(p, 'w').write(t2)
    o = run_verus(p, timeout)
    fr = fn_ranges(t2)
    hit = set()
    for d in o['msgs']:
        if d['level'] == 'error':
            for s in d.get('spans', []):
                n, k = analyse_names(s['line_start'], fr)
                if n: hit.add(n)
    r.vac_total, r.vac_ok = len(want), len([w for w in want if w in hit])
    r.vac_bad = [w for w in want if w not in hit]

#!/usr/bin/env python3
"""check.py ID : decide one property against /repo's current tree (see DESIGN.md)."""
import os, sys, json, time, subprocess, shutil, re, threading, tempfile
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'vq'))
REPO = os.environ.get('VQ_REPO', '/repo')
import props
import verify


def closure(r, roots):
    seen, todo = set(), list(roots)
    while todo:
        f = todo.pop()
        if f in seen or f not in r.calls: continue
        seen.add(f)
        todo += list(r.calls[f])
    return seen


def known_findings(pid):
    known, fixed = [], []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\w+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                known.append((m.group(2), m.group(3).strip()))
    return known


CXX = ['g++', '-std=c++11', '-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr',
       '-D_GLIBCXX_ASSERTIONS', '-w', '-DBOOST_FILESYSTEM_VERSION=3', '-DSTRICT_BUILD']


class Harness(threading.Thread):
    """compile the search harness against /repo's current sources and run it"""

    def __init__(self, pid, spec, work, tier, seed, known):
        threading.Thread.__init__(self)
        self.pid, self.spec, self.work, self.tier, self.seed, self.known = pid, spec, work, tier, seed, known
        self.status, self.out, self.err = None, '', ''
        self.cases = self.distinct = 0
        self.samples, self.fail, self.knownhit = [], None, []
        self.wall = 0

    def run(self):
        t0 = time.time()
        try:
            self.go()
        finally:
            self.wall = time.time() - t0

    def go(self):
        sp = self.spec
        exe = os.path.join(self.work, 'harness')
        objs, procs = [], []
        for s in [os.path.join(ROOT, 'harness', sp['src'])] + [os.path.join(REPO, x) for x in sp.get('repo', [])]:
            o = os.path.join(self.work, re.sub(r'\W', '_', s) + '.o')
            objs.append(o)
            procs.append((s, subprocess.Popen(CXX + sp.get('flags', []) + ['-I' + os.path.join(ROOT, 'shim'), '-I' + os.path.join(ROOT, 'harness'), '-I' + os.path.join(REPO, 'src'), '-DVQ_SRC="%s/src"' % REPO, '-c', s, '-o', o],
                                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for s, p in procs:
            so, _ = p.communicate()
            if p.returncode:
                self.status, self.err = 'nobuild', s + '\n' + so[-3000:]
        if self.status: return
        p = subprocess.run(['g++', '-fsanitize=address,undefined'] + objs + ['-o', exe] + sp.get('libs', []), capture_output=True, text=True)
        if p.returncode:
            self.status, self.err = 'nobuild', p.stderr[-3000:]
            return
        secs = sp.get('secs', 15) if self.tier == 'quick' else sp.get('thorough_secs', 240)
        self.cmd = [exe, '--prop', self.pid, '--seed', str(self.seed), '--secs', str(secs), '--thorough', '1' if self.tier == 'thorough' else '0']
        for k, _ in self.known: self.cmd += ['--known', k]
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:hard_rss_limit_mb=6000:allocator_may_return_null=0:handle_abort=0', UBSAN_OPTIONS='print_stacktrace=1')
        limit = 240 if self.tier == 'quick' else 700
        try:
            scratch = os.path.join(self.work, 'scratch')
            os.makedirs(scratch, exist_ok=True)
            p = subprocess.run(self.cmd, capture_output=True, timeout=limit, cwd=scratch, env=env)
            rc, so, se = p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
        except subprocess.TimeoutExpired as e:
            rc, so, se = None, (e.stdout or b'').decode('utf8', 'replace'), ''
        self.out, self.err = so, se
        for l in so.splitlines():
            if l.startswith('CASES '):
                f = l.split()
                self.cases, self.distinct = int(f[1]), int(f[3])
            elif l.startswith('SAMPLE '): self.samples.append(l[7:][:400])
            elif l.startswith('FAIL ') and not self.fail: self.fail = l[5:]
            elif l.startswith('KNOWN '):
                if l[6:] not in self.knownhit: self.knownhit.append(l[6:])
        if self.fail: self.status = 'fail'
        elif rc == 0 and self.cases > 0: self.status = 'pass'
        elif rc is None: self.status = 'timeout'
        else:
            self.status = 'error'
            self.err = 'exit %s\n' % rc + self.err


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = props.PROPS[pid]
    t0 = time.time()
    evdir = os.path.join(ROOT, 'evidence')
    os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='vq_%s_' % pid)
    known = known_findings(pid)
    try:
        rc = decide(pid, P, tier, seed, work, evdir, known, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def decide(pid, P, tier, seed, work, evdir, known, t0):
    harness = Harness(pid, P['harness'], work, tier, seed, known)
    harness.start()
    results = {}

    def one(u):
        results[u] = verify.verify_unit(u, work, timeout=400)
    ths = [threading.Thread(target=one, args=(u,)) for u, _ in P['units']]
    for t in ths: t.start()
    for t in ths: t.join()
    harness.join()

    failed, undecided, clauses, fns, smt, queries, trusted, vac = [], [], [], [], 0.0, 0, set(), [0, 0]
    inl, dropped, percent = set(), set(), []
    for u, roots in P['units']:
        r = results[u]
        if r.status == 'inapplicable':
            undecided.append('%s: %s' % (u, r.reason))
            continue
        known_roots = [f for f in roots if f in r.calls]
        miss = [f for f in roots if f not in r.calls]
        if miss:
            undecided.append('%s: functions not generated: %s' % (u, miss))
        # loops of a function are separate functions, reached through calls
        cl = closure(r, known_roots)
        for c in r.contracts:
            if c['rust'] in cl: fns.append('%s (%s)' % (c['function'], c.get('file') or ''))
        for f in sorted(cl):
            if f in r.failed:
                if r.kinds.get(f) == 'proof': undecided.append('%s: lemma %s: %s' % (u, f, r.failed[f][0]))
                else:
                    for x in r.failed[f]: failed.append('%s::%s: %s' % (u, f, x))
            if f in r.limits: undecided.append('%s: %s: %s' % (u, f, r.limits[f]))
            if f in r.times:
                smt += r.times[f][0]
                queries += 1
        labs = [l for l in r.labels if l.split('.')[0] in cl]
        clauses += labs
        inl |= set(r.inlined)
        dropped |= set(r.dropped)
        vac[0] += r.vac_total; vac[1] += r.vac_ok
        if r.status == 'ok' and r.vac_total != r.vac_ok:
            undecided.append('%s: vacuous precondition: %s' % (u, r.vac_bad))
        if r.status == 'ok' and r.vac_total == 0:
            undecided.append('%s: no obligation was generated' % u)
        bad = [e for e in r.escapes if e[1] not in props.TRUSTED]
        if bad: undecided.append('%s: unlisted trusted construct %s' % (u, bad))
        for e in r.escapes:
            if e[1] in cl or not e[1].startswith('uninit'): trusted.add(e[1])
    proved = not failed and not undecided
    total_clauses = len(clauses)
    h = harness
    viol = 0
    lines = []
    replay = os.path.join(evdir, 'replay', pid + '.txt')
    rel = os.path.relpath(replay, ROOT)

    def write_replay(kind):
        with open(replay, 'w') as f:
            f.write('property: %s  %s\n' % (pid, P['title']))
            if h.fail:
                f.write('\nfailing input, found on the real code (built from %s/src):\n  %s\n' % (REPO, h.fail))
                f.write('reproduce: build harness/%s with %s and run: --prop %s --seed %d\n' % (P['harness']['src'], ' '.join(P['harness'].get('repo', [])), pid, seed))
                f.write('\nstderr of the run:\n' + h.err[:6000] + '\n')
            if failed:
                f.write('\nfailed obligations:\n' + ''.join('  %s\n' % x for x in failed))
            if undecided:
                f.write('\nundecided:\n' + ''.join('  %s\n' % x for x in undecided))
            for u, _ in P['units']:
                if results[u].raw: f.write('\nverifier output for unit %s:\n%s\n' % (u, results[u].raw[:20000]))
    for k, what in known:
        if k in h.knownhit:
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, what))
    if h.status == 'fail':
        viol = 1
        write_replay('input')
        lines.append('VIOLATION property=%s replay=%s' % (pid, rel))
        rc = 1
    elif failed:
        viol = 1
        write_replay('obligation')
        for x in failed[:5]: print('failed obligation: ' + x)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rel))
        rc = 1
    elif proved and h.status in ('pass', 'nobuild', 'timeout', 'error') and (h.status == 'pass' or P['harness'].get('optional')):
        rc = 0
    elif proved:
        # every obligation holds; the cross-check on the real code could not be run
        print('note: proved, but the harness did not complete (%s): %s' % (h.status, h.err[:1500]))
        rc = 0
    elif h.status == 'pass':
        print('note: the contracts do not fit this source (%s); held on the bounded search only, not counted as proved' % '; '.join(undecided)[:1500])
        rc = 0
    else:
        print('no answer: %s / harness %s: %s' % ('; '.join(undecided)[:2000], h.status, h.err[:2000]))
        rc = 2
    level = P.get('level', 'proof') if proved else 'other'
    cov = {
        'obligations': total_clauses, 'discharged': total_clauses if proved else 0,
        'verifier_queries': queries, 'smt_seconds': round(smt, 3),
        'checker_cmd': 'python3 check.py %s  (generates the crate from %s/src, then: verus <unit>.rs)' % (pid, REPO),
        'backend': 'Verus 0.2026.09.13 / Z3', 'functions_under_contract': sorted(set(fns)), 'inlined_helpers': sorted(inl),
        'extraction_dropped': sorted(dropped), 'vacuity_guards': {'preconditions_checked': vac[0], 'reachable': vac[1]},
        'trusted_base': sorted('%s: %s' % (t, props.TRUSTED.get(t, '?')) for t in trusted) + props.TRUSTED_GENERAL + P.get('trusted', []),
        'clauses': sorted(set(clauses)),
        'undecided': undecided, 'failed': failed,
        'evaluations': h.cases, 'distinct_nontrivial': h.distinct,
        'rule': 'cross-check of the extraction and counterexample search on the real code (bounded; not counted as proof): ' + P['harness'].get('rule', ''),
        'samples': h.samples, 'harness': {'status': h.status, 'wall_s': round(h.wall, 1)},
        'explanation': 'obligations = named contract clauses (requires/ensures/loop invariants) of the functions reached from this property; each, plus the implicit ones (bounds, signed overflow, asserts, callee preconditions, termination), is discharged by the verifier on this run.' if proved else 'NOT proved on this run: bounded search on the real code only.',
        'units': {u: {'status': results[u].status, 'wall_s': round(results[u].wall, 1), 'verified': results[u].verified} for u, _ in P['units']},
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': props.ASSUMPTIONS + P.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': viol}
    json.dump(ev, open(os.path.join(evdir, pid + '.json'), 'w'), indent=1)
    for l in lines: print(l)
    print('%s: %s; %d clauses over %d functions, %d verifier queries, %.1f s solver; harness %s (%d cases); %.0f s' % (
        pid, 'proved' if proved else ('VIOLATED' if viol else 'not proved'), total_clauses, len(set(fns)), queries, smt, h.status, h.cases, time.time() - t0))
    return rc


main()

#!/usr/bin/env python3
"""check.py ID [quick|thorough]      decide one property on /repo's current tree
   check.py --replay FILE            rebuild and replay a recorded schedule
   check.py --selftest               validate the explorer on programs with known verdicts"""
import sys, os, json, subprocess, time, glob, re, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')
sys.path.insert(0, HERE)

INCOMPLETE = [] # what was built without some uses of the library
LOST = [] # scenarios that do not compile
FEW = [] # variants in which these are few
def build(bdir, name, sources, std=False):
    exe = os.path.join(bdir, name)
    env = dict(os.environ)
    if std: env['MC_STD_STOP'] = '1'
    cmd = [os.path.join(HERE, 'mc/build.sh'), exe, REPO] + sources
    r = subprocess.run(cmd, env=env, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-3000:] + '\n'.join(l for l in r.stderr.split('\n') if 'error' in l or 'undefined' in l)[:6000] + '\n')
        # a use of the library no longer compiles. What still does is explored: move-only objects become
        # objects whose copying is a violation. Without a violation there is no answer.
        env['MC_CXXFLAGS'] = '-DMC_LESS'
        r = subprocess.run(cmd, env=env, capture_output=True, text=True)
        drops = re.sub(r'\.\w+$', '', os.path.join(HERE, 'harness', name)) + '.drops'
        if r.returncode and os.path.exists(drops): # each file of the harness without the uses that do not compile; a file for which that is not enough is left out
            r = subprocess.run(cmd, env=dict(env, MC_SKIPBAD='1', MC_DROPS=' '.join(l.strip() for l in open(drops) if l.startswith('-'))), capture_output=True, text=True)
        elif r.returncode: # the harness without the scenarios that do not compile
            left = prune(exe, sources, std)
            if left: r = subprocess.run(cmd[:3] + left, env=env, capture_output=True, text=True)
        sys.stderr.write('build of %s failed%s\n' % (name, ', exploring what compiles' if r.returncode == 0 else ': no answer'))
        if r.returncode: raise SystemExit(2)
        INCOMPLETE.append(name)
    return exe

# the top-level declarations of a C++ source as (first, last) offsets, looking into namespaces
def units(s):
    out = []; i = 0; depth = 0; start = None; n = len(s)
    while i < n:
        c = s[i]
        if s.startswith('//', i): i = s.find('\n', i); i = n if i < 0 else i; continue
        if s.startswith('/*', i): i = s.find('*/', i); i = n if i < 0 else i + 2; continue
        if c == '#' and not s[s.rfind('\n', 0, i) + 1:i].strip():
            while True:
                j = s.find('\n', i); j = n if j < 0 else j
                if not s[i:j].endswith('\\'): i = j; break
                i = j + 1
            continue
        if start is None and not c.isspace():
            m = re.compile(r'(inline )?namespace( [\w:]+)?\s*\{').match(s, i)
            if m: i = m.end(); continue
            if c == '}': i += 1; continue
            start = i
        if c in '"\'' and not (c == "'" and i and s[i - 1].isalnum()):
            j = i + 1
            while j < n and s[j] != c: j += 2 if s[j] == '\\' else 1
            i = j + 1; continue
        if c in '({[': depth += 1
        elif c in ')}]': depth -= 1
        if depth == 0 and start is not None and c in ';}': out.append((start, i + 1)); start = None
        i += 1
    return out

# copies of the harness's files without what does not compile on the tree under test, as long as most scenarios are left
def prune(exe, sources, std):
    from concurrent.futures import ThreadPoolExecutor
    d = os.path.join(os.path.dirname(exe), 'left.' + os.path.basename(exe)); shutil.copytree(os.path.join(HERE, 'harness'), d)
    src = [os.path.join(d, os.path.basename(s)) for s in sources]
    gen = os.path.join(os.path.dirname(exe), 'obj.' + os.path.basename(exe), 'gen')
    inc = (['-I' + os.path.join(HERE, 'mc/stdshim')] if std else []) + ['-I' + gen, '-I' + REPO, '-I' + os.path.join(HERE, 'mc')]
    gone = set()
    for _ in range(16):
        cmd = ['g++', '-std=c++20', '-O0', '-w', '-fsyntax-only', '-fmax-errors=0', '-fdiagnostics-column-unit=byte', '-fno-diagnostics-show-caret', '-DMC_LESS'] + inc
        with ThreadPoolExecutor(8) as ex: msgs = list(ex.map(lambda s: subprocess.run(cmd + [s], capture_output=True, text=True, env=dict(os.environ, LC_ALL='C')), src))
        if all(m.returncode == 0 for m in msgs):
            read = lambda fs: [x for f in fs for x in re.findall(r'MC_SCENARIO\("([^"]*)"', open(f).read())]
            files = [f for f in glob.glob(d + '/*') if f in src or f.endswith('.inc') and any(os.path.basename(f) in open(s).read() for s in src)]
            before = read([os.path.join(HERE, 'harness', os.path.basename(f)) for f in files]); after = read(files)
            LOST.extend(sorted(set(before) - set(after)))
            if len(after) * 4 >= len(before) * 3: FEW.append(os.path.basename(exe))
            sys.stderr.write('left out, as it does not compile:\n' + ''.join('  %s: %s\n' % (f, x.strip().split('\n')[0][:110]) for f, x in sorted(gone)))
            return src
        cut = set()
        for m in msgs:
            at = None; done = False
            for l in m.stderr.split('\n'):
                k = re.match(r'(/[^:]+):(\d+):(\d+):\s*(.*)', l)
                if not k: continue
                if k[4].startswith('required from') or k[4].startswith('error'):
                    if k[1].startswith(d + '/'):
                        if k[4].startswith('required') : at = (k[1], int(k[2]), int(k[3]))
                        elif at is None: at = (k[1], int(k[2]), int(k[3]))
                    if k[4].startswith('error'):
                        if at: cut.add(at)
                        at = None
        if not cut: return None
        n = 0
        for f in {c[0] for c in cut}:
            s = open(f).read(); ls = [0]
            for l in s.encode().split(b'\n'): ls.append(ls[-1] + len(l) + 1)
            b = s.encode(); us = units(b.decode('latin-1'))
            for _, line, col in (c for c in cut if c[0] == f):
                o = ls[line - 1] + col - 1
                for x, y in us:
                    if x <= o < y and b[x:y].strip():
                        gone.add((os.path.basename(f), b[x:y].decode())); n += 1
                        b = b[:x] + bytes(c if c == 10 else 32 for c in b[x:y]) + b[y:]
            open(f, 'wb').write(b)
        if not n: return None
    return None

def symbolize(exe, pcs):
    out = []
    for label, pc in pcs:
        o = subprocess.run(['addr2line', '-e', exe, '-Cfsi', hex(pc - 1)], capture_output=True, text=True).stdout.split('\n')
        fr = ['%s (%s)' % (re.sub(r' \[clone.*', '', o[i]), o[i + 1].split(' ')[0]) for i in range(0, len(o) - 1, 2)]
        fr = [f for f in fr if not re.search(r'\((mcrt\.cpp|\?\?|invoke\.h|std_thread\.h|std_function\.h):', f)]
        if fr: out.append((label, fr))
    return out

def load_known():
    known = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) scenario=(\S+) kind=(\S+) match=/(.*?)/ (.*)', l)
            if m: known.append(dict(property=m[1], scenario=m[2], kind=m[3], rx=m[4], what=m[5]))
    return known

def sources_of(pid):
    src = sorted(glob.glob(os.path.join(HERE, 'harness', pid + '*.cpp')))
    return [s for s in src if not s.endswith('.std.cpp')], [s for s in src if s.endswith('.std.cpp')]

def variants(pid):
    own, std = sources_of(pid)
    v = []
    if own: v.append(('own', own, False))
    if std: v.append(('std', std, True))
    return v

def main():
    if sys.argv[1] == '--replay': return replay(sys.argv[2])
    if sys.argv[1] == '--selftest': return selftest()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=pid + '.', dir=os.path.join(HERE, 'build'))
    limit = float(os.environ.get('MC_LIMIT', '420' if tier == 'quick' else '780'))
    jobs = os.environ.get('MC_JOBS', str(os.cpu_count() or 8))
    rc = 0; viol = 0; scns = []; known_lines = []
    try:
        from concurrent.futures import ThreadPoolExecutor
        vs = variants(pid)
        if not vs: raise SystemExit('no harness for ' + pid)
        with ThreadPoolExecutor(2) as ex:
            exes = list(ex.map(lambda v: build(bdir, pid + '.' + v[0], v[1], v[2]), vs))
        for (vn, _, _), exe in zip(vs, exes):
            outp = exe + '.json'
            r = subprocess.run([exe, '--tier', tier, '--jobs', jobs, '--limit', str(max(20, limit - (time.time() - t0))), '--out', outp], capture_output=True, text=True)
            if r.returncode not in (0, 1) or not os.path.exists(outp):
                sys.stderr.write(r.stdout[-2000:] + r.stderr[-2000:])
                if not os.path.exists(outp): raise SystemExit('explorer failed (rc %d)' % r.returncode)
            d = json.load(open(outp))
            for s in d['scenarios']:
                s['variant'] = vn
                scns.append(s)
                if s.get('internal') and not s.get('violation'):
                    sys.stderr.write('INTERNAL %s: %s\n' % (s['name'], s['internal'])); rc = max(rc, 2)
                v = s.get('violation')
                if not v: continue
                sym = symbolize(exe, v['pcs'])
                text = '%s: %s\n' % (v['kind'], v['msg']) + '\n'.join('  %-20s %s' % (l, ' <- '.join(f)) for l, f in sym)
                k = next((k for k in load_known() if k['property'] == pid and k['scenario'] == s['name'] and k['kind'] == v['kind'] and re.search(k['rx'], text, re.S)), None)
                if k:
                    known_lines.append('KNOWN-FINDING: property=%s %s' % (pid, k['what'])); s['known'] = k['what']; continue
                if viol >= 3 and time.time() - t0 > limit / 2: continue # enough are replayed and reported
                rdir = os.path.join(HERE, 'replays'); os.makedirs(rdir, exist_ok=True)
                rp = os.path.join(rdir, '%s.%s.txt' % (re.sub(r'[^\w.\-]', '_', s['name']), vn))
                head = 'property %s\nvariant %s\nscenario %s\nbounds %d %d %d %d %d\nchoices %s\n' % (pid, vn, s['name'], tier == 'thorough', v['bound'] if s['mode'] != 'D' else 0, s['stale_b'], s['spur_b'], s['time_b'], ' '.join(map(str, v['choices'])))
                open(rp, 'w').write(head)
                tr = subprocess.run([exe, '--replay', rp], capture_output=True, text=True, errors='replace', timeout=120)
                ok = tr.returncode == 1 or v['kind'] in ('hang',)
                open(rp, 'w').write(head + '--- ' + text.replace('\n', '\n--- ') + '\n--- trace (replayed: %s)\n' % ('reproduced' if ok else 'NOT reproduced') + '\n'.join('# ' + l for l in tr.stdout.split('\n')))
                if not ok:
                    sys.stderr.write('violation of %s did not reproduce on replay\n%s\n' % (s['name'], text)); rc = max(rc, 2); continue
                viol += 1
                print('scenario %s: %s' % (s['name'], text))
                print('VIOLATION property=%s replay=%s' % (pid, rp))
        for l in sorted(set(known_lines)): print(l)
        bad0 = [s['name'] for s in scns if s['execs'] == 0 and not s.get('violation')]
        if bad0: sys.stderr.write('no execution completed in: %s\n' % bad0); rc = max(rc, 2)
        write_evidence(pid, tier, seed, scns, time.time() - t0, viol, known_lines)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    for l in sorted(set(LOST)): print('NOT EXPLORED: %s does not compile on this tree' % l)
    if set(INCOMPLETE) - set(FEW): rc = max(rc, 2)
    if viol: rc = 1
    tot = sum(s['execs'] for s in scns)
    print('%s %s: %d scenarios, %d executions, %d transitions, %d violations, %.1fs' % (pid, tier, len(scns), tot, sum(s['steps'] for s in scns), viol, time.time() - t0))
    return rc

def write_evidence(pid, tier, seed, scns, wall, viol, known):
    modes = {'P': 'all schedules up to the preemption bound', 'D': 'all schedules (dynamic partial-order reduction with sleep sets, no preemption bound)', 'S': 'all operation sequences/programs of the stated depth'}
    cov = dict(
        states=sum(s['nodes'] for s in scns) + len(scns),
        transitions=sum(s['steps'] for s in scns),
        traces_validated_against_impl=sum(s['execs'] - s['pruned'] for s in scns),
        samples=[dict(scenario=s['name'], outcome_labels=s['samples'][:6]) for s in scns if s['execs']][:40],
        exhaustive=all(s['complete'] for s in scns if not s.get('known')) and not LOST,
        explanation='states = nodes of the explored decision tree (scheduling and data choices); transitions = visible operations and data choices executed on the real, instrumented code; traces_validated_against_impl = complete executions of the real implementation. The model is the implementation itself: every explored trace is an execution of /repo\'s compiled code under the controlled scheduler.',
        redundant_executions_pruned=sum(s['pruned'] for s in scns),
        plain_memory_accesses_race_checked=sum(s['plain'] for s in scns),
        stale_reads_injected=sum(s['stale'] for s in scns), spurious_failures_injected=sum(s['spur'] for s in scns), early_clock_advances=sum(s['timeadv'] for s in scns),
        scenarios=[dict(name=s['name'], variant=s['variant'], enumeration=modes[s['mode']], preemption_bound=(s['pre'] if s['mode'] == 'P' else None), preemption_bound_completed=(s['bound_done'] if s['mode'] == 'P' else None), stale_read_budget=s['stale_b'], spurious_wakeup_budget=s['spur_b'], clock_advance_budget=s['time_b'], executions=s['execs'], decision_nodes=s['nodes'], transitions=s['steps'], longest_execution=s['maxsteps'], distinct_outcomes=s['outcomes'], completed=s['complete'], known_finding=s.get('known')) for s in scns],
        known_findings=known)
    if LOST: cov['not_explored'] = ['%s does not compile on this tree' % l for l in sorted(set(LOST))]
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, wall_s=round(wall, 2), violations=viol,
        assumptions=['exploration is exhaustive within the listed scenarios and bounds only', 'sequentially consistent interleavings plus at most the listed number of stale (weak-memory) reads per execution; happens-before races are detected for the C++ memory orders actually used', 'library code inside libstdc++/libc that is not header-inlined is executed but its plain memory accesses are not race-checked'])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)

def replay(f):
    t = open(f).read(); pid = re.search(r'^property (\S+)', t, re.M)[1]; vn = re.search(r'^variant (\S+)', t, re.M)[1]
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    bdir = tempfile.mkdtemp(prefix='replay.', dir=os.path.join(HERE, 'build'))
    try:
        v = next(v for v in variants(pid) if v[0] == vn)
        exe = build(bdir, pid, v[1], v[2]); r = subprocess.run([exe, '--replay', f], capture_output=True, text=True); print(r.stdout)
        pcs = [(m[1], int(m[2], 16)) for m in re.finditer(r'^  pc (.*) (0x[0-9a-f]+)$', r.stdout, re.M)]
        for l, fr in symbolize(exe, pcs): print('  %-20s %s' % (l, ' <- '.join(fr)))
        return r.returncode
    finally: shutil.rmtree(bdir, ignore_errors=True)

def selftest():
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    bdir = tempfile.mkdtemp(prefix='selftest.', dir=os.path.join(HERE, 'build'))
    try:
        exe = build(bdir, 'selftest', [os.path.join(HERE, 'selftest/selftest.cpp')]); outp = exe + '.json'
        subprocess.run([exe, '--out', outp]); d = json.load(open(outp)); bad = []; by = {}
        for s in d['scenarios']:
            by[s['name']] = s; want = s['name'].startswith('bad.')
            if bool(s.get('violation')) != want or s.get('internal') or (not want and not s['complete']): bad.append(s['name'])
        for n in list(by):  # partial-order reduction must reach the same outcomes as full enumeration
            if n.endswith('P') and n[:-1] + 'D' in by and by[n]['outcomes'] != by[n[:-1] + 'D']['outcomes']: bad.append(n + ' vs D')
        print('selftest: %d programs, wrong verdicts: %s' % (len(by), bad)); return 1 if bad else 0
    finally: shutil.rmtree(bdir, ignore_errors=True)

if __name__ == '__main__':
    r = main()
    sys.exit(r)

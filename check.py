#!/usr/bin/env python3
"""Deterministic simulation of StoccoDavide/enve: builds the simulator from the working tree of
/repo, runs seeded simulated executions of one property on all cores, confirms and minimises what
fails, and writes the evidence.

  check.py C05 [--tier quick|thorough] [--seconds S] [--workers W] [--seed N]
  check.py --replay replay/C05-....trace      run one replay file again
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('ENVE_REPO', '/repo')
SIM = os.path.join(V, 'sim')
NCPU = os.cpu_count() or 8
ENV = dict(os.environ, LC_ALL='C', ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0:quarantine_size_mb=8:allocator_may_return_null=1:handle_segv=1:handle_abort=1:symbolize=1')
for k in ('ENVE_GROUND_PATH', 'SIM_NO_REEXEC'):
    ENV.pop(k, None)
LIBFLAGS = '-std=c++11 -O1 -g1 -fno-omit-frame-pointer -fsanitize=address -fsanitize-coverage=trace-pc-guard -D_GLIBCXX_ASSERTIONS -Wno-everything'.split()
HARFLAGS = '-std=c++17 -O1 -g1 -D_GLIBCXX_ASSERTIONS -Wno-everything'.split()
# the MATLAB gateways that are simulated, and the name each mexFunction gets
GATEWAYS = {'shell': 'shell', 'mesh': 'mesh', 'flat': 'flat', 'triangleground': 'tg'}
QUICK_SECONDS, THOROUGH_SECONDS = 14.0, 420.0
# properties of the gateways, decided by the 'mex' simulator only
MEX = ('C20',)


class Broken(Exception):
    """the check itself could not do its work"""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, **kw)


# ------------------------------------------------------------------ build
def mirrored_differs():
    """does the copy of the sources that the toolbox ships differ from src?"""
    for f in glob.glob(REPO + '/src/*.cc') + glob.glob(REPO + '/src/*.hh') + glob.glob(REPO + '/src/enve/*'):
        g = os.path.join(REPO, 'toolbox', os.path.relpath(f, REPO))
        if os.path.exists(g) and open(f, 'rb').read() != open(g, 'rb').read():
            return True
    return False


def build(out, variants):
    """variants: 'src' takes src/ plus the geometry of the toolbox, 'toolbox' the toolbox sources alone, 'mex' those and the MATLAB gateways"""
    os.makedirs(out)
    harness = [f for f in sorted(glob.glob(SIM + '/*.cc')) if os.path.basename(f) != 'lib.cc']
    src = sorted(glob.glob(REPO + '/src/*.cc'))
    names = {os.path.basename(f) for f in src}
    tool = sorted(glob.glob(REPO + '/toolbox/src/*.cc'))
    geom = [f for f in tool if os.path.basename(f) not in names]
    sfun = sorted(glob.glob(REPO + '/sfun/src_sfun/*.cc'))
    eigen = ['-I/usr/include/eigen3']
    inc = {'src': ['-I' + REPO + '/src', '-I' + REPO + '/toolbox/src', '-I' + REPO + '/sfun/include_sfun'] + eigen + ['-I' + SIM],
           'toolbox': ['-I' + REPO + '/toolbox/src', '-I' + REPO + '/sfun/include_sfun'] + eigen + ['-I' + SIM]}
    srcs = {'src': sfun + src + [SIM + '/lib.cc'] + geom, 'toolbox': sfun + [f for f in tool if f not in geom] + [SIM + '/lib.cc'] + geom}
    inc['mex'] = ['-I' + SIM + '/mex'] + inc['toolbox'] + ['-I' + REPO + '/toolbox/src_mex']
    srcs['mex'] = srcs['toolbox'] + [SIM + '/mex/mexlib.cc'] + [REPO + '/toolbox/src_mex/mex_%s.cc' % g for g in GATEWAYS]
    entry = {'mex_%s.cc' % g: ['-DmexFunction=sim_mex_' + e] for g, e in GATEWAYS.items()}
    if 'mex' in variants:
        harness += [SIM + '/mex/prop_mex.cc', SIM + '/mex/mexrt.cc']
    pch = os.path.join(out, 'lib.pch')
    err = []

    def one(cmd):
        r = run(cmd)
        if r.returncode:
            err.append(' '.join(cmd) + '\n' + r.stderr.decode(errors='replace')[:3000])

    with cf.ThreadPoolExecutor(NCPU) as ex:
        p = ex.submit(one, ['clang++'] + LIBFLAGS + eigen + ['-x', 'c++-header', SIM + '/pch.hh', '-o', pch])
        hs = [ex.submit(one, ['clang++'] + HARFLAGS + ['-DSIM_CLASSES="%s/toolbox/lib"' % REPO, '-I' + SIM, '-I' + SIM + '/mex', '-c', f, '-o', os.path.join(out, ('hmex_' if SIM + '/mex/' in f else 'h_') + os.path.basename(f) + '.o')]) for f in sorted(harness, key=os.path.getsize, reverse=True)]
        p.result()
        if err:
            raise Broken('build failed: ' + err[0])
        jobs, objs = [], {}
        for v in variants:
            objs[v] = []
            for i, f in enumerate(sorted(srcs[v], key=lambda f: (os.path.basename(f) not in ('lib.cc', 'intersection.cc', 'shell.cc', 'mesh.cc'), f))):
                o = os.path.join(out, '%s_%03d_%s.o' % (v, i, os.path.basename(f)))
                objs[v].append(o)
                jobs.append(ex.submit(one, ['clang++'] + LIBFLAGS + inc[v] + entry.get(os.path.basename(f), []) + ['-include-pch', pch, '-c', f, '-o', o]))
        for j in jobs + hs:
            j.result()
    if err:
        raise Broken('build failed: ' + err[0])
    bins = {}
    for v in variants:
        b = os.path.join(out, 'sim-' + v)
        r = run(['clang++', '-fsanitize=address'] + sorted(objs[v]) + sorted(glob.glob(out + '/h_*.o')) + (sorted(glob.glob(out + '/hmex_*.o')) if v == 'mex' else []) + ['-o', b, '-ldl', '-lpthread'])
        if r.returncode:
            raise Broken('link failed: ' + r.stderr.decode(errors='replace')[:3000])
        bins[v] = b
    return bins


# ------------------------------------------------------------------ single executions
def crash_class(prop, rc, err):
    m = re.search(r'SIM-HANG:? ?([^\n]*)', err)
    if m:
        return prop + '/hang', 'the call does not come to an end (%s)' % (m.group(1) or 'step limit')
    m = re.search(r'AddressSanitizer:? (?:attempting )?([A-Za-z-]+)', err)
    where = re.search(r'#\d+ 0x[0-9a-f]+ in (\S+)[^\n]* (?:%s|/repo)/(\S+)' % re.escape(REPO), err)
    at = (' in %s (%s)' % (where.group(1), where.group(2))) if where else ''
    t = re.search(r"terminate called[^\n]*(?:\n\s*what\(\):[^\n]*)?", err)
    a = re.search(r"[^\n]*Assertion '?[^\n]*", err)
    if a:
        return prop + '/assertion', 'a run-time check of the C++ library fails: ' + a.group(0).strip()[-300:] + at
    if t:
        return prop + '/terminate', t.group(0).replace('\n', ' ') + at
    if m and m.group(1) not in ('ABRT', 'SEGV'):
        return prop + '/memory-' + m.group(1), 'memory error: ' + m.group(1) + at
    if m:
        return prop + '/crash', 'crash: ' + m.group(1) + at
    return prop + '/crash', 'the process died (status %d)' % rc


class Sim:
    def __init__(self, binary, prop, tmp, thorough):
        self.bin, self.prop, self.tmp, self.thorough, self.n = binary, prop, tmp, thorough, 0

    def scratch(self, name):
        d = os.path.join(self.tmp, name)
        os.makedirs(d, exist_ok=True)
        return d

    def gen(self, base, idx):
        r = run([self.bin, 'gen', '--prop', self.prop, '--base', str(base), '--idx', str(idx), '--thorough', '1' if self.thorough else '0'])
        if r.returncode:
            raise Broken('gen failed: ' + r.stderr.decode(errors='replace')[:500])
        return r.stdout.decode()

    def execute(self, text, slot=0, timeout=120):
        """-> (class or '', message, hash, stderr)"""
        d = self.scratch('x%02d' % slot)
        m = re.search(r'^rerun base=(\d+) worker=(\d+) workers=(\d+) count=(\d+) thorough=(\d)$', text, re.M)
        if m:  # a whole process history, run for run
            base, w, ws, n, th = m.groups()
            cmd = [self.bin, 'run', '--prop', self.prop, '--base', base, '--worker', w, '--workers', ws, '--seconds', '0', '--max', n, '--scratch', d, '--progress', os.path.join(self.tmp, 'rerun%02d' % slot), '--thorough', th]
            return self.finish(cmd, max(timeout, 900))
        f = os.path.join(self.tmp, 'x%02d.trace' % slot)
        with open(f, 'w') as h:
            h.write(text)
        return self.finish([self.bin, 'exec', '--prop', self.prop, '--trace', f, '--scratch', d], timeout)

    def finish(self, cmd, timeout):
        try:
            r = run(cmd, timeout=timeout)
        except subprocess.TimeoutExpired:
            return self.prop + '/hang', 'the run does not come to an end', '', ''
        err = r.stderr.decode(errors='replace')
        if r.returncode == 98:
            raise Broken('simulator error: ' + err[:500] + r.stdout.decode(errors='replace')[:200])
        if r.returncode:
            c, m = crash_class(self.prop, r.returncode, err)
            return c, m, '', err
        j = json.loads(r.stdout.decode())
        return (j['cls'] if j['viol'] else ''), j['msg'], j['hash'], err


# ------------------------------------------------------------------ minimisation
def ddmin(items, fails, deadline, pool):
    """smallest sublist found for which fails(sublist, slot) holds"""
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, len(items) // n)
        cands = [items[:i] + items[i + size:] for i in range(0, len(items), size)]
        hit = None
        for b in range(0, len(cands), NCPU):
            if time.time() > deadline:
                return items
            res = list(pool.map(lambda p: fails(p[1], p[0]), list(enumerate(cands[b:b + NCPU]))))
            for c, ok in zip(cands[b:b + NCPU], res):
                if ok:
                    hit = c
                    break
            if hit is not None:
                break
        if hit is not None:
            items = hit
            n = max(2, n - 1)
        elif size == 1:
            return items
        else:
            n = min(len(items), n * 2)
    return items


def simpler(val):
    out = []
    if re.fullmatch(r'-?\d+', val):
        v = int(val)
        for c in (0, 1, 2, v // 2, v - 1 if v > 0 else v + 1):
            if abs(c) < abs(v) and str(c) not in out:
                out.append(str(c))
    else:
        try:
            v = float.fromhex(val) if 'x' in val else float(val)
        except ValueError:
            return out
        for c in (0.0, round(v), round(v, 1), round(v, 2), round(v, 4)):
            s = repr(float(c))
            if s.endswith('.0'):
                s = s[:-2]
            if s != val and len(s) < len(val) and s not in out:
                out.append(s)
    return out


def minimise(sim, text, cls, seconds, pool):
    if text.startswith('rerun '):
        return text
    deadline = time.time() + seconds
    head = ''
    if '\n===\n' in text:  # only the last part is what fails; the parts before it set the process up
        i = text.rindex('\n===\n') + 5
        head, text = text[:i], text[i:]
        parts = [p for p in head.split('\n===\n') if p.strip()]
        parts = ddmin(parts, lambda p, s: sim.execute(''.join(q + '\n===\n' for q in p) + text, s)[0] == cls, time.time() + seconds / 3, pool)
        head = ''.join(q + '\n===\n' for q in parts)
    lines = [l for l in text.split('\n') if l and not l.startswith('#')]
    fails = lambda ls, slot=0: sim.execute(head + '\n'.join(ls) + '\n', slot)[0] == cls
    keep = [l for l in lines if l.startswith('sched ')]
    lines = keep + ddmin([l for l in lines if l not in keep], lambda ls, slot=0: fails(keep + ls, slot), time.time() + seconds * 0.5, pool)
    if keep:  # the schedule as an explicit list of preemptions
        k = 0
        probe = lines[:k] + [lines[k] + ' dump=1'] + lines[k + 1:]
        c, m, h, err = sim.execute(head + '\n'.join(probe) + '\n')
        s = re.search(r'^SCRIPT (\S*)$', err, re.M)
        if s:
            script = [x for x in s.group(1).split(',') if x]
            mk = lambda sc: lines[:k] + ['sched script=' + ','.join(sc)] + lines[k + 1:]
            if fails(mk(script)):
                script = ddmin(script, lambda sc, slot=0: fails(mk(sc), slot), time.time() + seconds * 0.35, pool)
                lines = mk(script)
    # simpler values
    changed = True
    while changed and time.time() < deadline:
        changed = False
        for i, l in enumerate(lines):
            words = l.split(' ')
            for w in range(1, len(words)):
                if time.time() > deadline:
                    break
                key, eq, val = words[w].partition('=')
                if not eq or key in ('seed', 'script'):
                    continue
                cand = [lines[:i] + [' '.join(words[:w] + [key + '=' + c] + words[w + 1:])] + lines[i + 1:] for c in simpler(val)]
                res = list(pool.map(lambda p: fails(p[1], p[0]), list(enumerate(cand))))
                for c, ok in zip(cand, res):
                    if ok:
                        lines = c
                        words = lines[i].split(' ')
                        changed = True
                        break
    return head + '\n'.join(lines) + '\n'


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    """lines `finding: property=<id> replay=<file> class=<cls> <what fails>` (open defects); `fixed:` lines suppress nothing"""
    out = []
    f = os.path.join(V, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) replay=(\S+) class=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                out.append({'replay': m.group(2), 'cls': m.group(3), 'what': m.group(4)})
    return out


# ------------------------------------------------------------------ the search
def search(sim, base, seconds, workers):
    """all workers; the first violation ends the search. -> (worker results, violation or None)"""
    procs = []
    for w in range(workers):
        pg = os.path.join(sim.tmp, 'progress%02d' % w)
        out = open(os.path.join(sim.tmp, 'out%02d' % w), 'wb')
        er = open(os.path.join(sim.tmp, 'err%02d' % w), 'wb')
        cmd = [sim.bin, 'run', '--prop', sim.prop, '--base', str(base), '--worker', str(w), '--workers', str(workers), '--seconds', str(seconds), '--scratch', sim.scratch('w%02d' % w), '--progress', pg, '--thorough', '1' if sim.thorough else '0']
        procs.append((w, subprocess.Popen(cmd, stdout=out, stderr=er, env=ENV, start_new_session=True), pg))
        out.close(), er.close()
    end = time.time() + seconds + 60
    live, first = list(procs), None
    while live and first is None:
        for t in list(live):
            w, p, pg = t
            rc = p.poll()
            if rc is None:
                if time.time() > end:
                    first = (w, None)
                    break
                continue
            live.remove(t)
            if rc != 0 or read_progress(pg)[2]:
                first = (w, rc)
                break
        else:
            time.sleep(0.02)
    for t in live:
        try:
            os.killpg(t[1].pid, signal.SIGKILL)
        except OSError:
            pass
        t[1].wait()
    results = []
    for w, p, pg in procs:
        try:
            results.append(json.loads(open(os.path.join(sim.tmp, 'out%02d' % w)).read()))
        except ValueError:
            pass
    if first is None:
        return results, None
    w, rc = first
    err = open(os.path.join(sim.tmp, 'err%02d' % w), errors='replace').read()
    idx, k, _ = read_progress(os.path.join(sim.tmp, 'progress%02d' % w))
    if rc == 98:
        raise Broken('simulator error: ' + err[:1000])
    if rc == 0:
        j = json.loads(open(os.path.join(sim.tmp, 'out%02d' % w)).read())
        return results, {'idx': j['idx'], 'k': k, 'w': w, 'cls': j['cls'], 'msg': j['msg'], 'hash': j['hash']}
    if rc is None:
        return results, {'idx': idx, 'k': k, 'w': w, 'cls': sim.prop + '/hang', 'msg': 'the run does not come to an end', 'hash': ''}
    c, m = crash_class(sim.prop, rc, err)
    return results, {'idx': idx, 'k': k, 'w': w, 'cls': c, 'msg': m, 'hash': ''}


def read_progress(pg):
    try:
        return struct.unpack('QQQ', open(pg, 'rb').read()[:24])
    except (OSError, struct.error):
        return (0, 0, 0)


def reproduce(sim, base, v, workers):
    """a trace that fails in fresh processes, the same way every time"""
    text = sim.gen(base, v['idx'])
    for attempt in (0, 1):
        a, b = sim.execute(text), sim.execute(text, 1)
        if a[0] and a[0] == b[0] and a[2] == b[2]:
            return text, a, attempt
        if attempt == 0:  # what ran before in that process matters: bring it along
            n = min(v['k'], 400)
            parts = [sim.gen(base, v['w'] + (v['k'] - n + i) * workers) for i in range(n)]
            text = ''.join(p + '===\n' for p in parts) + text
    # what the library keeps between calls depends on every run before, down to the addresses: run them all again
    text = 'rerun base=%d worker=%d workers=%d count=%d thorough=%d\n' % (base, v['w'], workers, v['k'] + 1, sim.thorough)
    with cf.ThreadPoolExecutor(2) as ex:
        a, b = ex.map(lambda s: sim.execute(text, s), (0, 1))
    if a[0] and a[0] == b[0] and a[2] == b[2]:
        return text, a, 2
    raise Broken('run %d of base %d reported %s (%s) but does not do so again: %r' % (v['idx'], base, v['cls'], v['msg'], a[:3]))


# ------------------------------------------------------------------ evidence
REAL = 'every source file of enve (src/*.cc), of the acme geometry it is built on (toolbox/src/*.cc) and of the S-function interface (sfun/src_sfun/*.cc), compiled unmodified from the working tree with AddressSanitizer, library assertions and edge coverage'
STUB = {
    'memory': 'operator new/delete: the simulator decides the contents of fresh memory, which allocation fails, and counts live blocks',
    'files': 'open/read/write/close of files below the scratch directory: short transfers, EINTR, EIO, lost tails, ENOSPC, failing open and close come from the trace; the bytes themselves live in a real scratch directory',
    'threads': 'thread scheduling, mutexes, once and static-initialisation guards: one thread runs at a time, and the seeded scheduler decides at every basic block and allocation who is next',
    'stack': 'dead stack below library calls is overwritten with seeded bytes',
    'environment': 'ENVE_GROUND_PATH is set by the trace',
    'matlab': 'the MATLAB runtime: arrays, mexErrMsgTxt (unwinds as an exception), mexLock, mexCallMATLAB and the class layer are a simulated MEX API with exact array bounds and handle counting; the point and plane gateways are not run',
    'streams': 'the stream buffer reports are printed to: takes any number of bytes, then refuses or throws',
    'wheel': 'the vehicle that moves the wheel and the Simulink host are simulated by the trace',
}
USES = {'C04': ['memory', 'files', 'threads', 'wheel'], 'C01': ['memory', 'files'], 'C02': ['memory', 'files'], 'C15': ['memory', 'files'], 'C12': ['memory', 'files', 'environment', 'wheel'], 'C13': ['memory', 'files', 'environment', 'wheel'], 'C14': ['memory', 'files', 'environment', 'wheel'], 'C17': ['memory', 'stack', 'files', 'wheel'], 'C03': ['memory'], 'C18': ['memory'], 'C19': ['memory'], 'C20': ['memory', 'files', 'matlab', 'wheel'], 'C21': ['memory', 'wheel'], 'C22': ['memory', 'files', 'streams', 'wheel'], 'C23': ['memory', 'stack']}


def write_evidence(prop, tier, seed, base, workers, results, wall, search_wall, variants, viol, findings, build_s):
    stats = {}
    for r in results:
        for k, n in r['stats'].items():
            stats[k] = stats.get(k, 0) + n
    s = lambda k: sum(r[k] for r in results)
    sigs = set()
    for r in results:
        sigs.update(r['sigs'])
    runs = s('runs')
    real = REAL if prop not in MEX else 'mex_shell, mex_mesh, mex_flat and mex_triangleground (toolbox/src_mex) and all library sources below them (toolbox/src), compiled unmodified from the working tree with AddressSanitizer, library assertions and edge coverage'
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': len(sigs),
        'rule': (results[0]['rule'] if results else '') + '. Distinct: non-trivial runs whose edge-coverage profile (set of executed edges with bucketed counts) differs from all others of this check.',
        'samples': [x for r in results for x in r['samples']][:2],
        'nontrivial_runs': s('nontrivial'),
        'oracle_comparisons': s('oracle_checks'),
        'operations_simulated': s('ops'),
        'seeds': {'base': base, 'run_seed': 'mix(base, property, run index)', 'first_index': 0, 'workers': workers, 'indices_per_worker': [r['runs'] for r in results]},
        'runs_per_hour': round(runs / max(search_wall, 1e-3) * 3600),
        'simulated_seconds': round(s('simtime'), 3),
        'simulated_steps_basic_blocks': s('steps'),
        'faults_injected': {k: v for k, v in sorted(stats.items()) if k.startswith('fault_') or k.startswith('oom_')},
        'conditions_hit': {k: v for k, v in sorted(stats.items()) if not (k.startswith('fault_') or k.startswith('oom_'))},
        'library_edges_reached': max([r['edges_seen'] for r in results] or [0]),
        'library_edges_total': max([r['edges'] for r in results] or [0]),
        'determinism': {'runs_executed_twice_in_process': s('replays'), 'that_differed': s('replay_mismatch')},
        'components_real': [real], 'components_simulated': [STUB[k] for k in USES.get(prop, ['memory', 'files', 'wheel'])],
        'source_variants': variants, 'build_seconds': round(build_s, 1), 'search_seconds': round(search_wall, 1),
        'known_findings': [f['what'] for f in findings],
    }
    if prop == 'C04':
        cov['distinct_interleavings'] = {'count': s('distinct_outcomes'), 'measure': 'distinct hashes of the whole schedule (yield number, thread chosen) and of every result, summed over workers with disjoint seeds'}
    e = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
         'assumptions': ['clang -O1 with AddressSanitizer instead of the gcc -O2 build that ships; x86-64 Linux, glibc, Eigen as installed',
                         'the simulator samples: it shows that no explored run breaks the property'],
         'wall_s': round(wall, 2), 'violations': 1 if viol else 0}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f:
        json.dump(e, f, indent=1, sort_keys=True)
        f.write('\n')


def self_test(tmp, seed):
    bins = build(os.path.join(tmp, 'build'), ['src', 'toolbox', 'mex'])
    props = [l.split('\t')[0] for l in run([bins['mex'], 'list']).stdout.decode().splitlines()]
    want = [c['property'] for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']]
    if sorted(props) != sorted(want):
        raise Broken('the simulator decides %s, the manifest claims %s' % (props, want))

    def one(p):
        got = []
        for v, k in (('mex', 0), ('mex', 1)) if p in MEX else (('src', 0), ('src', 1), ('toolbox', 2)):
            sim = Sim(bins[v], p, os.path.join(tmp, p + str(k)), False)
            os.makedirs(sim.tmp, exist_ok=True)
            got.append([sim.execute(sim.gen(seed, i), k)[::2] for i in range(6)])
        return p, got[0] == got[1] and (p in MEX or mirrored_differs() or got[0] == got[2])
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for p, same in ex.map(one, props):
            if not same:
                raise Broken(p + ': two executions of one trace differ')
    print('self-test: %d properties, built, deterministic across processes' % len(props))
    return 0


def replay_head(text):
    return dict(re.findall(r'^# (\w+): (.*)$', text, re.M))


# ------------------------------------------------------------------ main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seconds', type=float)
    ap.add_argument('--workers', type=int, default=NCPU)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--self-test', action='store_true', help='build everything and execute a few runs of every property twice, at two worker counts')
    ap.add_argument('--bin', help='use this simulator instead of building one (development only)')
    a = ap.parse_args()
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='enve-sim-', dir='/tmp')
    try:
        return go(a, tmp, t0)
    except Broken as e:
        print('CHECK-ERROR ' + str(e))
        return 3
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def go(a, tmp, t0):
    replay = None
    if a.replay:
        replay = open(a.replay).read()
        h = replay_head(replay)
        a.prop = h.get('property', a.prop)
    if a.self_test:
        return self_test(tmp, a.seed)
    if a.prop is None:
        raise Broken('which property?')
    thorough = a.tier == 'thorough'
    variants = ['mex'] if a.prop in MEX else ['src'] + (['toolbox'] if mirrored_differs() else [])
    if replay and replay_head(replay).get('variant') in variants:
        variants = [replay_head(replay)['variant']]
    if a.bin:
        variants = variants[:1]
    bins = {variants[0]: a.bin} if a.bin else build(os.path.join(tmp, 'build'), variants)
    build_s = time.time() - t0

    if replay:
        h = replay_head(replay)
        for v in variants:
            c, m, hs, err = Sim(bins[v], a.prop, tmp, thorough).execute(replay)
            if c:
                print('%s: %s' % (c, m))
                if h.get('hash'):
                    print('outcome %s, recorded %s%s' % (hs or c, h['hash'], '' if (hs or c) == h['hash'] else ' (differs: the code has changed)'))
                print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
                return 1
        print('the replay holds: %s' % a.replay)
        return 0

    seconds = a.seconds or (THOROUGH_SECONDS if thorough else QUICK_SECONDS)
    base = a.seed
    findings = []
    viol = None
    results, search_wall = [], 0.0
    with cf.ThreadPoolExecutor(NCPU) as pool:
        for v in variants:
            sim = Sim(bins[v], a.prop, tmp, thorough)
            if v == variants[0]:
                for f in known_findings(a.prop):
                    c, m, hs, err = sim.execute(open(os.path.join(V, f['replay'])).read())
                    if c == f['cls']:
                        print('KNOWN-FINDING: property=%s %s' % (a.prop, f['what']))
                        findings.append(f)
            t1 = time.time()
            res, bad = search(sim, base, seconds if v == variants[0] else seconds / 2, a.workers)
            search_wall += time.time() - t1
            results += res
            if bad:
                text, first, seq = reproduce(sim, base, bad, a.workers)
                small = minimise(sim, text, first[0], 180 if thorough else 60, pool)
                x, y = sim.execute(small), sim.execute(small, 1)
                if not (x[0] == first[0] and x[0] == y[0] and x[2] == y[2]):
                    small, x = text, first
                name = '%s-%s.trace' % (a.prop, hashlib.sha1(small.encode()).hexdigest()[:10])
                os.makedirs(os.path.join(V, 'replay'), exist_ok=True)
                path = os.path.join(V, 'replay', name)
                with open(path, 'w') as f:
                    f.write('# property: %s\n# class: %s\n# message: %s\n# base: %d\n# index: %d\n# hash: %s\n# variant: %s\n' % (a.prop, x[0], x[1].replace('\n', ' '), base, bad['idx'], x[2] or x[0], v))
                    f.write('# found after %.1f s; original %d operations, minimised %d\n' % (search_wall, text.count('\n'), small.count('\n')))
                    f.write(small)
                viol = (path, x)
                break
    bad_det = sum(r['replay_mismatch'] for r in results)
    write_evidence(a.prop, a.tier if a.tier in ('quick', 'thorough') else 'quick', a.seed, base, a.workers, results, time.time() - t0, search_wall, variants, viol, findings, build_s)
    if viol:
        print('%s: %s' % (viol[1][0], viol[1][1]))
        print(open(viol[0]).read()[:4000])
        print('VIOLATION property=%s replay=%s' % (a.prop, viol[0]))
        return 1
    n = sum(r['runs'] for r in results)
    if bad_det:
        raise Broken('%d runs differed when executed twice: the simulation is not deterministic' % bad_det)
    if len(results) != a.workers * len(variants) or n == 0:
        raise Broken('some workers gave no result')
    print('%s holds on %d simulated runs (%d oracle comparisons) in %.1f s, %.1f s in all' % (a.prop, n, sum(r['oracle_checks'] for r in results), search_wall, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())

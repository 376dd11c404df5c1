#!/usr/bin/env python3
"""Decides one property: compiles the sources of /repo and the property's
harnesses to LLVM IR, runs the symbolic executor, replays counterexamples and
witness paths against a native build of the same sources, writes evidence.

  check.py ID [quick|thorough] [--only HARNESS] [--keep] [--repo DIR]
"""
import concurrent.futures as cf
import threading
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import props

B = os.path.join(VERIF, 'build')
LLVM = '/usr/lib/llvm-18/bin'
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
BASE = ['-std=c++17', '-fno-access-control', '-w', '-D_GLIBCXX_ASSERTIONS', '-fno-exceptions']
IRF = BASE + ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-threadsafe-statics',
              '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-emit-llvm', '-c']
NATF = BASE + ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer', '-DVERIF_NATIVE=1',
               '-ffunction-sections', '-c']
SCALE = [
    ('reverb/cc/rate_limiter.h', r"(kEventHistoryBufferSize\s*=\s*)[0-9']+", r'\g<1>8'),
    ('reverb/cc/chunk_store.cc', r"\b1'?0{3}'?0{3}'?0\b|\b10000000\b", '16'),
    ('reverb/cc/chunker.h', r'(kNumItemsToScore\s*=\s*)\d+', r'\g<1>2'),
    ('reverb/cc/reverb_service_impl.cc', r'(kMaxSampleResponseSizeBytes\s*=\s*)[^;]+;', r'\g<1>150;'),
    ('reverb/cc/reverb_service_async_impl.cc', r'(kMaxSampleResponseSizeBytes\s*=\s*)[^;]+;', r'\g<1>150;'),
    ('reverb/cc/selectors/prioritized.cc', r'pow\(2, 17\)', 'pow(2, 2)'),
]
SKIP = re.compile(r'(_test\.cc$|/ops/|/testing/|platform/default/(net|logging)\.cc$)')


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


class Build:
    def __init__(self, repo, work):
        self.repo, self.work = repo, work
        self.gen = os.path.join(work, 'gen')
        r = sh([sys.executable, os.path.join(VERIF, 'tools/pbgen.py'), self.gen, repo,
                os.path.join(VERIF, 'shim/proto'), '--', 'reverb/cc/schema.proto',
                'reverb/cc/reverb_service.proto', 'reverb/cc/checkpointing/checkpoint.proto'])
        if r.returncode:
            raise SystemExit('pbgen failed: ' + r.stderr)
        self.inc = ['-I' + os.path.join(VERIF, p) for p in ('rt', 'shim/override', 'shim')] + [
            '-I' + self.gen, '-I' + os.path.join(B, 'fwd'), '-I' + repo, '-I' + os.path.join(VERIF, 'harness')]
        # Model bounds: some capacities are scaled down in a copy.
        self.scaled = {}
        for f, pat, rep in SCALE:
            p = os.path.join(repo, f)
            if not os.path.exists(p):
                continue
            src = open(p).read()
            t = re.sub(pat, rep, src)
            if t == src:
                continue
            q = os.path.join(work, 'scaled', f)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, 'w').write('#line 1 "%s"\n' % p + t)
            self.scaled[f] = q
        if self.scaled:
            self.inc.insert(0, '-I' + os.path.join(work, 'scaled'))
        self.srcs = sorted(os.path.relpath(p, repo) for p in glob.glob(repo + '/reverb/cc/**/*.cc', recursive=True))
        self.srcs = [s for s in self.srcs if not SKIP.search('/' + s)]
        self.failed = {}

    def pch(self, kind, flags):
        """Precompiles the model headers (only to save time)."""
        h = os.path.join(self.work, kind, 'pch.h')
        os.makedirs(os.path.dirname(h), exist_ok=True)
        with open(h, 'w') as f:
            for x in ('common.h', 'vshim/log.h', 'reverb/cc/schema.pb.h', 'reverb/cc/reverb_service.pb.h'):
                f.write('#include "%s"\n' % x)
        r = sh(['clang++'] + flags + ['-fpch-instantiate-templates', '-x', 'c++-header'] + self.inc + [h, '-o', h + '.pch'])
        return ['-include-pch', h + '.pch'] if r.returncode == 0 else []

    def cc(self, flags, src, out, defs=()):
        if os.path.exists(out):
            return True
        os.makedirs(os.path.dirname(out), exist_ok=True)
        r = sh(['clang++'] + flags + self.inc + list(defs) + [src, '-o', out + '.tmp'], cwd=self.repo)
        if r.returncode:
            self.failed[src] = r.stderr
            return False
        os.rename(out + '.tmp', out)
        return True

    def objs(self, kind, harnesses, only=None):
        """Compiles the sources, the runtime and the harnesses; returns
        (common objects, {harness key: object})."""
        flags = IRF if kind == 'ir' else NATF
        rflags, flags = flags, flags + self.pch(kind, flags)
        ext = '.bc' if kind == 'ir' else '.o'
        d = os.path.join(self.work, kind)
        rt = ['vsched.cc', 'models.cc' if kind == 'ir' else 'native.cc']
        jobs, common, per = [], [], {}
        for key, src, defs in harnesses:
            o = os.path.join(d, 'h', key + ext)
            per[key] = o
            jobs.append((flags, os.path.join(VERIF, 'harness', src), o, defs))
        big = {'reverb/cc/table.cc': 0, 'reverb/cc/reverb_service_async_impl.cc': 0}
        for s in sorted(self.srcs, key=lambda s: big.get(s, 1)):
            o = os.path.join(d, s + ext)
            if only is not None and s not in only:
                continue
            common.append(o)
            jobs.append((flags, self.scaled.get(s) or os.path.join(self.repo, s), o, ()))
        for s in rt + ['../harness/common.cc']:
            o = os.path.join(d, 'rt', os.path.basename(s) + ext)
            common.append(o)
            jobs.append((rflags, os.path.join(VERIF, 'rt', s), o, ()))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda j: self.cc(*j), jobs))
        return [o for o in common if os.path.exists(o)], per


def needed(b, harness_objs, common):
    """The sources whose definitions the harnesses use, transitively."""
    def nm(o):
        u, d = set(), set()
        for line in sh([LLVM + '/llvm-nm', '-P', o]).stdout.splitlines():
            f = line.split()
            if len(f) >= 2:
                (u if f[1] == 'U' else d).add(f[0])
        return o, u, d
    with cf.ThreadPoolExecutor(JOBS) as ex:
        info = {o: (u, d) for o, u, d in ex.map(nm, list(harness_objs) + common)}
    defs = {}
    for o in common:
        for x in info[o][1]:
            defs.setdefault(x, []).append(o)
    seen, todo = set(), list(harness_objs)
    while todo:
        o = todo.pop()
        if o in seen:
            continue
        seen.add(o)
        for x in info[o][0]:
            todo += [p for p in defs.get(x, []) if p not in seen]
    d = os.path.join(b.work, 'ir') + '/'
    return {o[len(d):-3] for o in seen if o.startswith(d)}


def link_ir(b, common, hobj, out):
    tmp = out + '.all.bc'
    r = sh([LLVM + '/llvm-link', '-o', tmp, hobj] + common)
    if r.returncode:
        return r.stderr
    r = sh([LLVM + '/opt', '-passes=internalize,globaldce', '-internalize-public-api-list=verif_main', tmp, '-o', out])
    if r.returncode:
        return r.stderr
    os.unlink(tmp)
    return None


def run_native(exe, inputs, path):
    with open(path, 'w') as f:
        for k, w, v, n in inputs:
            f.write('%d %d %s %s\n' % (k, w, v, n.replace(' ', '_')))
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0')
    try:
        r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env)
    except subprocess.TimeoutExpired:
        return 'timeout', 'native replay did not finish in 60 s'
    out = r.stdout.decode(errors='replace')
    err = r.stderr.decode(errors='replace')
    for line in out.splitlines():
        if line.startswith('NATIVE-VIOLATION'):
            return 'violation', line[17:]
        if line.startswith('NATIVE-KNOWN'):
            return 'known', line[13:]
        if line.startswith('NATIVE-OK'):
            return 'ok', ''
    if r.returncode == 3:
        return 'assume', ''
    if r.returncode == 4:
        return 'diverged', err[-300:]
    if 'error while loading' in err:
        return 'broken', err[-300:]
    m = re.search(r'(ERROR: AddressSanitizer[^\n]*|[^\n]*Assertion [^\n]*)', err)
    return 'violation', (m.group(1) if m else 'process died with status %d: %s' % (r.returncode, err[-200:]))


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    opt = {a.split('=')[0]: a.split('=')[-1] for a in sys.argv[1:] if a.startswith('--')}
    repo = os.path.abspath(opt.get('--repo', '/repo'))
    t0 = time.time()
    P = props.PROPS[pid]
    hs = []
    for h in P['harnesses']:
        cfg = dict(h)
        cfg.update(h.get(tier, {}))
        if cfg.get('skip'):
            continue
        cfg['key'] = h.get('key') or os.path.splitext(h['src'])[0]
        if '--only' in opt and opt['--only'] != cfg['key']:
            continue
        hs.append(cfg)
    os.makedirs(B, exist_ok=True)
    global SETUP
    r = sh([sys.executable, os.path.join(VERIF, 'tools/mkfwd.py'), os.path.join(B, 'fwd')])
    if r.returncode:
        print('mkfwd failed', r.stderr[-2000:])
        return 2
    SETUP = subprocess.Popen(['make', '-s', '-C', os.path.join(VERIF, 'engine'), 'OUT=' + B], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    work = tempfile.mkdtemp(prefix='run-%s-' % pid, dir=B)
    try:
        return decide(pid, tier, P, hs, repo, work, opt, t0)
    finally:
        if '--keep' not in opt:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('kept', work)


def decide(pid, tier, P, hs, repo, work, opt, t0):
    b = Build(repo, work)
    hlist = [(h['key'], h['src'], ['-D' + d for d in h.get('defs', [])] + ['-DTIER_' + tier.upper()]) for h in hs]
    common, per = b.objs('ir', hlist)
    tb = time.time() - t0
    broken = 0
    if SETUP.wait():
        print('error: the engine does not build')
        return 2
    for s, e in b.failed.items():
        print('note: %s does not compile against the models: %s' % (s, e.strip().splitlines()[0][:200] if e.strip() else ''))
    results = []
    viols, known = [], []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        links = {h['key']: ex.submit(link_ir, b, common, per[h['key']], os.path.join(work, h['key'] + '.bc'))
                 for h in hs if os.path.exists(per[h['key']])}
        links = {k: f.result() for k, f in links.items()}
    if os.environ.get('VERIF_STOP_AFTER_IR'):
        d = os.environ['VERIF_STOP_AFTER_IR']
        os.makedirs(d, exist_ok=True)
        for h in hs:
            print(h['key'], links.get(h['key'], '; '.join(l[:300] for e in b.failed.values() for l in e.splitlines() if 'error:' in l)[:3000]))
            if links.get(h['key'], 1) is None:
                shutil.copy(os.path.join(work, h['key'] + '.bc'), d)
        return 0
    for h in hs:
        k = h['key']
        bc = os.path.join(work, k + '.bc')
        if links.get(k, 'harness does not compile') is not None:
            err = links.get(k) or b.failed.get(os.path.join(VERIF, 'harness', h['src']), '')
            print('error: harness %s cannot be encoded: %s' % (k, err[-1500:]))
            broken += 1
            continue
        out = os.path.join(work, k + '.jsonl')
        cmd = [os.path.join(B, 'symex'), bc, '-o', out, '-j', str(JOBS), '-t', str(h.get('time', 240)),
               '-s', str(h.get('steps', 3000000)), '-m', '6', '-w', '6', '-z', str(h.get('solver_ms', 20000))]
        r = sh(cmd)
        recs = []
        if os.path.exists(out):
            for line in open(out, errors='replace'):
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
        summ = [x for x in recs if x['t'] == 'summary']
        if not summ:
            print('error: symex failed on %s: %s' % (k, (r.stderr or r.stdout)[-1500:]))
            broken += 1
            continue
        res = dict(h=h, key=k, s=summ[-1], recs=recs)
        results.append(res)
        s = summ[-1]
        print('%s %s: paths=%d complete=%s queries=%d sat=%d unsat=%d solver=%.1fs violations=%d known=%d unsupported=%d truncated=%d wall=%.1fs' % (
            pid, k, s['paths'], s['complete'], s['queries'], s['sat'], s['unsat'], s['solver_s'], s['violations'], s['known'], s['unsupported'], s['truncated'], s['wall_s']))
        for x in recs:
            if x['t'] == 'violation':
                viols.append((k, x))
            elif x['t'] == 'known':
                known.append((k, x))
            elif x['t'] == 'unsupported':
                print('  unsupported: %s %s' % (x.get('msg'), x.get('where', '')))
        exp = set(re.findall(r'verif_reach\("([^"]+)"\)', open(os.path.join(VERIF, 'harness', h['src'])).read()))
        if 'reach' in h:
            exp = set(h['reach'])
        exp = {e for e in exp if not any(e.startswith(p) for p in h.get('unreached', []))}
        got = {x['msg'] for x in recs if x['t'] == 'reach'}
        res['reach'] = sorted(got)
        missing = exp - got
        if missing and s['complete'] and not h.get('reach_any'):
            print('error: %s is vacuous: never reached %s' % (k, sorted(missing)))
            broken += 1
        if s['paths'] == 0 and not s['violations']:
            print('error: %s completed no path' % k)
            broken += 1

    kf = {}
    kp = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(kp):
        for e in json.load(open(kp))['findings']:
            if e.get('status') == 'known':
                kf[e['id']] = e
    # Native build of the same sources: replays.
    confirmed, unconfirmed, validated, knowns = [], [], 0, {}
    witnesses = []
    nw = 2 if tier == 'quick' else 8
    for res in results:
        ws = [x for x in res['recs'] if x['t'] == 'path']
        witnesses += [(res['key'], x) for x in ws[-nw:]]
    if viols or known or (witnesses and '--nonative' not in opt):
        used = {k for k, _ in viols + known + witnesses}
        only = needed(b, [per[k] for k in used], common)
        nfail = set(b.failed)
        ncommon, nper = b.objs('nat', [x for x in hlist if x[0] in used], only)
        for s in set(b.failed) - nfail:
            print('error: native build of %s: %s' % (s, b.failed[s][-600:]))
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for f in glob.glob(os.path.join(rdir, pid + '-*')):
            os.unlink(f)
        exes = {}
        lock = threading.Lock()

        def link_native(k):
            exe = os.path.join(work, k + '.exe')
            base = ['clang++', '-fsanitize=address', '-Wl,--gc-sections', '-o', exe, nper[k]]
            r = sh(base + ncommon + ['-lpthread'])
            if r.returncode:
                with lock:
                    allc, _ = b.objs('nat', [])
                r = sh(base + allc + ['-Wl,--unresolved-symbols=ignore-all', '-lpthread'])
            if r.returncode:
                print('error: native link of %s failed: %s' % (k, r.stderr[-800:]))
                return None
            return exe
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for k, e in zip(sorted(used), ex.map(link_native, sorted(used))):
                exes[k] = e
        n = 0
        for k, x in viols:
            n += 1
            path = os.path.join(rdir, '%s-%s-%d.txt' % (pid, k, n))
            if not exes.get(k):
                unconfirmed.append((k, x, 'no native build'))
                continue
            st, msg = run_native(exes[k], x['inputs'], path)
            if st in ('violation', 'timeout'):
                confirmed.append((k, x, msg, path))
            else:
                unconfirmed.append((k, x, st + ' ' + msg))
        for k, x in known:
            path = os.path.join(work, 'known.txt')
            st, msg = run_native(exes[k], x['inputs'], path) if exes.get(k) else ('none', '')
            fid = x['msg']
            if fid in kf and kf[fid]['property'] == pid:
                if st == 'known' and msg == fid:
                    knowns[fid] = kf[fid]['what']
                else:
                    print('note: known finding %s not reproduced natively (%s %s)' % (fid, st, msg))
                    if st == 'violation':
                        p2 = os.path.join(rdir, '%s-%s-known.txt' % (pid, k))
                        shutil.copy(path, p2)
                        confirmed.append((k, x, msg, p2))
            else:
                p2 = os.path.join(rdir, '%s-%s-%s.txt' % (pid, k, re.sub(r'\W', '_', fid)))
                shutil.copy(path, p2)
                if st in ('known', 'violation'):
                    confirmed.append((k, x, msg, p2))
                else:
                    unconfirmed.append((k, x, st))

        def val(kx):
            k, x = kx
            if not exes.get(k):
                return None
            return kx, run_native(exes[k], x['inputs'], os.path.join(work, 'w%s-%d.txt' % (k, id(x))))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(val, witnesses):
                if r is None:
                    continue
                (k, x), (st, msg) = r
                if st == 'ok' or st == 'known':
                    validated += 1
                elif st == 'violation':
                    n += 1
                    path = os.path.join(rdir, '%s-%s-w%d.txt' % (pid, k, n))
                    run_native(exes[k], x['inputs'], path)
                    confirmed.append((k, dict(msg='native run of an explored path fails: ' + msg, inputs=x['inputs']), msg, path))
                else:
                    print('note: witness path of %s not validated: %s %s' % (k, st, msg))
    for fid, what in sorted(knowns.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, fid, what))
    for k, x, msg, path in confirmed:
        print('  counterexample in %s: %s' % (k, x['msg']))
        print('  native replay: %s' % msg)
        print('  inputs: ' + ' '.join('%s=%s' % (i[3], i[2]) for i in x['inputs'][-40:]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    for k, x, why in unconfirmed:
        print('  unconfirmed counterexample in %s: %s at %s (native replay: %s)' % (k, x['msg'], x.get('where', ''), why))
    evidence(pid, tier, P, results, confirmed, validated, knowns, b, t0, tb)
    if confirmed:
        return 1
    if broken or unconfirmed:
        return 2
    return 0


def evidence(pid, tier, P, results, confirmed, validated, knowns, b, t0, tb):
    fns, hsum, samples = set(), [], []
    tot = dict(paths=0, instructions=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, asserts_checked=0,
               assert_queries=0, forks=0, assume_pruned=0, choices=0, symbolic_inputs=0)
    for r in results:
        s = r['s']
        for k in tot:
            tot[k] += s.get(k, 0)
        for x in r['recs']:
            if x['t'] == 'fns':
                for f in x.get('names', x.get('fns', [])):
                    fns.add(f)
        hsum.append(dict(harness=r['key'], bounds=r['h'].get('bounds', ''), complete=s['complete'], paths=s['paths'],
                         truncated=s['truncated'], unsupported=s['unsupported'], unexplored=s['unexplored'],
                         solver_unknown=s['unknown'], queries=s['queries'], solver_s=round(s['solver_s'], 2),
                         wall_s=s['wall_s'], reached=r.get('reach', [])))
        ws = [x for x in r['recs'] if x['t'] == 'path']
        if ws:
            samples.append(dict(harness=r['key'], path_inputs=' '.join('%s=%s' % (i[3], i[2]) for i in ws[-1]['inputs'][:60])))
    rf = sorted(demangle([f for f in fns]))
    rf = [f for f in rf if 'deepmind::reverb' in f]
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking',
              coverage=dict(states=tot['paths'], transitions=tot['instructions'],
                            traces_validated_against_impl=validated, samples=samples,
                            exhaustive=bool(results) and all(r['s']['complete'] for r in results),
                            explanation='states = feasible execution paths of the compiled sources explored to their end (each stands for all input values satisfying its path condition); transitions = IR instructions executed symbolically; asserts are decided by Z3 over each path condition',
                            harnesses=hsum, functions_encoded=rf, functions_encoded_count=len(rf),
                            assertions_checked=tot['asserts_checked'], assertion_queries=tot['assert_queries'],
                            queries_discharged=tot['queries'], sat=tot['sat'], unsat=tot['unsat'], unknown=tot['unknown'],
                            solver_seconds=round(tot['solver_s'], 2), branches_forked=tot['forks'],
                            schedule_and_case_choices=tot['choices'], symbolic_inputs=tot['symbolic_inputs'],
                            known_findings=sorted(knowns), build_seconds=round(tb, 1)),
              assumptions=P.get('assumptions', []) + props.COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(p + '.tmp', p)


def demangle(names):
    if not names:
        return []
    r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.splitlines()


if __name__ == '__main__':
    sys.exit(main())

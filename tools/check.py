#!/usr/bin/env python3
"""Solver-based check of one property against /repo's current source.

  check.py run ID [--tier quick|thorough] [--strict]
  check.py setup            build the executor and warm the object caches
  check.py replay FILE      run a saved counterexample against the real code

The real sources are compiled to LLVM IR, linked with the harness of the
property and executed symbolically by build/symx; the verdicts come from Z3.
A counterexample is reported only after it has reproduced in a native,
AddressSanitizer build of the same sources with the real protobuf library.
"""
import hashlib, json, os, re, shutil, subprocess, sys, time, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SE_REPO', '/repo')
B = V + '/build'
LL = '/usr/lib/llvm-18/bin/'
CLANG = LL + 'clang++'
IRFLAGS = ['-O1', '-c', '-emit-llvm', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-pic', '-fno-pie',
           '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-D_GLIBCXX_ASSERTIONS', '-std=gnu++17', '-w']
NATFLAGS = ['-O1', '-c', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-std=gnu++17', '-w',
            '-ftrivial-auto-var-init=pattern']
NCPU = os.cpu_count() or 4
QUICK_BUDGET = float(os.environ.get('SE_BUDGET', '420'))
THOROUGH_BUDGET = float(os.environ.get('SE_BUDGET_T', '3600'))


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(str(len(p)).encode() + b':')
        h.update(p)
    return h.hexdigest()[:24]


def is_test(f):
    b = os.path.basename(f)
    return b.endswith('_test.cc') or b in ('raft_test_util.cc', 'raft.pb.cc', 'raft.pb.h', 'raft_test_util.h')


class Tree:
    """/repo's source files and a hash of everything a translation unit can include."""

    def __init__(self):
        self.cc, hdr = [], []
        for d, _, fs in sorted(os.walk(REPO + '/src')):
            for f in sorted(fs):
                p = os.path.join(d, f)
                if is_test(p):
                    continue
                if f.endswith(('.cc', '.cpp', '.cxx')):
                    self.cc.append(p)
                elif f.endswith(('.h', '.hpp', '.inc', '.ipp', '.hh', '.proto')):
                    hdr.append(p)
        # a source that another one includes counts as a header as well
        inc = b''.join(rd(p) for p in self.cc + hdr)
        for p in self.cc:
            if ('"' + os.path.relpath(p, REPO) + '"').encode() in inc:
                hdr.append(p)
        shadow = sorted(glob.glob(V + '/models/**/*', recursive=True))
        shadow = [p for p in shadow if os.path.isfile(p)]
        self.hdr_hash = sha(*[x for p in hdr for x in (p, rd(p))], *[x for p in shadow for x in (p[len(V):], rd(p))],
                            rd(V + '/tools/gen_pb.py'), ' '.join(IRFLAGS + NATFLAGS))
        self.proto = REPO + '/src/raftpb/raft.proto'


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def atomic(path, make):
    """make(tmp) creates tmp; it is then renamed to path."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.%d.%s.tmp' % (os.getpid(), os.urandom(3).hex())
    make(tmp)
    os.replace(tmp, path)


class BuildError(Exception):
    pass


def compile_one(cmd, out):
    def mk(tmp):
        r = run(cmd + ['-o', tmp])
        if r.returncode != 0:
            raise BuildError(' '.join(cmd) + '\n' + r.stdout[-6000:])
    if not os.path.exists(out):
        atomic(out, mk)
    else:
        os.utime(out)
    return out


def gen_ir_pb(tree):
    key = sha(rd(tree.proto), rd(V + '/tools/gen_pb.py'))
    d = f'{B}/cache/irpb-{key}'
    if not os.path.exists(d + '/src/raftpb/raft.pb.h'):
        sys.path.insert(0, V + '/tools')
        import gen_pb
        text = gen_pb.gen(tree.proto)
        def mk(tmp):
            with open(tmp, 'w') as f:
                f.write(text)
        atomic(d + '/src/raftpb/raft.pb.h', mk)
    return d


def gen_nat_pb(tree):
    key = sha(rd(tree.proto))
    d = f'{B}/cache/natpb-{key}'
    if not os.path.exists(d + '/src/raftpb/raft.pb.cc'):
        t = d + '.%d' % os.getpid()
        os.makedirs(t, exist_ok=True)
        r = run(['protoc', '--cpp_out=' + t, '-I', REPO, tree.proto])
        if r.returncode:
            raise BuildError('protoc: ' + r.stdout)
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return d


def ir_jobs(tree, harness, defs):
    pb = gen_ir_pb(tree)
    inc = ['-I' + V + '/models/shadow', '-I' + V + '/models/shadow_rand', '-I' + pb, '-I' + REPO, '-I' + V + '/harness']
    jobs = []
    for p in tree.cc + [V + '/models/rt.cc']:
        jobs.append(([CLANG] + IRFLAGS + inc + [p], f'{B}/cache/ir/{sha(tree.hdr_hash, p, rd(p))}.bc'))
    if harness:
        jobs.append(([CLANG] + IRFLAGS + inc + defs + [harness], f'{B}/cache/ir/{harness_key(tree, harness, defs)}.bc'))
    return jobs


def harness_key(tree, harness, defs):
    hh = [x for p in sorted(glob.glob(V + '/harness/*.h')) for x in (p[len(V):], rd(p))]
    return sha(tree.hdr_hash, harness, rd(harness), ' '.join(defs), *hh)


def nat_jobs(tree, harness, defs, tsan=False):
    """Native objects: AddressSanitizer, or ThreadSanitizer for data races."""
    if tsan:
        defs = defs + ['-DSE_TSAN=1']
    ch = lambda fl: [x.replace('-fsanitize=address', '-fsanitize=thread') for x in fl] if tsan else fl
    mark = 'tsan' if tsan else ''
    pb = gen_nat_pb(tree)
    inc = ['-I' + V + '/models/shadow_rand', '-I' + pb, '-I' + REPO, '-I' + V + '/harness']
    jobs = []
    for p in tree.cc + [V + '/models/native.cc', pb + '/src/raftpb/raft.pb.cc']:
        fl = [x for x in NATFLAGS if x != '-D_GLIBCXX_ASSERTIONS'] if p.endswith('raft.pb.cc') else NATFLAGS
        jobs.append((['g++'] + ch(fl) + inc + [p], f'{B}/cache/nat/{sha(tree.hdr_hash, p, rd(p)) + mark}.o'))
    if harness:
        jobs.append((['g++'] + ch(NATFLAGS) + inc + defs + [harness], f'{B}/cache/nat/{harness_key(tree, harness, defs) + mark}.o'))
    return jobs


def build_all(jobs, nice=0):
    def one(j):
        cmd, out = j
        return compile_one((['nice', '-n', str(nice)] if nice else []) + cmd, out)
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(one, jobs))


def prune():
    """Keeps the object caches small."""
    for d in ('ir', 'nat'):
        fs = sorted(glob.glob(f'{B}/cache/{d}/*'), key=lambda p: -os.path.getmtime(p) if os.path.exists(p) else 0)
        for p in fs[400:]:
            try:
                os.unlink(p)
            except OSError:
                pass


def build_symx():
    os.makedirs(B, exist_ok=True)
    with open(B + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = [V + '/engine/' + f for f in ('symx.cc', 'expr.h', 'natives.h', 'dl.h', 'Makefile')]
        key = sha(*[rd(p) for p in src])
        stamp = B + '/symx.stamp'
        if os.path.exists(B + '/symx') and os.path.exists(stamp) and open(stamp).read() == key:
            return
        r = run(['make', '-B', '-C', V + '/engine', 'OUT=' + B])
        if r.returncode:
            raise BuildError('symx: ' + r.stdout[-4000:])
        with open(stamp, 'w') as f:
            f.write(key)


def parse_harness(path, tier):
    """Entries and the labels each must reach: lines //@ entry NAME [thorough|quick] [reach=a,b]"""
    ents = []
    text = open(path).read()
    for m in re.finditer(r'^//@ entry (\w+)(.*)$', text, re.M):
        rest = m.group(2)
        if 'thorough' in rest.split() and tier != 'thorough':
            continue
        if 'quick' in rest.split() and tier != 'quick':
            continue
        rm = re.search(r'reach=([\w,\-]+)', rest)
        ents.append((m.group(1), rm.group(1).split(',') if rm else []))
    bounds = [m.group(1).strip() for m in re.finditer(r'^//@ bound (.*)$', text, re.M)]
    stubs = [m.group(1).strip() for m in re.finditer(r'^//@ assume (.*)$', text, re.M)]
    return ents, bounds, stubs


def write_cases(path, items):
    with open(path, 'w') as f:
        for it in items:
            f.write('case %s %d\n' % (it['entry'], len(it['syms'])))
            for n, b, v in it['syms']:
                f.write('%s %s %s\n' % (n.replace(' ', '_') or '_', b, v))


def link_native(objs, binary, tsan=False):
    r = run(['g++', '-fsanitize=thread' if tsan else '-fsanitize=address', '-rdynamic'] + objs + ['-o', binary, '-lprotobuf', '-lpthread', '-ldl'])
    if r.returncode:
        raise BuildError(r.stdout[-4000:])


def native_run(binary, cases, fill):
    env = dict(os.environ)
    env['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=1:die_after_fork=0'
    env['ASAN_OPTIONS'] = ('detect_leaks=0:exitcode=66:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=1:'
                           'max_malloc_fill_size=1000000:malloc_fill_byte=%d:handle_abort=0' % fill)
    r = run([binary, cases], env=env, timeout=800)
    out = []
    for line in r.stdout.splitlines():
        if line.startswith('CASE '):
            out.append({'emits': [], 'fail': [], 'end': 'lost', 'log': []})
        elif out:
            c = out[-1]
            if line.startswith('EMIT '):
                c['emits'].append(line[5:].strip())
            elif line.startswith('FAIL '):
                c['fail'].append(line[5:])
            elif line.startswith('END '):
                c['end'] = line[4:]
            elif line.startswith('REACH '):
                pass
            else:
                c['log'].append(line)
    return out


def reproduced(c):
    if c['fail']:
        return c['fail'][0]
    e = c['end']
    if e == 'exit 66':
        m = [l for l in c['log'] if 'ERROR: AddressSanitizer' in l or 'WARNING: ThreadSanitizer' in l]
        return m[0].split(': ', 1)[1][:160] if m else 'sanitizer report'
    if e.startswith('signal'):
        n = int(e.split()[1])
        if n == 14:
            return 'does not terminate'
        t = [l for l in c['log'] if 'ssert' in l or 'terminate' in l]
        return 'signal %d %s' % (n, t[0][:200] if t else '')
    return None


def run_symx(bc, out, entries, budget, tier, seed, extra=()):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cmd = [B + '/symx', '--bc', bc, '--out', out, '--budget', str(budget), '--jobs', str(NCPU), '--grace', '3' if tier == 'quick' else '20',
           '--samples', '24', '--seed', str(seed)] + list(extra)
    for e in entries:
        cmd += ['--entry', e]
    r = run(cmd, env=dict(os.environ, SYMX_DLSAMPLE=os.environ.get('SYMX_DLSAMPLE', '100' if tier == 'quick' else '20'),
                      SYMX_DLASSERT=os.environ.get('SYMX_DLASSERT', '25' if tier == 'quick' else '4')))
    tot = {}
    funcs, reached, viols, samples, errors = set(), set(), [], [], {}
    for p in glob.glob(out + '/res.*.json'):
        d = json.load(open(p))
        for k, v in d.items():
            if isinstance(v, bool):
                tot[k] = tot.get(k, False) or v
            elif isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
            elif k.startswith('entry_'):
                a = tot.setdefault(k, [0] * len(v))
                for i, x in enumerate(v):
                    a[i] += x
        funcs.update(tuple(x) for x in d['functions'])
        reached.update(d['reached'])
        viols += d['violations']
        samples += d['samples']
        for k, v in d['errors'].items():
            errors[k] = errors.get(k, 0) + v
    return r, tot, funcs, reached, viols, samples, errors


def check(pid, tier, strict=False, only=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    harness = f'{V}/harness/{pid}.cc'
    ents, bounds, stubs = parse_harness(harness, tier)
    if only:
        ents = [e for e in ents if e[0] in only]
    defs = ['-DSE_THOROUGH=1'] if tier == 'thorough' else []
    build_symx()
    tree = Tree()
    objs = build_all(ir_jobs(tree, harness, defs))
    work = f'{B}/run/{pid}.{os.getpid()}'
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking'}
    try:
        bc = work + '/prog.bc'
        r = run([LL + 'llvm-link'] + objs + ['-o', bc])
        if r.returncode:
            raise BuildError(r.stdout)
        ev['build_ir_s'] = round(time.time() - t0, 2)
        budget = QUICK_BUDGET if tier == 'quick' else THOROUGH_BUDGET
        t1 = time.time()
        r, tot, funcs, reached, viols, samples, errors = run_symx(bc, work + '/out', [e for e, _ in ents], budget, tier, seed)
        t2 = time.time()
        if r.returncode == 3 or not tot:
            raise BuildError('symx: ' + r.stdout[-3000:])
        died = r.returncode != 0
        # native side
        nobjs = build_all(nat_jobs(tree, harness, defs))
        binary = work + '/replay'
        link_native(nobjs, binary)
        # sampled paths must behave the same natively
        samples.sort(key=lambda s: json.dumps(s['syms']))
        per = {}
        chosen = []
        for s in samples:
            k = per.get(s['entry'], 0)
            if k < 16:
                per[s['entry']] = k + 1
                chosen.append(s)
        agreed, disagreements = 0, []
        if chosen:
            write_cases(work + '/samples.txt', chosen)
            res = native_run(binary, work + '/samples.txt', 0)
            for s, c in zip(chosen, res):
                ok = c['end'] == 'exit 0' and not c['fail'] and c['emits'] == s['emits']
                if ok:
                    agreed += 1
                else:
                    disagreements.append({'entry': s['entry'], 'engine': s['emits'], 'native': c['emits'], 'end': c['end'], 'fail': c['fail'], 'log': c['log'][:6], 'syms': s['syms']})
        # violations: distinct by where and what, replayed
        seen, distinct = set(), []
        for v in viols:
            k = (v['entry'], v['kind'], v['msg'], v['loc'])
            n = sum(1 for x in distinct if (x['entry'], x['kind'], x['msg'], x['loc']) == k)
            if n < 4:
                distinct.append(v)
        distinct = distinct[:120]
        known = load_known(pid)
        reported, knownhit, unrepro = [], {}, []
        if distinct:
            write_cases(work + '/viol.txt', distinct)
            got = [None] * len(distinct)
            for fill in (0, 0xbe, 0xff):
                for i, c in enumerate(native_run(binary, work + '/viol.txt', fill)):
                    if got[i] is None and distinct[i]['kind'] != 'race':
                        got[i] = reproduced(c)
            races = [i for i, v in enumerate(distinct) if v['kind'] == 'race']
            if races:
                link_native(build_all(nat_jobs(tree, harness, defs, True)), work + '/tsan', True)
                write_cases(work + '/race.txt', [distinct[i] for i in races])
                for i, c in zip(races, native_run(work + '/tsan', work + '/race.txt', 0)):
                    got[i] = reproduced(c)
            for v, g in zip(distinct, got):
                k = (v['entry'], v['kind'], v['msg'])
                if g is None:
                    unrepro.append(v)
                    continue
                v['native'] = g
                kf = [x for x in known if x['entry'] == v['entry'] and x['msg'] == v['msg'] and x.get('kind', v['kind']) == v['kind']]
                if kf:
                    knownhit[kf[0]['what']] = v
                    continue
                if k in seen:
                    continue
                seen.add(k)
                reported.append(v)
        confirmed = {(v['entry'], v['kind'], v['msg']) for v in reported}
        unrepro = [v for v in unrepro if (v['entry'], v['kind'], v['msg']) not in confirmed]
        missing = []
        for e, labs in ents:
            for l in labs:
                if f'{e}:{l}' not in reached:
                    missing.append(f'{e}:{l}')
        repo_funcs = sorted({n for n, f in funcs if f.startswith(REPO + '/src')})
        exhaustive = not tot.get('incomplete') and not tot.get('unexplored') and not died and not errors
        cov = {
            'states': tot['paths'], 'transitions': tot['instructions'], 'traces_validated_against_impl': agreed,
            'samples': [{'entry': s['entry'], 'inputs': s['syms'][:60], 'observed': s['emits'][:60]} for s in chosen[:3]],
            'exhaustive': exhaustive,
            'explanation': 'states = symbolic paths completed (each one stands for every value of the symbolic inputs that satisfies its path condition); '
                           'transitions = IR instructions executed symbolically; traces_validated_against_impl = sampled paths whose solver-chosen inputs, run natively '
                           '(gcc, AddressSanitizer, real protobuf) on the same sources, gave exactly the observations the encoding predicted.',
            'bounds': bounds, 'assumptions': stubs,
            'entries': [{'entry': e, 'paths': tot['entry_paths'][i], 'assertions_checked': tot['entry_asserts'][i], 'unexplored': tot['entry_unexplored'][i]} for i, (e, _) in enumerate(ents)],
            'paths_assumed_away': tot['assumed_away'], 'forks': tot['forks'], 'solver_queries': tot['queries'], 'sat': tot['sat'], 'unsat': tot['unsat'],
            'unknown': tot['unknown'], 'decided_by_z3': tot['solved'], 'decided_by_difference_logic': tot['dl'], 'difference_logic_cross_checked_by_z3': tot['dl_checked'], 'assertions': tot['assertions'], 'assertion_queries': tot['assert_queries'], 'solver_s': round(tot['solver_s'], 2),
            'unexplored': tot['unexplored'], 'engine_errors': errors, 'worker_died': died,
            'reached': sorted(reached), 'vacuity_missing': missing,
            'trace_disagreements': len(disagreements), 'unreproduced_counterexamples': len(unrepro),
            'functions_encoded': len(repo_funcs), 'functions': repo_funcs,
            'symx_wall_s': round(t2 - t1, 2),
        }
        ev['coverage'] = cov
        ev['wall_s'] = round(time.time() - t0, 2)
        ev['violations'] = [{k: v[k] for k in ('entry', 'kind', 'msg', 'loc', 'stack', 'native')} for v in reported]
        if disagreements:
            ev['disagreements'] = disagreements[:5]
        if unrepro:
            ev['unreproduced'] = [{k: v[k] for k in ('entry', 'kind', 'msg', 'loc', 'stack', 'syms')} for v in unrepro[:5]]
        save_evidence(pid, ev)
        print('%s %s: %d paths, %d assertions, %d queries (%.1fs solver), symx %.1fs, total %.1fs%s' % (
            pid, tier, tot['paths'], tot['assertions'], tot['queries'], tot['solver_s'], t2 - t1, time.time() - t0, '' if exhaustive else ' INCOMPLETE'))
        if tot['unexplored'] or tot.get('incomplete'):
            print('NOTE: budget ended with %d states unexplored; the verdict covers only what was explored' % tot['unexplored'])
        for k, v in errors.items():
            print('NOTE: not encodable (%d paths): %s' % (v, k))
        for m in missing:
            print('NOTE: label not reached:', m)
        for d in disagreements[:3]:
            print('NOTE: native disagreement:', json.dumps(d)[:1500])
        for v in unrepro[:3]:
            print('NOTE: counterexample did not reproduce natively: %s %s %s %s' % (v['entry'], v['kind'], v['msg'], v['loc']), v['stack'][:6])
        for w in knownhit:
            print('KNOWN-FINDING: property=%s %s' % (pid, w))
        rc = 0
        for n, v in enumerate(reported):
            rep = f'{B}/replay/{pid}-{n}.json'
            os.makedirs(os.path.dirname(rep), exist_ok=True)
            json.dump({'property': pid, 'harness': harness, 'defs': defs, 'case': v}, open(rep, 'w'), indent=1)
            print('  %s [%s] %s at %s; native: %s' % (v['entry'], v['kind'], v['msg'], v['loc'], v['native']))
            print('    stack: ' + ' <- '.join(v['stack'][:5]))
            print('VIOLATION property=%s replay=%s' % (pid, rep))
            rc = 1
        if strict and (missing or disagreements or unrepro or not exhaustive):
            rc = rc or 5
        return rc
    finally:
        if not os.environ.get('SE_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
        prune()


def load_known(pid):
    p = V + '/known_findings.json'
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p)).get('findings', []) if x['property'] == pid]


def save_evidence(pid, ev):
    os.makedirs(V + '/evidence', exist_ok=True)
    def mk(tmp):
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
    atomic(f'{V}/evidence/{pid}.json', mk)


def replay(path):
    d = json.load(open(path))
    tree = Tree()
    work = f'{B}/run/replay.{os.getpid()}'
    os.makedirs(work, exist_ok=True)
    try:
        tsan = d['case']['kind'] == 'race'
        link_native(build_all(nat_jobs(tree, d['harness'], d['defs'], tsan)), work + '/replay', tsan)
        write_cases(work + '/c.txt', [d['case']])
        for n, b, v in d['case']['syms']:
            print('  %s = %s' % (n, v))
        rc = 0
        for fill in (0, 0xbe, 0xff):
            for c in native_run(work + '/replay', work + '/c.txt', fill):
                g = reproduced(c)
                print('native run (fill %02x): %s' % (fill, g or 'no failure (%s)' % c['end']))
                if g:
                    rc = 1
                for l in c['log'][:30]:
                    print('   ', l)
            if rc:
                break
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    build_symx()
    tree = Tree()
    jobs = ir_jobs(tree, None, []) + nat_jobs(tree, None, [])
    hs = sorted(glob.glob(V + '/harness/*.cc'))
    for h in hs:
        jobs.append(ir_jobs(tree, h, [])[-1])
        jobs.append(nat_jobs(tree, h, [])[-1])
    build_all(jobs)
    print('ready: %d objects' % len(jobs))
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a[0] == 'setup':
            return setup()
        if a[0] == 'replay':
            return replay(a[1])
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in a:
            tier = a[a.index('--tier') + 1]
        only = None
        if '--only' in a:
            only = a[a.index('--only') + 1].split(',')
        return check(a[1], tier, '--strict' in a, only)
    except BuildError as e:
        print('ERROR: cannot build or encode the current tree:\n' + str(e))
        return 2


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""Build the simulator from /repo's working tree and decide one property.

  check.py PROPERTY quick|thorough     explore, write evidence/PROPERTY.json, exit 0/1 (2: error)
  check.py replay FILE                 replay a violation exactly
  check.py build                       build everything (setup)
  check.py selftest [RUNS]             determinism of the simulator over seeds, processes and worker counts
"""
import hashlib, json, os, subprocess, sys, time, shutil, fcntl
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('FLECSPH_REPO', '/repo')
SIM = os.path.join(V, 'sim')
BUILD = os.path.join(V, 'build')
WORKERS = max(1, min(8, os.cpu_count() or 1))
INC = ['-I' + SIM + '/include', '-I.', '-Iinclude', '-Iinclude/physics', '-Iinclude/physics/eos', '-Impisph', '-Iapp/drivers/include', '-Iapp/id_generators/include']
RANKF = ['-std=gnu++17', '-O1', '-w', '-fPIC', '-shared', '-fno-gnu-unique', '-ffp-contract=off', '-DPARALLEL_IO', '-DLOG_STRIP_LEVEL=1']
HOSTF = ['-std=gnu++17', '-O2', '-g', '-w', '-I' + SIM + '/include']
# quick runs, quick seconds, thorough runs, thorough seconds, ranks (library copies)
from plan import PLAN, TITLES  # noqa

def files(*roots):
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ('.git', '_build', 'build', '__pycache__', 'evidence', 'seeded', 'replays'))
            for f in sorted(fs):
                if f.endswith(('.h', '.cc', '.cpp', '.hh', '.hpp', '.py', '.in')):
                    yield os.path.join(d, f)

def tree_hash(*roots):
    h = hashlib.sha256()
    for f in files(*roots):
        h.update(f.encode()); h.update(b'\0')
        with open(f, 'rb') as x: h.update(hashlib.sha256(x.read()).digest())
    return h.hexdigest()[:24]

def run_all(cmds):
    """run (cmd, cwd, out) in parallel, return the first failure text"""
    procs, err, pending = [], None, list(cmds)
    while pending or procs:
        while pending and len(procs) < WORKERS:
            c, cwd = pending.pop(0)
            procs.append((subprocess.Popen(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), c))
        p, c = procs.pop(0)
        o = p.communicate()[0]
        if p.returncode and err is None:
            err = ' '.join(c) + '\n' + o.decode(errors='replace')[-4000:]
    return err

def build(libs):
    """-> directory with the simulator binary and the rank libraries (rebuilt when any source changed)"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    hh = 'host-' + tree_hash(SIM + '/host', SIM + '/include')
    rh = 'rank-' + tree_hash(REPO, SIM + '/rank', SIM + '/include')
    for d in os.listdir(BUILD):
        if (d.startswith('host-') and d != hh) or (d.startswith('rank-') and d != rh):
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    hd, rd = os.path.join(BUILD, hh), os.path.join(BUILD, rh)
    os.makedirs(hd, exist_ok=True); os.makedirs(rd, exist_ok=True)
    cmds, link = [], None
    sim = os.path.join(hd, 'sim')
    if not os.path.exists(sim):
        objs = []
        for f in sorted(os.listdir(SIM + '/host')):
            if f.endswith('.cc'):
                o = os.path.join(hd, f[:-3] + '.o'); objs.append(o)
                cmds.append((['g++'] + HOSTF + ['-c', os.path.join(SIM, 'host', f), '-o', o], SIM))
        link = ['g++', '-o', sim + '.tmp'] + objs + ['-rdynamic', '-ldl']
    made = []
    for l in libs:
        so = os.path.join(rd, l + '.so')
        if os.path.exists(so): continue
        src, dim = l.rstrip('0123456789'), l[len(l.rstrip('0123456789')):] or '3'
        extra = []
        if src.startswith('gen_'):
            extra = ['-DGEN_MAIN="app/id_generators/%s/main.cc"' % src[4:]]; src = 'gen'
        cmds.append((['g++'] + RANKF + extra + ['-DEXT_GDIMENSION=' + dim] + INC + [os.path.join(SIM, 'rank', src + '.cc'), '-o', so + '.tmp', '-lgsl', '-lgslcblas'], REPO))
        made.append(so)
    e = run_all(cmds)
    if e is None and link: e = run_all([(link, SIM)])
    if e is not None:
        print('BUILD FAILED\n' + e); sys.exit(2)
    for so in made: os.rename(so + '.tmp', so)
    if link: os.rename(sim + '.tmp', sim)
    return sim, rd

def known(prop):
    """known_findings.txt: 'finding: property=P class=<class> match=<substring> -- text'"""
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if not l.startswith('finding: property=' + prop + ' '): continue
            body, text = l.split(' -- ', 1)
            cls = body.split(' class=', 1)[1].split(' match=', 1)[0]
            m = body.split(' match=', 1)[1]
            out.append((cls, m, text))
    return out

def parse(o):
    d = {}
    for l in o.splitlines():
        k, _, v = l.partition(' ')
        d.setdefault(k, v)
    return d

def sh(cmd, timeout=700):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')

def libs_of(sim, prop):
    return sh([sim, 'libs', '--prop', prop])[1].split()

def needed(prop):
    sim, _ = build([])
    return libs_of(sim, prop)

def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    q = PLAN[prop]
    runs, limit = (q['quick'], q.get('qtime', 200)) if tier == 'quick' else (q['thorough'], q.get('ttime', 1500))
    ranks = str(q.get('ranks', 9) if tier == 'quick' else q.get('tranks', 17))
    libs = needed(prop)
    sim, rd = build(libs)
    tb = time.time() - t0
    scratch = os.path.join(BUILD, 'run.%d' % os.getpid()); os.makedirs(scratch, exist_ok=True)
    code = 2
    try:
        kn = known(prop)
        kf = os.path.join(scratch, 'known'); open(kf, 'w').write(''.join('%s\t%s\n' % (c, m) for c, m, _ in kn))
        out = os.path.join(scratch, 'out.json'); hf = os.path.join(scratch, 'hashes')
        base = ['--prop', prop, '--base', str(seed), '--libs', rd, '--tier', tier, '--maxranks', ranks]
        rc, o, e = sh([sim, 'explore'] + base + ['--runs', str(runs), '--time', str(limit), '--workers', str(WORKERS), '--known', kf, '--out', out, '--hashes', hf], timeout=limit + 200)
        if rc not in (0, 1) or not os.path.exists(out):
            print('SIMULATOR ERROR rc=%d\n%s%s' % (rc, o[-2000:], e[-4000:])); return 2
        r = json.load(open(out))
        # the same seeds again, with another number of workers: every history hash must be identical
        nd = min(r['runs'], max(24, min(400, runs // 50)))
        out2 = out + '2'; hf2 = hf + '2'
        sh([sim, 'explore'] + base + ['--runs', str(nd), '--time', '120', '--workers', '3', '--known', kf, '--out', out2, '--hashes', hf2, '--maxfail', '100000'])
        rh = lambda f: {l.split()[0]: l.split(None, 1)[1] for l in open(f) if l.strip()} if os.path.exists(f) else {}
        a, b = rh(hf), rh(hf2); mism = [k for k in b if k in a and a[k] != b[k]]
        viol, replay = None, None
        for f in r['fails']:
            one = [sim, 'one', '--prop', prop, '--seed', f['seed'], '--libs', rd, '--tier', tier, '--maxranks', ranks]
            d1, d2 = parse(sh(one)[1]), parse(sh(one)[1])
            if d1.get('failed') == '1' and d2.get('failed') == '1' and d1['class'] == d2['class'] and d1['hash'] == d2['hash']:
                viol = (f, d1); break
            print('not reproducible: seed %s gave %s/%s then %s/%s' % (f['seed'], f['class'], f['hash'], d1.get('class'), d1.get('hash')))
        if viol:
            f, d = viol
            os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
            replay = os.path.join(V, 'replays', '%s-%s.replay' % (prop, f['seed']))
            sh([sim, 'minimise', '--prop', prop, '--seed', f['seed'], '--libs', rd, '--tier', tier, '--maxranks', ranks, '--out', replay, '--budget', '40'])
            rp = parse(sh([sim, 'replay', '--file', replay, '--libs', rd, '--maxranks', ranks])[1]) if os.path.exists(replay) else {}
            want = {l.split()[0]: l.split(None, 1)[1].strip() for l in open(replay) if l.startswith(('class ', 'hash '))} if os.path.exists(replay) else {}
            if rp.get('failed') != '1' or rp.get('hash') != want.get('hash'):
                # fall back to the unminimised execution, which was just reproduced twice
                open(replay, 'w').write('property %s\nseed %s\ntier %s\nmode seed\nclass %s\nhash %s\n' % (prop, f['seed'], tier, d['class'], d['hash']))
        wall = time.time() - t0
        st = r['stats']
        faults = {k[6:]: int(v) for k, v in st.items() if k.startswith('fault.')}
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': q.get('level', 'exploration'),
              'coverage': {'evaluations': r['runs'], 'distinct_nontrivial': r['distinct'],
                           'rule': 'one evaluation = one seeded simulated execution (or pair/series of executions) of the real code; nontrivial = at least two simulated ranks and more than ten scheduling steps; distinct = different hash of the complete event history (scheduling decisions, messages, collectives, disk operations, recorded results)',
                           'samples': r['samples'][:3] or ['-'],
                           'oracle_comparisons': r['checks'], 'runs_per_hour': int(r['runs'] / max(r['wall'], 1e-3) * 3600), 'seeds_per_hour': int(r['runs'] / max(r['wall'], 1e-3) * 3600),
                           'simulated_seconds': st.get('simtime', 0), 'simulated_jobs': int(st.get('jobs', 0)), 'scheduling_steps': int(st.get('steps', 0)), 'context_switches': int(st.get('sched.switches', 0)),
                           'messages': int(st.get('messages', 0)), 'collectives': int(st.get('collectives', 0)), 'disk_operations': int(st.get('h5.ops', 0)),
                           'faults_fired': faults, 'other_counters': {k: v for k, v in st.items() if not k.startswith('fault.') and k not in ('simtime', 'jobs', 'steps', 'sched.switches', 'messages', 'collectives')},
                           'scenario_notes': r['notes'], 'planned_runs': r['planned'],
                           'determinism_rechecked_runs': len(b), 'determinism_mismatches': len(mism),
                           'real_components': q.get('real', 'all FleCSPH sources reached by the rank libraries ' + ', '.join(libs)), 'stubbed_components': 'MPI library, HDF5/H5hut library with its disk, FleCSI task runtime (direct call), OpenMP timer, clocks, directory listing',
                           'known_findings_hit': r['known']},
              'assumptions': q.get('assumptions', []) + ['sequentially consistent ranks without threads; MPI delivers reliably and in order per pair of ranks', 'gcc -O1 build of the sources'],
              'violations': [{'class': f['class'], 'message': f['msg'], 'seed': f['seed']} for f in r['fails']],
              'wall_s': round(wall, 2), 'build_s': round(tb, 2)}
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
        for c, m, t in kn:
            print('KNOWN-FINDING: property=%s %s' % (prop, t))
        print('%s %s: %d runs, %d distinct nontrivial histories, %d oracle comparisons, %d faults fired, %.1f s (build %.1f s)' % (prop, tier, r['runs'], r['distinct'], r['checks'], sum(faults.values()), wall, tb))
        if viol:
            print('class: %s\nmessage: %s' % (viol[1]['class'], viol[1].get('msg', '')))
            print('VIOLATION property=%s replay=%s' % (prop, replay)); return 1
        if r['fails']:
            print('failures that do not reproduce exactly: simulator error'); return 2
        if mism: print('warning: %d of %d re-executed runs differ' % (len(mism), len(b)))
        if r['runs'] < min(runs, 20): print('too few runs completed'); return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == 'build':
        sim, _ = build([]); build(libs_of(sim, 'all')); return 0
    if a[0] == 'replay':
        prop = [l.split()[1] for l in open(a[1]) if l.startswith('property ')][0]
        sim, rd = build(needed(prop))
        rc, o, e = sh([sim, 'replay', '--file', os.path.abspath(a[1]), '--libs', rd, '--maxranks', '17']); print(o + e); return rc
    if a[0] == 'selftest':
        n = a[1] if len(a) > 1 else '200'; sim, _ = build([]); bad = 0
        for p in sorted(PLAN):
            _, rd = build(libs_of(sim, p)); hs = []
            for w in ('1', '5', '8'):
                h = os.path.join(BUILD, 'h.' + w); sh([sim, 'explore', '--prop', p, '--base', '7', '--runs', n, '--libs', rd, '--workers', w, '--maxranks', '9', '--maxfail', '1000000', '--out', h + '.json', '--hashes', h], 3000); hs.append(sorted(open(h)))
            ok = hs[0] == hs[1] == hs[2]; bad += not ok; print(p, 'identical' if ok else 'DIFFERENT', len(hs[0])); sys.stdout.flush()
        return 1 if bad else 0
    return check(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'))
sys.exit(main())

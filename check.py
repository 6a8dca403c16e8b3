#!/usr/bin/env python3
"""Decides one property of fourleaf by symbolic execution of its compiled code.

usage: check.py ID [--tier quick|thorough]      (tier and seed also from VERIF_TIER / VERIF_SEED)
       check.py --setup                         (builds the engine and the std bitcode cache)

exit 0  the property held on every path within the stated bounds
exit 1  a violation was found and reproduced natively (VIOLATION line)
exit 2  no verdict (build error, time-out, unsupported construct, vacuous harness)
exit 3  a counterexample or sampled path did not reproduce natively (engine error)
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(HERE, '.build')
sys.path.insert(0, HERE)
ENV = dict(os.environ, CARGO_NET_OFFLINE='true')
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'):
    ENV.pop(k, None)
SR_CACHE = {}


class NoVerdict(Exception):
    pass


def run(cmd, **kw):
    kw.setdefault('env', ENV)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def must(cmd, what, **kw):
    r = run(cmd, **kw)
    if r.returncode != 0:
        raise NoVerdict('%s failed:\n%s' % (what, r.stdout[-4000:]))
    return r.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:16]


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def engine():
    """Builds the symbolic executor once per version of its sources."""
    src = glob.glob(HERE + '/symex/src/*.rs') + [HERE + '/symex/Cargo.toml', HERE + '/symex/build.rs']
    out = os.path.join(BUILD, 'symex-' + tree_hash(src))
    with Lock('engine'):
        if not os.path.exists(out):
            t = os.path.join(BUILD, 'symex-target')
            must(['cargo', 'build', '--release', '--offline', '-q', '--manifest-path', HERE + '/symex/Cargo.toml'],
                 'building the engine', env=dict(ENV, CARGO_TARGET_DIR=t))
            for old in glob.glob(BUILD + '/symex-????????????????'):
                os.remove(old)
            shutil.copy2(t + '/release/symex', out + '.tmp')
            os.rename(out + '.tmp', out)
    return out


def sysroot():
    if 'sr' not in SR_CACHE:
        SR_CACHE['sr'] = must(['rustc', '--print', 'sysroot'], 'rustc').strip()
    return SR_CACHE['sr']


def tool(n):
    return sysroot() + '/lib/rustlib/x86_64-unknown-linux-gnu/bin/' + n


STD = ['std', 'alloc', 'core', 'hashbrown', 'memchr', 'gimli', 'addr2line', 'miniz_oxide', 'object', 'rustc_demangle']


def std_bitcode():
    """The standard library's own bitcode, extracted from the installed rlibs."""
    lib = sysroot() + '/lib/rustlib/x86_64-unknown-linux-gnu/lib'
    ver = must(['rustc', '-vV'], 'rustc')
    out = os.path.join(BUILD, 'std-' + hashlib.sha256(ver.encode()).hexdigest()[:16])
    with Lock('std'):
        if not os.path.exists(out):
            tmp = out + '.tmp'
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            for n in STD:
                r = glob.glob('%s/lib%s-*.rlib' % (lib, n))
                if len(r) != 1:
                    raise NoVerdict('rlib of %s: %r' % (n, r))
                d = '%s/%s' % (tmp, n)
                os.makedirs(d)
                must([tool('llvm-ar'), 'x', r[0]], 'llvm-ar', cwd=d)
                for o in glob.glob(d + '/*.o'):
                    run([tool('llvm-objcopy'), '--dump-section', '.llvmbc=' + o[:-2] + '.bc', o, '/dev/null'])
                    os.remove(o)
                for o in glob.glob(d + '/*'):
                    if not o.endswith('.bc') or os.path.getsize(o) == 0:
                        os.remove(o)
            if not glob.glob(tmp + '/core/*.bc'):
                raise NoVerdict('no standard library bitcode')
            os.rename(tmp, out)
    res = []
    for n in STD:
        res += sorted(glob.glob('%s/%s/*.bc' % (out, n)))
    return res


def build_harness(mods, work):
    """Compiles /repo's current sources and the harness; returns IR path and native replayer."""
    t = work + '/t'
    env = dict(ENV, CARGO_TARGET_DIR=t,
               RUSTFLAGS='--cap-lints=allow --emit=llvm-bc,link -C no-vectorize-loops -C no-vectorize-slp')
    must(['cargo', 'build', '--offline', '-q', '--manifest-path', HERE + '/harness/Cargo.toml',
          '--features', ','.join(['native'] + sorted(mods))], 'building the harness against /repo', env=env)
    d = t + '/debug/deps'

    def bc(n):
        r = [x for x in glob.glob('%s/%s-*.bc' % (d, n)) if not x.endswith('.rcgu.bc')]
        if len(r) != 1:
            raise NoVerdict('bitcode of %s: %r' % (n, r))
        return r[0]
    app = [bc(n) for n in ('harness', 'fourleaf', 'quick_error')]
    std = std_bitcode()
    must([tool('llvm-link')] + app + ['-o', work + '/app.bc'], 'llvm-link')
    must([tool('llvm-link'), work + '/app.bc', '--only-needed'] + std + ['-o', work + '/all.bc'], 'llvm-link std')
    must([tool('opt'), '--strip-debug', '-passes=lower-invoke,simplifycfg', work + '/all.bc', '-o', work + '/all2.bc'], 'opt')
    must([tool('llvm-dis'), work + '/all2.bc', '-o', work + '/all.ll'], 'llvm-dis')
    for n in ('app', 'all', 'all2'):
        os.remove('%s/%s.bc' % (work, n))
    return work + '/all.ll', t + '/debug/replay'


def native(replay, job, data):
    """(exit code, FAIL message, OUT hex) of a native run; 'hang' when it does not end."""
    name, _, params = job.partition(':')
    try:
        r = subprocess.run([replay, name, params, data], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors='replace', timeout=20, cwd='/')
    except subprocess.TimeoutExpired:
        return 'hang', 'does not terminate', None, ''
    msg = re.search(r'^FAIL (.*)$', r.stdout, re.M)
    out = re.search(r'^OUT ([0-9a-f]*)$', r.stdout, re.M)
    return r.returncode, msg.group(1) if msg else '', out.group(1) if out else None, r.stderr[-600:]


def demangle(names):
    if not names:
        return []
    r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.split('\n')[:len(names)] if r.returncode == 0 else names


def pretty(f):
    return re.sub(r'\[[0-9a-f]{8,}\]', '', f)


def known(pid):
    """Lines 'finding: property=ID job=NAME match=<regex on the message> -- text'."""
    res = []
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) job=(\S+) match=/(.*?)/ -- (.*)$', l.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return res


def check(pid, tier, seed, verbose=False):
    import registry
    t0 = time.time()
    p = registry.CHECKS[pid]
    jobs = list(p['thorough'] if tier == 'thorough' and p.get('thorough') else p['quick'])
    limit = float(os.environ.get('VERIF_LIMIT', 3600 if tier == 'thorough' else 780))
    eng = engine()
    work = os.path.join(BUILD, 'run-%s-%d' % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        ir, replay = build_harness(p['mod'], work)
        kn = known(pid)
        cmd = [eng, '--ir', ir, '--procs', str(p.get('procs', os.cpu_count() or 4)), '--out', work + '/r.json', '--work', work + '/w',
               '--seed', str(seed), '--samples', str(p.get('samples', 2)), '--steps', str(p.get('steps', 20000000)),
               '--timeout', str(limit - (time.time() - t0) - 40)]
        if kn:
            cmd.append('--keep-going')
        for j in jobs:
            cmd += ['--job', j]
        tb = time.time() - t0
        r = run(cmd)
        if not os.path.exists(work + '/r.json'):
            raise NoVerdict('engine: ' + r.stdout[-3000:])
        res = json.load(open(work + '/r.json'))
        return verdict(pid, p, tier, seed, jobs, res, replay, kn, t0, tb, verbose)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def verdict(pid, p, tier, seed, jobs, res, replay, kn, t0, tb, verbose):
    w = res['workers']
    tot = {k: sum(x[k] for x in w) for k in ('forks', 'steps', 'queries', 'quick', 'hits', 'sat', 'unsat', 'nanos')}
    done = [sum(x['done'][i] for x in w) for i in range(len(jobs))]
    killed = [sum(x['killed'][i] for x in w) for i in range(len(jobs))]
    covers = {}
    for x in w:
        for j, c, n in x['covers']:
            k = (jobs[j].split(':')[0], c)
            covers[k] = covers.get(k, 0) + n
    funcs = sorted(set(f for x in w for f in x['funcs']))
    errors = [e for x in w for e in x['errors']]
    fails = [f for x in w for f in x['fails']]
    samples = [s for x in w for s in x['samples']]
    if verbose:
        print('build %.1fs load %.1fs engine %.1fs paths %d %s' % (tb, res['load'], res['wall'], res['paths'], tot))
        print('done', dict(zip(jobs, done)))
        print('killed', dict(zip(jobs, killed)))
        print('covers', sorted(covers.items()))

    # 1. counterexamples: replay each one natively
    viol, findings, unrep, found = [], [], [], set()
    seen = set()
    for f in fails:
        job = jobs[f['job']]
        if (job, f['msg']) in seen and len(seen) > 20:
            continue
        seen.add((job, f['msg']))
        rc, msg, out, err = native(replay, job, f['bytes'])
        if rc in (0, 77, 99):
            unrep.append((job, f, rc))
            continue
        what = '%s: %s' % (job, msg or f['msg'])
        k = next((x for x in kn if x[0] == job.split(':')[0] and x[1].search(what + ' ' + err + ' input=' + f['bytes'])), None)
        if k:
            findings.append(k[2])
            found.add(job)
        else:
            viol.append((job, f, rc, what, err))
    for t in sorted(set(findings)):
        print('KNOWN-FINDING: property=%s %s' % (pid, t))
    if viol:
        os.makedirs(HERE + '/replays', exist_ok=True)
        done_msgs = set()
        n = 0
        for job, f, rc, what, err in viol:
            if what in done_msgs:
                continue
            done_msgs.add(what)
            n += 1
            path = '%s/replays/%s-%d.txt' % (HERE, pid, n)
            name, _, params = job.partition(':')
            with open(path, 'w') as o:
                o.write('property: %s\nharness: %s\nparams: %s\ninput bytes (in the order the harness draws them): %s\n'
                        'engine: %s\nnative exit: %s\nnative: %s\n%s\ncall trace: %s\n'
                        'to replay: cd /verif/harness && CARGO_TARGET_DIR=/tmp/replay cargo run --offline -q --features native,%s '
                        '--bin replay -- %s "%s" %s\n'
                        % (pid, name, params, f['bytes'], f['msg'], rc, what, err, pretty('; '.join(demangle(f['trace'].split('; ')))),
                           ','.join(p['mod']), name, params, f['bytes'] or '""'))
            print('violation: %s (native exit %s) input=%s' % (what, rc, f['bytes'][:200]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            if n >= 5:
                break
    # 2. agreement of the encoding with the real build on sampled passing paths
    validated, bad = 0, []
    pick = samples[:] if len(samples) <= 48 else [samples[(i * 2654435761 + seed) % len(samples)] for i in range(48)]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda s: native(replay, jobs[s['job']], s['bytes']), pick))
    for s, (rc, msg, out, err) in zip(pick, rs):
        if rc == 0 and out == s['out']:
            validated += 1
        else:
            bad.append('%s input %s: engine passes with OUT %s; native exit %s %s OUT %s %s'
                       % (jobs[s['job']], s['bytes'], s['out'], rc, msg, out, err))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': p.get('level', 'model_checking'),
        'coverage': {
            'states': tot['forks'] + sum(done) + sum(killed), 'transitions': tot['steps'],
            'traces_validated_against_impl': validated,
            'samples': [{'job': jobs[s['job']], 'input': s['bytes'][:400], 'output': s['out'][:400]} for s in pick[:6]],
            'paths_completed': dict(zip(jobs, done)), 'paths_outside_assumptions': dict(zip(jobs, killed)),
            'solver_queries': tot['queries'], 'solver_sat': tot['sat'], 'solver_unsat': tot['unsat'],
            'queries_answered_by_range_analysis': tot['quick'], 'queries_answered_from_cache': tot['hits'], 'solver_seconds': round(tot['nanos'] / 1e9, 3),
            'solver': res['solver'], 'engine_seconds': res['wall'],
            'functions_encoded': len(funcs),
            'functions_of_fourleaf': sorted(set(pretty(f) for f in demangle([f for f in funcs if 'fourleaf' in f])))[:150],
            'reachability_witnesses': {'%s#%d' % k: v for k, v in sorted(covers.items())},
            'bounds': p['bounds'], 'exhaustive_within_bounds': not (res['timed_out'] or errors or res['crashed'] or (fails and not kn)),
            'known_findings': sorted(set(findings)),
        },
        'assumptions': p.get('assume', []) + registry_assumptions(),
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    os.makedirs(HERE + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (HERE, pid), 'w') as o:
        json.dump(ev, o, indent=1)
    if viol:
        return 1
    if unrep:
        for job, f, rc in unrep[:5]:
            print('engine error: counterexample of %s does not reproduce (native exit %s): %s input=%s trace %s'
                  % (job, rc, f['msg'], f['bytes'], pretty('; '.join(demangle(f['trace'].split('; '))))))
        return 3
    if bad:
        for b in bad[:5]:
            print('engine error: sampled path differs natively: ' + b)
        return 3
    if errors:
        for e in errors[:5]:
            print('no verdict: ' + pretty(' '.join(demangle(e[:3000].split(' ')))))
        return 2
    if res['crashed'] or res['timed_out']:
        print('no verdict: %s after %.0f s, %d paths' % ('a worker died' if res['crashed'] else 'time limit', res['wall'], res['paths']))
        return 2
    for i, j in enumerate(jobs):
        if done[i] == 0 and j not in found:
            print('no verdict: vacuous, no path of %s completes' % j)
            return 2
    for h, ids in p.get('covers', {}).items():
        for c in ids:
            if not covers.get((h, c)):
                print('no verdict: vacuous, %s never reaches witness %d' % (h, c))
                return 2
    print('%s held: %d paths, %d solver queries (%.1f s), %d instructions, %d native replays agree; %.1f s'
          % (pid, sum(done), tot['queries'], tot['nanos'] / 1e9, tot['steps'], validated, time.time() - t0))
    return 0


def registry_assumptions():
    import registry
    return registry.ASSUMPTIONS


def main():
    a = sys.argv[1:]
    verbose = '-v' in a
    a = [x for x in a if x != '-v']
    if a and a[0] == '--setup':
        try:
            engine()
            std_bitcode()
        except NoVerdict as e:
            print(e)
            sys.exit(2)
        print('ready')
        return
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        i = a.index('--tier')
        tier = a[i + 1]
        del a[i:i + 2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        rc = check(a[0], tier, seed, verbose)
    except NoVerdict as e:
        print('no verdict: %s' % e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()

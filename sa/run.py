"""Check one property against /repo's current source:  python3 -m sa.run P05 [--scenario NAME] [-v]"""
import fcntl
import gc
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import re
import shutil
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NMEA_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
EVID = os.environ.get('NMEA_EVIDENCE') or os.path.join(ROOT, 'evidence')

TRUSTED = [
    'rustc nightly front end (the MIR it lowers /repo/src to; debug assertions and overflow checks on)',
    'engine/driver.rs (MIR export)',
    'sa/ (abstract interpreter, BDD package, comparison with the specification tables)',
    'summaries of the standard library, chrono, regex, bitvec, hashbrown and log functions in sa/models*.py',
    'the specification tables in sa/*_spec.py, sa/props*.py and sa/mid.py (ITU-R M.1371, NMEA 0183, ITU MID list)',
]


def sh(cmd, env=None, timeout=800):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=timeout)


def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(ROOT, 'engine', 'driver.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'driver-' + h)
    if not os.path.exists(exe):
        tmp = exe + '.%d' % os.getpid()
        r = sh('rustc +nightly -O %s -C prefer-dynamic -o %s' % (src, tmp))
        if r.returncode:
            print(r.stdout)
            raise SystemExit('cannot build the MIR exporter')
        os.rename(tmp, exe)
    return exe


_sysroot = None


def export_mir(out):
    """Compile /repo's library with the exporter; the MIR of its current source goes to `out`."""
    global _sysroot
    exe = build_driver()
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        tgt = os.path.join(BUILD, 'target')
        if _sysroot is None:
            _sysroot = sh('rustc +nightly --print sysroot').stdout.strip()
        env = dict(os.environ)
        env.update(LD_LIBRARY_PATH=_sysroot + '/lib', RUSTC_WORKSPACE_WRAPPER=exe, CARGO_TARGET_DIR=tgt, NMEA_MIR_OUT=out,
                   CARGO_INCREMENTAL='0')
        env.pop('RUSTFLAGS', None)
        for sub in ('.fingerprint', 'build'):
            fp = os.path.join(tgt, 'debug', sub)
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if re.match(r'nmea[-_]parser(-|$)', n):
                        shutil.rmtree(os.path.join(fp, n))
        if os.path.exists(out):
            os.unlink(out)
        r = sh('cargo +nightly check --offline --lib --manifest-path %s/Cargo.toml' % REPO, env)
        if r.returncode or not os.path.exists(out):
            print(r.stdout[-3000:])
            raise SystemExit('cannot analyse /repo: it does not build')


# ---------------------------------------------------------------- scenarios

WORLD = None


FIRST = 1_500_000     # diagram nodes allowed in the first pass, in a cell, and in the last pass
FULL = 6_000_000


def run_cell(job):
    """One scenario, or one cell of its input space (fixed: {(variable name, occurrence): bit})."""
    (prop, name, fn, fargs, seed), fixed, nodes, limit = job
    gc.disable()
    from . import bdd
    from .harness import Sc, Missing, Vacuous
    from .interp import Limit
    sc = None
    t = time.time()
    out = {'name': name, 'oblig': [], 'status': 'done', 'hints': [], 'names': ()}
    bdd.FIXED = fixed.get if fixed is not None else None
    bdd.NODE_LIMIT = nodes
    try:
        sc = Sc(WORLD, name, seed, time.time() + limit)
        fn(sc, *fargs)
    except Missing as e:
        out['status'] = 'missing'
        out['why'] = str(e)
    except Vacuous:
        sc = None
    except (Limit, bdd.Blowup, MemoryError, RecursionError) as e:
        out['status'] = 'undecided'
        out['why'] = '%s %s' % (type(e).__name__, e)
    except Exception as e:
        out['status'] = 'undecided'
        out['why'] = '%s: %s' % (type(e).__name__, e)
        out['trace'] = traceback.format_exc()
    if sc is not None:
        s = sc.summary()
        s.update({k: v for k, v in out.items() if k != 'oblig'})
        s['hints'] = sc.hints
        s['names'] = sorted({(v[0], v[2]) for v in bdd.VARINFO if not v[1] and not v[0].startswith('now.')})
        out = s
    out['wall'] = round(time.time() - t, 2)
    return out


def violated(r):
    return any(o['status'] == 'violated' for o in r['oblig'])


def too_large(r):
    return r['status'] == 'undecided' and r['why'].startswith(('Blowup', 'Limit', 'Memory', 'process', 'time'))


def analyse(jobs, seed, limit, deadline):
    """All scenarios with a small allowance; what is too large is looked at in single cells of its input space, then as a whole."""
    t0 = time.time()
    res = pool([(j, None, FIRST, min(limit, 120)) for j in jobs], deadline, stop=lambda r: violated(r) and time.time() - t0 > 240)
    todo = [i for i, r in enumerate(res) if os.environ.get('NMEA_CELLS') or too_large(r) or
            r.get('hints') and any(o['status'] == 'undecided' for o in r['oblig'])]
    if not todo or any(violated(r) for r in res):
        return res
    rnd = random.Random(seed)
    cells = []
    for k in range(3):
        for i in todo:
            h, names = res[i].get('hints', ()), res[i].get('names', ())
            if h:
                if k < len(h):
                    cells.append((i, h[k]))
            elif names:
                share = (1.0, 0.8, 0.5)[k]
                cells.append((i, {x: rnd.getrandbits(1) for x in names if rnd.random() < share}))
    mid = time.time() + (deadline - time.time()) * 0.5
    out = pool([(jobs[i], c, FIRST, 60) for i, c in cells], mid, stop=violated)
    for (i, c), r in zip(cells, out):
        res[i]['cells'] = res[i].get('cells', 0) + 1
        if violated(r):
            res[i]['oblig'] += [o for o in r['oblig'] if o['status'] == 'violated']
            for k in ('covered', 'blocks'):
                for p, b in r.get(k, {}).items():
                    res[i].setdefault(k, {}).setdefault(p, b)
    if any(violated(r) for r in res):
        return res
    todo = [i for i in todo if too_large(res[i])]
    for i, r in zip(todo, pool([(jobs[i], None, FULL, limit) for i in todo], deadline, 6, violated)):
        if not too_large(r) or not res[i]['oblig']:
            r['cells'] = res[i].get('cells', 0)
            r['wall'] = round(r['wall'] + res[i]['wall'], 2)
            res[i] = r
    return res


def load_known():
    known = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m:
                known[(m.group(1), m.group(2))] = m.group(3)
    return known


def main(argv):
    global WORLD
    t0 = time.time()
    prop = argv[0]
    verbose = '-v' in argv
    only = argv[argv.index('--scenario') + 1] if '--scenario' in argv else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    os.makedirs(EVID, exist_ok=True)
    mir = os.path.join(BUILD, 'mir-%s-%d.json' % (prop, os.getpid()))
    given = os.environ.get('NMEA_MIR')
    if given:
        mir = given
    else:
        export_mir(mir)
    t1 = time.time()
    from .interp import World
    WORLD = World(mir)
    if not given:
        os.unlink(mir)
    props = importlib.import_module('sa.props')
    gc.collect()
    gc.freeze()
    results = []
    try:
        scen = props.scenarios(prop, WORLD, tier)
    except props.Missing as e:
        scen = []
        results.append({'name': 'anchors', 'oblig': [], 'status': 'missing', 'why': str(e), 'wall': 0})
    if only:
        scen = [s for s in scen if only in s[0]]
    limit = 250 if tier == 'quick' else 700
    jobs = [(prop, s[0], s[1], s[2] if len(s) > 2 else (), seed) for s in scen]
    if jobs:
        results += analyse(jobs, seed, limit, t0 + (780 if tier == 'quick' else 3300))
    rc = report(prop, tier, seed, results, time.time() - t0, t1 - t0, verbose)
    sys.stdout.flush()
    return rc


def pool(jobs, deadline, n=8, stop=None):
    """Run the jobs in forked processes of their own (no cache survives from one to the next)."""
    ctx = multiprocessing.get_context('fork')
    pending = list(enumerate(jobs))
    running = {}
    done = {}

    def skip(i, j, why):
        done[i] = {'name': j[0][1], 'oblig': [], 'status': 'undecided', 'why': why, 'wall': 0}
    end = False
    while (pending or running) and not end:
        while pending and len(running) < n and time.time() < deadline:
            i, j = pending.pop(0)
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(wr, j))
            p.start()
            wr.close()
            running[rd] = (i, j, p)
        if not running:
            break
        ready = multiprocessing.connection.wait(list(running), timeout=max(0.1, min(5, deadline - time.time())))
        for rd in ready:
            i, j, p = running.pop(rd)
            try:
                done[i] = rd.recv()
                end = end or stop is not None and stop(done[i])
            except EOFError:
                skip(i, j, 'process ended')
            rd.close()
            p.join()
        if time.time() > deadline:
            end = True
    why = 'time' if time.time() > deadline else 'not needed: a violation was found'
    for rd, (i, j, p) in running.items():
        p.kill()
        p.join()
        skip(i, j, why)
    for i, j in pending:
        skip(i, j, why)
    return [done[i] for i in sorted(done)]


def child(wr, j):
    try:
        wr.send(run_cell(j))
    finally:
        wr.close()
        sys.stdout.flush()
        os._exit(0)


def report(prop, tier, seed, results, wall, texport, verbose):
    known = load_known()
    n = ok = und = 0
    viol = []
    findings = {}
    undecided = []
    local = {}
    unknown = {}
    models = set()
    samples = []
    for r in results:
        for p in r.get('local', ()):
            local[p] = max(local.get(p, 0), r['covered'].get(p, 0))
        for k, v in r.get('unknown', {}).items():
            unknown[k] = unknown.get(k, 0) + v
        if r['status'] == 'missing':
            viol.append((r['name'], 'anchor', 'public anchor missing: ' + r['why'], None))
            n += 1
            continue
        if r['status'] != 'done':
            undecided.append('%s: %s' % (r['name'], r.get('why')))
            n += 1
        for o in r['oblig']:
            n += 1
            if o['status'] == 'ok':
                ok += 1
            elif o['status'] == 'undecided':
                undecided.append('%s: %s' % (r['name'], o['label']))
            elif o['status'] == 'known':
                k = (prop, o['key'])
                if k in known:
                    findings[o['key']] = known[k]
                    ok += 1
                else:
                    viol.append((r['name'], o['label'], o['info'], o['witness']))
            else:
                viol.append((r['name'], o['label'], o['info'], o['witness']))
    for r in results[:4]:
        samples.append({'scenario': r['name'], 'obligations': [o['label'] for o in r['oblig']][:8]})
    slow = sorted(((r.get('wall', 0), r['name']) for r in results), reverse=True)[:3]
    nblocks = sum(local.values())
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': n, 'discharged': ok, 'undecided': len(undecided), 'undecided_list': undecided[:60],
            'known_findings': sorted(findings),
            'checker_cmd': 'python3 -m sa.run %s' % prop,
            'trusted_base': TRUSTED,
            'scenarios': len(results),
            'functions_analysed': len(local), 'blocks_analysed': nblocks,
            'functions': sorted(local),
            'unresolved_calls': unknown,
            'statements_interpreted': sum(r.get('steps', 0) for r in results),
            'bdd_nodes': sum(r.get('nodes', 0) for r in results),
            'floats_compared_exactly': sum(r.get('exact_floats', 0) for r in results),
            'rule': props_rule(prop),
            'samples': samples,
        },
        'assumptions': props_assume(prop),
        'wall_s': round(wall, 2),
        'violations': len(viol),
    }
    fin = importlib.import_module('sa.props').FINISH.get(prop)
    if fin:
        ev['coverage'].update(fin(WORLD, results))
    path = os.path.join(EVID, prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(path + '.tmp', path)
    print('%s: %d obligations in %d scenarios, %d discharged, %d undecided, %d violated; %d functions, %d blocks; export %.1f s, total %.1f s'
          % (prop, n, len(results), ok, len(undecided), len(viol), len(local), nblocks, texport, wall))
    if verbose or undecided:
        for u in undecided[:20 if not verbose else 200]:
            print('UNDECIDED %s' % u)
    if unknown and (verbose or undecided):
        print('UNRESOLVED CALLS %s' % unknown)
    if verbose:
        for r in results:
            print('  %-40s %-10s %6.2f s %7d nodes %4d obligations' % (r['name'], r['status'], r['wall'], r.get('nodes', 0), len(r['oblig'])))
            if r.get('trace'):
                print(r['trace'])
    for k in sorted(findings):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, findings[k]))
    if viol:
        rp = os.path.join(EVID, 'replay-%s.txt' % prop)
        with open(rp, 'w') as f:
            f.write('property %s\n' % prop)
            for name, label, info, wit in viol:
                f.write('\nscenario: %s\nobligation: %s\n%s\n' % (name, label, info))
                for w in wit or ():
                    f.write('  input: %r\n' % w)
                f.write('  again: cd /verif && python3 -m sa.run %s --scenario %s -v\n' % (prop, name))
        for name, label, info, wit in viol[:10]:
            print(('  %s / %s: %s; input %s' % (name, label, info, wit))[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


def props_rule(prop):
    props = importlib.import_module('sa.props')
    return props.RULES.get(prop, '')


def props_assume(prop):
    props = importlib.import_module('sa.props')
    return props.ASSUME.get(prop, [])


if __name__ == '__main__':
    if sys.argv[1] == 'setup':
        build_driver()
        os.makedirs(BUILD, exist_ok=True)
        export_mir(os.path.join(BUILD, 'mir-setup.json'))
        os.unlink(os.path.join(BUILD, 'mir-setup.json'))
        sys.exit(0)
    sys.exit(main(sys.argv[1:]))

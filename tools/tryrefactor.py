"""Applies groups of behaviour-preserving edits to a scratch copy and runs every claimed check: all have to stay quiet.

usage: python3 tools/tryrefactor.py [GROUP ...]      (CHECKS="P01 P02": only those)
"""
import json, os, runpy, subprocess, sys
W = os.environ.get('WORK', '/tmp/refwork') + '/repo'
def sh(c, cwd='/', **kw):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
groups = runpy.run_path(os.environ.get('SPEC', '/verif/tools/refactors.py'))['GROUPS']
base = json.load(open('/opt/vp/BASELINE.json'))
checks = os.environ.get('CHECKS', '').split() or [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
for name in sys.argv[1:] or groups:
    sh('mkdir -p ' + W + '; find ' + W + ' -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {} + ; cd /repo && cp -a $(ls -A | grep -v "^target$") ' + W + '/')
    bad = False
    for f, old, new in groups[name]:
        s = open(W + '/' + f).read()
        if s.count(old) < 1:
            print(name, 'NOT FOUND', f, old[:70]); bad = True; continue
        open(W + '/' + f, 'w').write(s.replace(old, new))
    if bad:
        continue
    r = sh('cargo test --offline 2>&1 | tail -60', W)
    if 'FAILED' in r.stdout or 'error' in r.stdout.lower().replace('0 failed', '').replace('error::', '') and 'test result: ok' not in r.stdout:
        print(name, 'BUILD/TEST', r.stdout[-3000:]); continue
    if os.environ.get('BUILD'):
        print(name, 'builds', r.stdout[-200:]); continue
    mir = W + '/../%s.json' % name
    env = dict(os.environ, NMEA_REPO=W)
    r = sh("python3 -c \"from sa import run; run.export_mir('%s')\"" % mir, '/verif', env=env)
    if not os.path.exists(mir):
        print(name, 'EXPORT', r.stdout[-2000:]); continue
    env['NMEA_MIR'] = mir; env['NMEA_EVIDENCE'] = W + '/../evidence'
    for c in checks:
        try:
            r = sh('python3 -m sa.run %s' % c, '/verif', env=env, timeout=1500)
            rc, o = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            rc, o = 'timeout', ''
        ev = json.load(open(W + '/../evidence/%s.json' % c))
        und = ev.get('coverage', {}).get('undecided', '?')
        open(W + '/../out.%s.%s' % (name, c), 'w').write(o)
        if rc != 0 or und != 0:
            print(name, c, 'rc', rc, 'undecided', und, 'of', ev['coverage'].get('obligations'), 'wall', ev.get('wall_s'), flush=True)
    os.remove(mir)
    print(name, 'done', flush=True)

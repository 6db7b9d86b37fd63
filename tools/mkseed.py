"""Make and validate planted bugs:  python3 tools/mkseed.py specs.py [ID ...]

specs.py defines SEEDS = {id: dict(property=..., edits=[(file, old, new)], needs=..., breaks=..., demo=rust statements)}.
Everything happens in a scratch copy of /repo; a bug is kept only when it builds, the tests pass, and the demo tells it apart.
"""
import json, os, shutil, subprocess, sys, runpy
DEMO = '''#!/bin/bash
# cwd: the repository.  Exit 0 when it behaves, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf -- "$d"' EXIT
mkdir -p "$d/src" && cp "$here/main.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
nmea-parser = { path = "$repo" }
chrono = "*"
T
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo run --offline -q
'''
PRE = '''#![allow(unused)]
use nmea_parser::*;
use nmea_parser::ais::*;
use nmea_parser::gnss::*;
use chrono::prelude::*;

/// Payload characters of a bit string ("0101..."), padded with zeros.
fn armor(bits: &str) -> String {
    let mut b: Vec<u8> = bits.bytes().filter(|c| *c == b'0' || *c == b'1').map(|c| c - b'0').collect();
    while b.len() % 6 != 0 { b.push(0); }
    b.chunks(6).map(|c| { let v = c.iter().fold(0u8, |a, x| a * 2 + x); (if v < 40 { v + 48 } else { v + 56 }) as char }).collect()
}
/// Unsigned value as n bits.
fn u(v: i64, n: usize) -> String { (0..n).rev().map(|i| if (v >> i.min(63)) & 1 == 1 { '1' } else { '0' }).collect() }
fn vdm(bits: &str) -> String { format!("!AIVDM,1,1,,A,{},0", armor(bits)) }
fn sum(s: &str) -> String { format!("{}*{:02X}", s, s.bytes().skip(1).fold(0, |a, b| a ^ b)) }

fn main() {
'''
def sh(c, cwd):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
specs = runpy.run_path(sys.argv[1])['SEEDS']
base = json.load(open('/opt/vp/BASELINE.json'))
W = '/tmp/seedwork/repo'
for i in (sys.argv[2:] or specs):
    s = specs[i]
    out = '/verif/seeded/' + i
    os.makedirs('/tmp/seedwork', exist_ok=True)
    sh('mkdir -p /tmp/seedwork/repo && rsync -a --delete --exclude target /repo/ /tmp/seedwork/repo/ 2>/dev/null || (find /tmp/seedwork/repo -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {} + ; cd /repo && cp -a $(ls -A | grep -v "^target$") /tmp/seedwork/repo/)', '/')
    ok = True
    os.makedirs(out, exist_ok=True)
    open(out + '/main.rs', 'w').write(PRE + s['demo'] + '\n}\n')
    open(out + '/demo.sh', 'w').write(DEMO)
    os.chmod(out + '/demo.sh', 0o755)
    r0 = sh('bash %s/demo.sh' % out, W)
    for f, old, new in s['edits']:
        p = W + '/' + f
        t = open(p).read()
        if t.count(old) != 1:
            print(i, 'EDIT', f, t.count(old), repr(old[:60])); ok = False; break
        open(p, 'w').write(t.replace(old, new))
    if not ok:
        shutil.rmtree(out); continue
    d = sh('git diff', W).stdout
    open(out + '/patch.diff', 'w').write(d)
    t = sh('. /opt/vp/env.sh; cargo test --workspace --offline -- --test-threads 8 2>&1', W)
    failed = t.returncode != 0 or 'error' in t.stdout.split('running')[0] and 'could not compile' in t.stdout
    r1 = sh('bash %s/demo.sh' % out, W)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    if failed or r0.returncode != 0 or r1.returncode == 0 or 'could not compile' in r1.stdout:
        print(i, 'REJECTED tests', 'FAIL' if failed else 'ok', 'demo clean', r0.returncode, 'demo bug', r1.returncode)
        print((t.stdout[-1500:] if failed else ''), r0.stdout[-1500:] if r0.returncode else '', r1.stdout[-800:] if r1.returncode==0 or 'could not compile' in r1.stdout else '')
        shutil.rmtree(out)
    else:
        print(i, 'kept;', [l for l in r1.stdout.splitlines() if 'panicked' in l or 'left' in l or 'right' in l][:3])

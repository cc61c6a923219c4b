#!/usr/bin/env python3
"""mkseed.py ID...: makes /verif/seeded/ID from tools/seeds/ID.py, after trying it in a scratch copy of /repo.

A seed file defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], MAIN (the demonstration)."""
import json, os, re, runpy, shutil, subprocess, sys
W = '/tmp/seedwork'
ENV = dict(os.environ, PATH='/root/.cargo/bin:/usr/local/cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=W + '/target', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')
here = os.path.dirname(os.path.abspath(__file__))

def sh(cmd, **k):
    return subprocess.run(cmd, cwd=W, env=ENV, capture_output=True, text=True, **k)

def tests():
    r = sh(['cargo', 'test', '--workspace', '--offline'])
    ok = sorted(re.findall(r'^test (\S+) \.\.\. ok', r.stdout, re.M))
    return r.returncode, len(ok), (r.stdout + r.stderr)[-2500:]

def fresh():
    if not os.path.isdir(W):
        subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
        shutil.copy('/repo/Cargo.lock', W)
    subprocess.run(['git', '-C', W, 'fetch', '-q'], check=True)
    subprocess.run(['git', '-C', W, 'reset', '-q', '--hard', 'origin/HEAD'], check=True)

def main(ids):
    fresh()
    n0 = None
    for i in ids:
        s = runpy.run_path(f'{here}/seeds/{i}.py')
        fresh()
        if n0 is None:
            rc, n0, log = tests()
            assert rc == 0, log
        bad = False
        for f, old, new in s['EDITS']:
            t = open(f'{W}/{f}').read()
            if t.count(old) != 1:
                print(i, 'EDIT', f, t.count(old), repr(old[:60])); bad = True; break
            open(f'{W}/{f}', 'w').write(t.replace(old, new))
        if bad: continue
        patch = sh(['git', 'diff']).stdout
        d = f'/verif/seeded/{i}'
        tmp = f'/tmp/seedout/{i}'
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        for f in ('common.rs', 'demo.sh'): shutil.copy(f'{here}/seedlib/{f}', tmp)
        open(tmp + '/main.rs', 'w').write(s['MAIN'])
        open(tmp + '/patch.diff', 'w').write(patch)
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(tmp + '/meta.json', 'w'), indent=1)
        rc, n, log = tests()
        if rc or n != n0:
            print(i, 'TESTS', rc, n, n0, log); continue
        rp = sh([tmp + '/demo.sh'], timeout=300)
        fresh()
        rcl = sh([tmp + '/demo.sh'], timeout=300)
        if rcl.returncode != 0 or rp.returncode in (0, 9):
            print(i, 'DEMO clean', rcl.returncode, rcl.stdout[-1500:], rcl.stderr[-500:], '\n   patched', rp.returncode, rp.stdout[-1500:], rp.stderr[-500:]); continue
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
        print(i, 'KEPT', 'patched exit', rp.returncode, rp.stdout.strip().splitlines()[-1:] , flush=True)

main(sys.argv[1:])

#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from the definitions in seeds_*.py, keeping only a
planted bug that builds, passes the stable tests, and whose demonstration
passes without it and fails with it.  usage: mkseed.py [id...]"""
import glob, json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(os.path.dirname(here)), 'seeded')
W = '/tmp/seedrepo'

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def load():
    seeds = {}
    for f in sorted(glob.glob(here + '/seeds_*.py')):
        ns = {'here': here}
        exec(open(f).read(), ns)
        for s in ns['SEEDS']:
            assert s['id'] not in seeds, s['id']
            seeds[s['id']] = s
    return seeds

def main():
    seeds = load()
    ids = sys.argv[1:] or list(seeds)
    if os.path.exists(W):
        shutil.rmtree(W)
    sh(f'cp -a /repo {W}; rm -rf {W}/_build')
    setup = ('meson setup _build --buildtype=debugoptimized --wrap-mode=nodownload -Dwerror=false '
             '-Dlibseat-logind=systemd -Dlibseat-seatd=enabled -Dlibseat-builtin=enabled '
             '-Dserver=enabled -Dexamples=enabled -Dman-pages=enabled && ninja -C _build')
    r = sh(setup, cwd=W)
    assert r.returncode == 0, r.stdout + r.stderr
    for i in ids:
        s = seeds[i]
        sh('git checkout -- .', cwd=W)
        d = f'{OUT}/{i}'
        tmp = f'/tmp/seed_{i}'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        for f in s.get('files', ['world.h', 'demo.sh']):
            dst = 'demo.sh' if f.startswith('demo') and f.endswith('.sh') else f
            shutil.copy(f'{here}/{f}', f'{tmp}/{dst}')
        for name, text in s.get('write', {}).items():
            open(f'{tmp}/{name}', 'w').write(text)
        if 'demo' in s:
            pre = s.get('pre', '#include "world.h"\n')
            open(f'{tmp}/demo.c', 'w').write(pre + s['demo'].lstrip('\n'))
        os.chmod(f'{tmp}/demo.sh', 0o755)
        r = sh(f'sh {tmp}/demo.sh', cwd=W)
        if r.returncode != 0:
            print(i, 'REJECTED: demo fails on unchanged tree\n', r.stdout[-1500:], r.stderr[-1500:]); continue
        ok = True
        for f, a, b in s['edits']:
            t = open(f'{W}/{f}').read()
            if t.count(a) != 1:
                print(i, 'REJECTED: edit matches', t.count(a), repr(a)); ok = False; break
            open(f'{W}/{f}', 'w').write(t.replace(a, b))
        if not ok: continue
        r = sh('ninja -C _build 2>&1 && meson test -C _build --no-rebuild 2>&1', cwd=W)
        if r.returncode != 0:
            print(i, 'REJECTED: build/test\n', r.stdout[-1500:]); continue
        r = sh(f'sh {tmp}/demo.sh', cwd=W)
        if r.returncode == 0:
            print(i, 'REJECTED: demo passes with the change'); continue
        diff = sh('git diff', cwd=W).stdout
        # removed lines must be original ones
        bad = []
        for f in {e[0] for e in s['edits']}:
            added = {l.split(')')[0].split()[-1] for l in sh(f'git blame -s 1da18c3..HEAD -- {f}', cwd=W).stdout.splitlines() if not l.startswith('^')}
            for l in sh(f'git diff -U0 -- {f}', cwd=W).stdout.splitlines():
                if l.startswith('@@'):
                    a = l.split()[1][1:].split(',')
                    bad += [n for n in range(int(a[0]), int(a[0]) + (int(a[1]) if len(a) > 1 else 1)) if str(n) in added]
        if bad: print(i, 'REJECTED: touches our own lines', f, bad); continue
        open(f'{tmp}/patch.diff', 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(f'{tmp}/meta.json', 'w'), indent=1)
        shutil.rmtree(d, ignore_errors=True)
        shutil.move(tmp, d)
        print(i, 'kept:', (r.stderr.strip().splitlines() or ['?'])[-1][:120] if 'DEMO' not in r.stderr else [l for l in r.stderr.splitlines() if 'DEMO' in l or 'ERROR' in l][0][:140])
    shutil.rmtree(W, ignore_errors=True)

main()

#!/usr/bin/env python3
"""Run one property's static analysis against /repo's current source.

  python3 check.py C01            exit 0: held on everything analysed; exit 1: VIOLATION
  python3 check.py --setup        build the MIR driver, the numeric kernel and the dependency metadata
"""
import fcntl
import json
import os
import shutil
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SA_REPO', '/repo')
CACHE = os.environ.get('SA_CACHE') or os.path.join(HERE, '.cache')
DRIVER = os.path.join(HERE, 'driver', 'target', 'debug', 'mirdump')
sys.path.insert(0, os.path.join(HERE, 'sa'))


class Quit(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_driver():
    src = [os.path.join(HERE, 'driver', 'Cargo.toml')] + [os.path.join(HERE, 'driver', 'src', f) for f in os.listdir(os.path.join(HERE, 'driver', 'src'))]
    if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= max(os.path.getmtime(f) for f in src):
        return
    r = sh(['cargo', '+nightly', 'build', '--offline', '--quiet'], cwd=os.path.join(HERE, 'driver'))
    if not os.path.exists(DRIVER):
        raise Quit("cannot build the MIR driver:\n" + r.stdout)


def dump(out):
    """type-check the whole workspace and write the MIR of every body as JSON"""
    build_driver()
    sysroot = sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()
    target = os.path.join(CACHE, 'target')
    for d in ('build', '.fingerprint'):
        p = os.path.join(target, 'debug', d)
        if os.path.isdir(p):
            for n in os.listdir(p):
                if n.startswith(('protosocket', 'example')):
                    shutil.rmtree(os.path.join(p, n), ignore_errors=True)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(sysroot, 'lib'), MIRDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=DRIVER,
               CARGO_TARGET_DIR=target, CARGO_INCREMENTAL='0')
    env.pop('RUSTFLAGS', None)
    r = sh(['cargo', '+nightly', 'check', '--workspace', '--offline', '--locked'], cwd=REPO, env=env)
    if r.returncode != 0:
        raise Quit("the workspace does not type-check:\n" + r.stdout[-4000:])


def load():
    import ir
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, f'mir.{os.getpid()}')
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            dump(out)
            P = ir.Prog()
            P.load_dir(out)
        finally:
            shutil.rmtree(out, ignore_errors=True)
    return P


def known():
    p = os.path.join(HERE, 'known_findings.json')
    return [x for x in json.load(open(p)) if x.get('status') == 'known']


def main():
    pid = sys.argv[1]
    if pid == '--setup':
        load()
        import lin
        print('driver and dependency metadata built; native kernel:', 'yes' if lin.NATIVE else 'no (pure Python fallback)')
        return 0
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    import props
    try:
        P = load()
    except Quit as x:
        print(x)
        return 2
    limit = int(os.environ.get('SA_LIMIT', '600' if tier == 'quick' else '7000'))

    def late(*a):
        raise TimeoutError(f'analysis exceeded {limit} s')
    signal.signal(signal.SIGALRM, late)
    signal.alarm(limit)
    try:
        res = props.decide(pid, P, tier)
    except Exception as x:      # an analysis failure is not a verdict: say so, loudly, and record it
        res = props.Result(pid)
        for e in props.conn.Engine.made:
            props.from_engine(res, e, pid)
        res.undecided.append({'property': pid, 'key': 'analysis', 'message': f'{type(x).__name__}: {x}', 'trace': traceback.format_exc()[-3000:]})
    signal.alarm(0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    kf = {(x['property'], x['key']): x for x in known()}
    bad = []
    for v in res.violations:
        k = (pid, v['key'])
        if k in kf:
            print(f"KNOWN-FINDING: property={pid} {v['key']} ({kf[k]['what']})")
        else:
            bad.append(v)
    rp = os.path.join(HERE, 'evidence', f'replay-{pid}.json')
    if os.path.exists(rp):
        os.remove(rp)
    if bad:
        json.dump({'property': pid, 'violations': bad}, open(rp, 'w'), indent=1, default=str)
        for v in bad:
            print(f"{v.get('span')}: {v['message']} [{v['key']}]")
            print(f"VIOLATION property={pid} replay={rp}")
    for u in res.undecided:
        print(f"UNDECIDED: property={pid} {u['key']}: {u['message']}")
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': props.LEVEL.get(pid, 'proof'),
          'coverage': res.coverage(bad), 'assumptions': res.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(bad)}
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w'), indent=1, default=str)
    c = ev['coverage']
    print(f"{pid}: {c['obligations']} obligations, {c['discharged']} discharged, {c.get('functions', 0)} functions, {len(bad)} violations, {len(res.undecided)} undecided, {ev['wall_s']} s")
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())

"""The executable form of the contracts, run against the real crate: built natively with the
JavaScript host replaced (../stubs), on random, boundary-biased cases."""
import json
import os
import re
import time

from . import run

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, '.build')
TOOLCHAIN = '1.97.0'
# Groups of hooks (../hooks); a contract names those that it needs.
ALL = ('arc', 'arcst', 'clock', 'clockst', 'driver', 'heap', 'interval', 'ms', 'parts', 'state', 'timer', 'wheel')


def env(hooks):
    e = dict(os.environ)
    for k in ('RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    flags = ['-Awarnings']
    if hooks:
        flags.append('--cfg wasmtimer_verif')
        flags += ['--cfg vh_' + h for h in hooks]
        e['WASMTIMER_VERIF_DIR'] = os.path.join(VERIF, 'hooks')
    e['RUSTFLAGS'] = ' '.join(flags)
    return e


def tag(hooks, tu):
    return ('all' if tuple(sorted(hooks)) == ALL else '-'.join(sorted(hooks) or ['pub'])) + ('-tu' if tu else '')


def build(hooks, tu, timeout=400):
    """The path of the binary, or None and why not."""
    e = env(hooks)
    e['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
    target = os.path.join(BUILD, 'native-' + tag(hooks, tu))
    cmd = ['cargo', 'build', '--offline', '--locked', '--target-dir', target]
    if tu:
        cmd += ['--features', 'tu']
    r = run.run(cmd, timeout, cwd=os.path.join(VERIF, 'contract'), env=e)
    if r.rc != 0:
        return None, r.text[-4000:]
    return os.path.join(target, 'debug', 'contract'), r.secs


def build_wasm(hooks, tu, timeout=400):
    """The executable contracts as a module for the real target, whose usize has 32 bits."""
    e = env(hooks)
    e['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
    target = os.path.join(BUILD, 'wasm-' + tag(hooks, tu))
    cmd = ['cargo', 'rustc', '--offline', '--locked', '--lib', '--crate-type', 'cdylib', '--target', 'wasm32-unknown-unknown',
           '--target-dir', target]
    if tu:
        cmd += ['--features', 'tu']
    r = run.run(cmd, timeout, cwd=os.path.join(VERIF, 'contract'), env=e)
    if r.rc != 0:
        return None, r.text[-4000:]
    return os.path.join(target, 'wasm32-unknown-unknown', 'debug', 'contract.wasm'), r.secs


def search_wasm(module, contract, seed, secs, out_prefix):
    """Runs the contract under node."""
    out = out_prefix + '-wasm32.txt'
    if os.path.exists(out):
        os.unlink(out)
    cmd = ['node', os.path.join(VERIF, 'contract', 'wasm.js'), module]
    r = run.run(cmd + ['search', contract, str(seed), str(secs), out], secs + 60, gb=64)
    if r.rc == 1 and os.path.exists(out) and run.run(cmd + ['replay', out], 60, gb=64).rc == 1:
        return None, [(out, open(out).read())]
    m = re.search(r'^\{.*\}$', r.out, re.M)
    if r.rc != 0 or not m:
        return None, ['no result under node: rc %s %s' % (r.rc, r.text[-500:])]
    s = json.loads(m.group(0))
    s['samples'] = [s.pop('sample')]
    s.update(workers=1, secs=secs, target='wasm32 (32-bit usize), node')
    return s, []


def replay(binary, path, timeout=60):
    """What the recorded case violates, or None."""
    r = run.run([binary, 'replay', path], timeout, gb=8)
    return r.out if r.rc == 1 else None


def search(binary, contract, seed, secs, workers, out_prefix):
    """Runs the contract; returns statistics and the replay files of violations."""
    procs = []
    t0 = time.time()
    for w in range(workers):
        out = '%s-%d.txt' % (out_prefix, w)
        if os.path.exists(out):
            os.unlink(out)
        cmd = [binary, 'search', contract, '--seed', str(seed * 1000 + w), '--secs', str(secs), '--out', out]
        procs.append((w, out, run.start(cmd, gb=8)))
    stats = {'contract': contract, 'evaluations': 0, 'skipped': 0, 'distinct_nontrivial': 0, 'samples': [], 'workers': workers}
    found, trouble = [], []
    for w, out, p in procs:
        r = run.finish(p, max(1, secs + 90 - (time.time() - t0)))
        hang = re.search(r'^HANG (\d+)', r.out, re.M)
        if r.rc == 3 and hang or r.rc < 0 and not r.timed_out:
            # A case that did not end, or that ended its process: find it, each in a process of its own.
            cmd = [binary, 'search', contract, '--seed', str(seed * 1000 + w), '--secs', '40', '--fork', '--out', out]
            cmd += ['--start', hang.group(1), '--max', '1'] if hang else []
            r = run.run(cmd, 120, gb=8)
        if r.rc == 1 and os.path.exists(out):
            found.append((out, open(out).read()))
        elif r.rc == 0:
            m = re.search(r'^\{.*\}$', r.out, re.M)
            s = json.loads(m.group(0))
            for k in ('evaluations', 'skipped', 'distinct_nontrivial'):
                stats[k] += s[k]
            if s['sample'] and len(stats['samples']) < 2:
                stats['samples'].append(s['sample'][:700])
        else:
            trouble.append('worker %d: rc %s %s' % (w, r.rc, r.text[-500:]))
    stats['secs'] = round(time.time() - t0, 1)
    if trouble:
        stats['trouble'] = trouble
    return stats, found

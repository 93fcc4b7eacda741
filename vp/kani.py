"""Harnesses over full-domain symbolic inputs, decided by Kani (CBMC) on the real crate."""
import os
import re
import subprocess
import time

from . import native, run


def env(hooks):
    e = native.env(hooks)
    e.pop('RUSTUP_TOOLCHAIN', None)
    return e


def target(hooks, tu):
    return os.path.join(native.BUILD, 'kani-' + native.tag(hooks, tu))


def base(hooks, tu):
    cmd = ['cargo', 'kani', '--lib', '--target-dir', target(hooks, tu), '-Z', 'unstable-options', '-Z', 'stubbing']
    if tu:
        cmd += ['--features', 'tu']
    return cmd


def verify(harnesses, hooks, tu, limit, timeout, jobs=6):
    """[{name, status: discharged|failed|unknown, detail, checks, secs}], the command"""
    cmd = base(hooks, tu) + ['--harness-timeout', '%ds' % limit, '-j', str(jobs), '--output-format', 'terse', '--exact']
    for h in harnesses:
        cmd += ['--harness', h['harness']]
    r = run.run(cmd, timeout, cwd=os.path.join(native.VERIF, 'contract'), env=env(hooks))
    res = {}
    text = r.text
    # With -j, each harness runs in a thread of its own, named at the start of its output.
    current, blocks, th = {}, {}, None
    for line in r.out.splitlines():
        m = re.match(r'^Thread (\d+): ?(.*)$', line)
        if m:
            th, line = m.group(1), m.group(2)
        c = re.match(r'Checking harness (\S+?)\.\.\.', line)
        if c:
            current[th] = c.group(1)
            blocks.setdefault(c.group(1), [])
        elif line.startswith('Manual Harness Summary') or line.startswith('Complete - '):
            th = ''
        elif th in current:
            blocks[current[th]].append(line)
    for h in harnesses:
        block = '\n'.join(blocks.get(h['harness'], []))
        res[h['harness']] = classify(h, block, text)
    return [res[h['harness']] for h in harnesses], ' '.join(cmd), text, r


def classify(h, block, text):
    out = {'name': 'kani:' + h['harness'], 'functions': h.get('functions', []), 'backend': 'Kani 0.68 / CBMC 6.11', 'secs': None}
    m = re.search(r'Verification Time: ([\d.]+)s', block)
    if m:
        out['secs'] = round(float(m.group(1)), 1)
    m = re.search(r'\*\* (\d+) of (\d+) failed', block)
    if m:
        out['checks'] = int(m.group(2))
    if h.get('must_panic'):
        ok = 'VERIFICATION:- SUCCESSFUL' in block
        cover = re.search(r'\*\* (\d+) of (\d+) cover properties satisfied', block)
        sat, total = (int(cover.group(1)), int(cover.group(2))) if cover else (0, 0)
        # Two covers: the precondition can be met (it must), and the call returns (it must not).
        if ok and total == 2 and sat == 1:
            out['status'] = 'discharged'
        elif ok and total == 2 and sat == 2 or 'encountered no panics' in block:
            out['status'], out['detail'] = 'failed', 'returns where it must panic'
        else:
            out['status'], out['detail'] = 'unknown', 'no verdict: ' + block[-300:]
        return out
    if 'VERIFICATION:- SUCCESSFUL' in block:
        cover = re.search(r'\*\* (\d+) of (\d+) cover properties satisfied', block)
        if cover and cover.group(1) != cover.group(2):
            out['status'], out['detail'] = 'unknown', 'vacuous: a cover is not reachable'
        else:
            out['status'] = 'discharged'
    elif 'VERIFICATION:- FAILED' in block:
        fails = re.findall(r'Failed Checks: (.*)', block)
        soft = ('unwinding assertion', 'is not currently supported by Kani', 'not supported', 'call to foreign')
        hard = [f for f in fails if not any(s in f for s in soft)]
        if 'CBMC timed out' in block or 'CBMC failed' in block or 'out of memory' in block or not fails:
            out['status'], out['detail'] = 'unknown', 'no verdict: ' + block[-300:]
        elif len(hard) < len(fails):
            out['status'], out['detail'] = 'unknown', 'bound or unsupported construct: ' + '; '.join(fails)[:300]
        else:
            out['status'], out['detail'] = 'failed', '; '.join(hard)[:600]
    else:
        out['status'], out['detail'] = 'unknown', 'no verdict: ' + (block or text)[-600:]
    return out


def playback(harness, hooks, tu, timeout):
    """The choices of a failing execution, as the verifier gives them."""
    cmd = base(hooks, tu) + ['-Z', 'concrete-playback', '--concrete-playback=print', '--exact', '--harness', harness]
    r = run.run(cmd, timeout, cwd=os.path.join(native.VERIF, 'contract'), env=env(hooks))
    cases = []
    for m in re.finditer(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', r.text, re.S):
        values = []
        for v in re.finditer(r'^\s*vec!\[([\d, ]*)\]', m.group(1), re.M):
            b = bytes(int(x) for x in v.group(1).split(',') if x.strip())
            values.append(int.from_bytes(b, 'little'))
        cases.append(values)
    return cases, r.text

"""Contracts woven into the repository's code and discharged by Verus."""
import json
import os
import re

from . import native, run, weave

PROOFS = os.path.join(native.VERIF, 'proofs')
BACKEND = 'Verus 0.2026.09.13 / Z3'
# Failures that mean that an obligation does not hold; anything else is no verdict.
FAILED = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
          'possible arithmetic underflow/overflow', 'possible division by zero', 'decreases not satisfied',
          'precondition not met', 'unable to prove', 'possible bit shift', 'assert_by_contradiction', 'loop invariant')
UNDECIDED = ('Resource limit (rlimit) exceeded', 'rlimit', 'timed out')


def read(file):
    with open(os.path.join('/repo', file)) as f:
        return f.read()


def verify(unit, check=None, timeout=None):
    """(obligations, command, notes)"""
    path = os.path.join(PROOFS, unit.get('contracts', unit['name']) + '.vc')
    files = ', '.join(unit.get('files', []))
    base = {'backend': BACKEND, 'kind': 'proved', 'secs': None}

    def undecided(why):
        return [dict(base, name='verus:%s' % unit['name'], functions=[], status='unknown', detail=why)], \
            'verus (nothing run)', ['verus unit %s: no verdict, the bounded stand-in decides: %s' % (unit['name'], why[:600])]

    try:
        c = weave.read_contracts(path)
        w = weave.weave(c, read, unit.get('features', ('tokio', 'tokio-util', 'serde')))
    except weave.Lost as l:
        return undecided('lost anchor: %s' % l)
    except (IndexError, StopIteration, OSError) as e:
        return undecided('the source cannot be read: %r' % e)
    os.makedirs(native.BUILD, exist_ok=True)
    src = os.path.join(native.BUILD, 'verus_%s.rs' % unit['name'])
    source = w.source
    for a, b in unit.get('subst', ()):
        source = source.replace(a, b)
    with open(src, 'w') as f:
        f.write(source)
    cmd = ['verus', src, '--output-json', '--time-expanded', '--multiple-errors', '5', '--num-threads', '4'] + [o for o in c['options'] if o.split()[0] not in ('expand', 'public', 'unfor', 'unnest', 'calls', 'world', 'addassign', 'awaited')]
    if 'rlimit' in unit:
        cmd += ['--rlimit', str(unit['rlimit'])]
    r = run.run(cmd, timeout or unit.get('timeout', 300))
    if r.timed_out:
        return undecided('timed out after %d s' % r.secs)
    return results(unit, w, c, r, ' '.join(cmd), base, undecided, check and check.prop)


def belongs(tags, prop):
    return not tags or prop is None or prop in tags


def results(unit, w, c, r, cmd, base, undecided, prop):
    # A clause tagged `// [Cxx]` is an obligation of those properties; any other, of those its function has a clause for.
    tagged = {n: set(re.findall(r'\[(C\d\d)\]', l.split('//', 1)[1])) for n, l in enumerate(w.source.split('\n'), 1) if '// [C' in l}
    try:
        out = json.loads(r.out[r.out.index('{'):])
        res = out['verification-results']
    except (ValueError, KeyError):
        return undecided('verus gives no result: ' + r.text[-800:])
    errors = []
    for block in re.split(r'\n(?=error|note|warning)', '\n' + r.err):
        m = re.match(r'\n?error(?:\[E\d+\])?: (.*)', block)
        if not m or m.group(1).startswith('aborting due to'):
            continue
        at = re.findall(r'(?:-->|:::) \S+?:(\d+):', block)
        lines = [int(x) for x in at] + [int(x) for x in re.findall(r'^\s*(\d+)\s*\|', block, re.M)]
        errors.append((m.group(1), int(at[0]) if at else 0, lines, block))
    if res.get('encountered-vir-error') or (errors and res.get('verified', 0) == 0 and not any(
            any(k in e[0] for k in FAILED) for e in errors)):
        return undecided('not accepted by Verus: ' + '; '.join('%s (line %d)' % (e[0], e[1]) for e in errors[:4]) + r.err[-300:])
    times = {}
    try:
        for m in out['times-ms']['smt']['smt-run-module-times']:
            for f in m.get('function-breakdown', []):
                times[f['function'].split('::', 1)[-1]] = f
    except (KeyError, TypeError):
        pass
    obs = {}
    for first, last, name, kind in w.fns:
        if kind == 'plain':
            continue
        o = dict(base, name='verus:%s:%s' % (unit['name'], name), functions=['%s: %s' % (w.where.get(name, unit['name']), name)],
                 status='discharged', count=1)
        if kind in ('trusted', 'assumed'):
            o = None
        obs[name] = (first, last, o)
    other = dict(base, name='verus:%s:lemmas' % unit['name'], functions=[], status='discharged', count=0)
    bad = 0
    for msg, line, lines, block in errors:
        hit = None
        for name, (first, last, o) in obs.items():
            if o and first <= line <= last:
                hit = o
        if hit is None:
            for name, (first, last, o) in obs.items():
                if o and any(first <= l <= last for l in lines):
                    hit = o
                    break
        tags = set().union(*[tagged.get(l, set()) for l in lines])
        if not tags and hit:
            first, last = next((f, l) for f, l, o in obs.values() if o is hit)
            tags = set().union(*[t for n, t in tagged.items() if first <= n <= last])
        hit = hit or other
        status = 'failed' if any(k in msg for k in FAILED) else 'unknown'
        if unit.get('relied'):
            status = 'unknown'
            block = 'a contract relied on is not discharged: ' + block.strip()
        if not belongs(tags, prop):
            status = 'unknown'
            block = 'not an obligation of %s but of %s: %s' % (prop, ', '.join(sorted(tags)), block.strip())
        if hit['status'] != 'failed':
            hit['status'] = status
        hit['detail'] = (hit.get('detail', '') + block.strip()[:1200] + '\n')[:4000]
        bad += 1
    done = [o for _, _, o in obs.values() if o]
    other['count'] = max(0, res.get('verified', 0) + res.get('errors', 0) - len(done))
    new = [n for _, _, n, kind in w.fns if kind == 'plain' and n not in c.get('plain', [])]
    if new:
        # A function without a contract says nothing to its callers: that is no verdict on them.
        for o in done + [other]:
            if o['status'] == 'failed':
                o['status'] = 'unknown'
                o['detail'] = 'no contract for %s\n%s' % (', '.join(new), o.get('detail', ''))
    secs = 0
    try:
        secs = out['times-ms']['smt']['total'] / 1000
    except (KeyError, TypeError):
        pass
    all_obs = done + ([other] if other['count'] or other['status'] != 'discharged' else [])
    if all_obs:
        all_obs[0]['secs'] = round(secs, 1)
    trusted = trust(w, c)
    if all_obs:
        all_obs[0]['trusted'] = trusted + ['weaving of %s: %s' % (unit['name'], d) for d in w.drops]
    return all_obs, cmd, []


def trust(w, c):
    """A mechanical scan for whatever is assumed rather than proved."""
    out = ['contracts of the unit %s, which it discharges' % u for u in c.get('units', [])]
    src = w.source.split('\n')
    for first, last, _, kind in w.fns:
        if kind == 'assumed':
            src[first - 1:last] = [''] * (last - first + 1)
    src = '\n'.join(src).replace('#[verifier::external_body] /*assumed*/', '')
    for m in re.finditer(r'assume_specification\s*(?:<[^\[]*>)?\s*\[\s*(.*?)\s*\]', src):
        out.append('assumed contract on %s' % m.group(1))
    for m in re.finditer(r'(external_body|external_fn_specification|external_type_specification|external)\)?\]\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([a-z]+\))? )?(?:broadcast )?(?:proof |uninterp |closed |open )*(?:fn|struct|enum|trait|impl)\s*(\S+)', src):
        out.append('%s: %s' % (m.group(1), m.group(2)))
    for m in re.finditer(r'\b(assume|admit)\s*\(', src):
        out.append('%s(...)' % m.group(1))
    for m in re.finditer(r'axiom fn (\w+)', src):
        out.append('axiom %s' % m.group(1))
    return sorted(set(out))

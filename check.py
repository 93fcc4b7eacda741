#!/usr/bin/env python3
"""python3 check.py PROPERTY [quick|thorough]: decides one property of /repo's working tree.

Exit status 0: held; 1: violated, with a line "VIOLATION property=<id> replay=<path>"."""
import json
import os
import shutil
import sys
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import kani, native
from vp.props import PROPS

VERIF = os.path.dirname(os.path.abspath(__file__))
LEVEL = {'proof': 'proof'}


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.cfg = PROPS[prop]
        self.t0 = time.time()
        self.obligations = []
        self.searches = []
        self.notes = []
        self.found = []
        self.commands = []
        self.binaries = {}
        self.guard = threading.Lock()
        self.locks = {}
        self.replays = os.path.join(VERIF, 'replays')
        os.makedirs(self.replays, exist_ok=True)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        for f in os.listdir(self.replays):
            if f.startswith(prop + '-'):
                os.unlink(os.path.join(self.replays, f))

    def thorough(self):
        return self.tier == 'thorough'

    def left(self, limit=840):
        return max(0, limit - (time.time() - self.t0))

    # --- the executable contracts ---

    def binary(self, hooks, tu):
        """The executable contracts, built with the given hooks; with all of them, if that builds, so
        that there is only one thing to build."""
        hooks = tuple(sorted(hooks))
        with self.lock(hooks, tu):
            if (hooks, tu) not in self.binaries:
                path = None
                if hooks != native.ALL:
                    path, info = self.binary(native.ALL, tu)
                if path is None:
                    path, info = native.build(hooks, tu)
                self.binaries[hooks, tu] = path, info
            return self.binaries[hooks, tu]

    def lock(self, hooks, tu):
        with self.guard:
            return self.locks.setdefault((hooks, tu), threading.Lock())

    def search(self, entry, secs, seed, workers):
        tu = entry['tu']
        hooks = entry.get('hooks', [])
        contract = entry['contract']
        binary = None
        for h in [hooks] + entry.get('alt', []):
            binary, info = self.binary(h, tu)
            if binary:
                hooks = h
                break
            self.notes.append('%s: does not build with the hooks %s: %s' % (contract, ','.join(h) or 'none', info[-600:]))
        if binary is None and hooks:
            contract = entry.get('public')
            if contract is None:
                return
            self.notes.append('fell back to the public interface: ' + contract)
            hooks = []
            binary, info = self.binary([], tu)
        if binary is None:
            self.notes.append('%s: does not build: %s' % (contract, info[-1500:]))
            return
        prefix = os.path.join(self.replays, '%s-%s%s' % (self.prop, contract, '-tu' if tu else ''))
        wasm = []

        def on_wasm():
            with self.lock(('wasm',) + tuple(hooks), tu):
                key = ('wasm',) + tuple(hooks), tu
                if key not in self.binaries:
                    self.binaries[key] = native.build_wasm(native.ALL, tu)
                    if not self.binaries[key][0] and tuple(sorted(hooks)) != native.ALL:
                        self.binaries[key] = native.build_wasm(tuple(sorted(hooks)), tu)
            module, info = self.binaries[key]
            wasm.append(native.search_wasm(module, contract, seed, secs, prefix) if module
                        else (None, ['%s: does not build for wasm32: %s' % (contract, info[-600:])]))

        t = threading.Thread(target=on_wasm)
        t.start()
        stats, found = native.search(binary, contract, seed, secs, workers, prefix)
        t.join()
        for s, more in wasm:
            if s:
                s['features'] = 'default+serde' + ('+tokio-test-util' if tu else '') + ', wasm32'
                self.searches.append(s)
            for m in more:
                if isinstance(m, tuple):
                    self.found.append(m)
                else:
                    self.notes.append(m)
        stats['features'] = 'default+serde' + ('+tokio-test-util' if tu else '')
        stats['hooks'] = list(hooks)
        self.searches.append(stats)
        for path, text in found:
            self.found.append((path, text))

    # --- the verifiers ---

    def run_kani(self):
        for hooks, tu in sorted({(tuple(h.get('hooks', [])), h.get('tu', False)) for h in self.cfg.get('kani', [])}):
            hs = [h for h in self.cfg['kani'] if (tuple(h.get('hooks', [])), h.get('tu', False)) == (hooks, tu)]
            limit = max([h.get('limit', 200) for h in hs]) * (3 if self.thorough() else 1)
            res, cmd, text, r = kani.verify(hs, hooks, tu, limit, min(self.left(700), 80 + 2 * limit))
            self.commands.append(cmd)
            for h, o in zip(hs, res):
                o['kind'] = 'bounded' if h.get('bounded') else 'proved'
                if h.get('bounded'):
                    o['bound'] = h['bounded']
                self.obligations.append(o)
                if o['status'] == 'failed':
                    self.concretise(h, o, hooks, tu)

    def concretise(self, h, o, hooks, tu):
        """Replays the verifier's counterexample against the real code."""
        binary, _ = self.binary(list(hooks), tu)
        if not binary or not h.get('contract'):
            return
        cases, _ = kani.playback(h['harness'], hooks, tu, min(200, self.left()))
        for n, values in enumerate(cases):
            path = os.path.join(self.replays, '%s-kani-%s-%d.txt' % (self.prop, h['harness'].split('::')[-1], n))
            with open(path, 'w') as f:
                f.write('contract: %s\nchoices: %s\n' % (h['contract'], ' '.join(map(str, values))))
            out = native.replay(binary, path)
            if out:
                with open(path, 'a') as f:
                    f.write('obligation: %s\n%s' % (o['name'], out))
                o['replayed'] = path
                self.found.append((path, open(path).read()))
                return

    def run_verus(self):
        if self.cfg.get('verus'):
            from vp import verus
        units = self.cfg.get('verus', [])
        got = {}
        threads = [threading.Thread(target=lambda u=u: got.update({u['name']: verus.verify(u, self)})) for u in units]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        for unit in units:
            obs, cmd, notes = got[unit['name']]
            self.obligations += obs
            self.commands.append(cmd)
            self.notes += notes

    # --- the verdict ---

    def run(self):
        cfg = self.cfg
        errors = []

        def guarded(f):
            def g():
                try:
                    f()
                except Exception:
                    errors.append(traceback.format_exc())
            return g

        def searches():
            entries = cfg.get('native', [])
            secs = (120 if self.thorough() else cfg.get('secs', 10))
            builds = [threading.Thread(target=guarded(lambda e=e: self.binary(e.get('hooks', []), e['tu']))) for e in entries]
            for t in builds:
                t.start()
            for e in entries:
                self.search(e, e.get('secs', secs) if not self.thorough() else secs, self.seed, 4)
                if self.found:
                    break
            for t in builds:
                t.join()

        threads = [threading.Thread(target=guarded(f)) for f in (searches, self.run_verus)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        if cfg.get('kani') and not self.found:
            guarded(self.run_kani)()
        failed = [o for o in self.obligations if o['status'] == 'failed' and o['kind'] == 'proved']
        if failed and not self.found:
            # Look longer for an execution that shows it.
            for e in cfg.get('native', []):
                if not self.found and self.left() > 60:
                    guarded(lambda: self.search(e, min(45, self.left() / 3), self.seed + 7919, 7))()
        self.notes += errors
        code = self.report(failed)
        for e in errors:
            sys.stderr.write(e)
        return code

    def report(self, failed):
        line = None
        if self.found:
            path, text = self.found[0]
            print(text.strip())
            line = 'VIOLATION property=%s replay=%s' % (self.prop, path)
        elif failed:
            path = os.path.join(self.replays, '%s-obligations.txt' % self.prop)
            with open(path, 'w') as f:
                for o in failed:
                    f.write('failed obligation: %s\nfunctions: %s\nback end: %s\n%s\n\n'
                            % (o['name'], ', '.join(o['functions']), o['backend'], o.get('detail', '')))
            print(open(path).read())
            line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (self.prop, path)
        self.evidence(1 if line else 0)
        for o in self.obligations:
            print('%-10s %s%s' % (o['status'], o['name'], '' if o['status'] == 'discharged' else ' -- ' + o.get('detail', '')[:300]))
        for s in self.searches:
            print('searched   %s (%s): %d cases, %d distinct and non-trivial'
                  % (s['contract'], s['features'], s['evaluations'], s['distinct_nontrivial']))
        for n in self.notes:
            print('note: ' + n[:1500])
        if line:
            print(line)
            return 1
        print('held: ' + self.prop)
        return 0

    def evidence(self, violations):
        proved = [o for o in self.obligations if o['kind'] == 'proved']
        bounded = [o for o in self.obligations if o['kind'] == 'bounded']
        count = lambda os_: sum(o.get('count', 1) for o in os_)
        done = [o for o in proved if o['status'] == 'discharged']
        functions = sorted({f for o in done for f in o['functions']})
        cov = {
            'obligations': count(proved),
            'discharged': count(done),
            'checker_cmd': ' ; '.join(self.commands) or 'none',
            'trusted_base': list(self.cfg['trusted']) + [t for o in self.obligations for t in o.get('trusted', [])],
            'functions_under_contract': functions,
            'obligation_list': [{k: v for k, v in o.items() if k not in ('trusted',)} for o in proved],
            'bounded_standins': [{k: v for k, v in o.items() if k not in ('trusted',)} for o in bounded],
            'not_discharged': [o['name'] for o in proved if o['status'] != 'discharged'],
            'solver_secs': round(sum(o['secs'] or 0 for o in self.obligations), 1),
            'evaluations': sum(s['evaluations'] for s in self.searches),
            'distinct_nontrivial': sum(s['distinct_nontrivial'] for s in self.searches),
            'rule': 'executable contract run on random, boundary-biased choices (bounded: it samples); a case is '
                    'non-trivial if its preconditions hold and the behaviour the property speaks of was reached, '
                    'and distinct by the choices it made',
            'samples': [x for s in self.searches for x in s['samples']][:4],
            'searches': [{k: v for k, v in s.items() if k != 'samples'} for s in self.searches],
        }
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.cfg.get('level', 'proof'),
            'coverage': cov, 'assumptions': self.cfg.get('assumptions', []) + self.notes,
            'wall_s': round(time.time() - self.t0, 1), 'violations': violations,
        }
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


def known(prop):
    path = os.path.join(VERIF, 'known-findings.txt')
    for line in open(path) if os.path.exists(path) else ():
        if line.startswith('property=%s ' % prop):
            print('KNOWN-FINDING: ' + line.strip())


if __name__ == '__main__':
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    known(prop)
    sys.exit(Check(prop, tier, int(os.environ.get('VERIF_SEED', '1'))).run())

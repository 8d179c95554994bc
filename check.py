#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decides one property of /repo's current source
check.py --setup                     checks that the tools work
check.py --replay FILE               runs a replay file against the real code

The harnesses of the property (harness/src) are compiled together with /repo's sources by
Kani, executed symbolically by CBMC, and a SAT solver decides every assertion for all values
within the bounds. A counterexample is replayed natively against /repo's crate (debug, release,
then under Miri); only a reproduced one is a violation.
Exit 0: held on everything explored. 1: violated. 2: no answer.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, signal
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import props
import unwind

T0 = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0')
for v in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'RUSTUP_TOOLCHAIN'):
    ENV.pop(v, None)
MEM = 9 << 30            # address space of one solver process


def run(cmd, cwd, timeout, log=None, env=None, limit=True, mem=MEM):
    """-> (exit status or None on timeout, output)"""
    out = open(log, 'w+', errors='replace') if log else tempfile.TemporaryFile('w+', errors='replace')
    lim = 'ulimit -c 0; ' + ('ulimit -v %d; ' % (mem >> 10) if limit else '')
    p = subprocess.Popen(['sh', '-c', lim + 'exec "$@"', 'sh'] + cmd, cwd=cwd, env=env or ENV, stdout=out, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        rc = p.wait(timeout=max(1, timeout))
    except subprocess.TimeoutExpired:
        rc = None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    out.flush()
    out.seek(0)
    s = out.read()
    out.close()
    return rc, s


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.home = prop, tier, HERE
        self.p = props.PROPS[prop]
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.quick = tier == 'quick'
        self.deadline = T0 + (840 if self.quick else float(os.environ.get('VP_THOROUGH_S', '870')))
        self.work = tempfile.mkdtemp(prefix='vp-%s-' % prop)
        shutil.copytree(os.path.join(HERE, 'harness'), os.path.join(self.work, 'h'),
                        ignore=shutil.ignore_patterns('target'))
        self.crate = os.path.join(self.work, 'h', self.p['crate'])       # what Kani compiles
        # natively: the real crate with the real std, or (D05) with the std that counts
        self.native = os.path.join(self.work, 'h', self.p.get('native', ('direct', ''))[0])
        self.notes = []
        self.built = {}

    def left(self):
        return self.deadline - time.time()

    def say(self, *a):
        print('[%6.1fs]' % (time.time() - T0), *a, flush=True)

    # -- the solver ------------------------------------------------------------------------
    def kani(self, tag, features, harnesses=(), timeout=100, total=600, jobs=8, extra=()):
        js = os.path.join(self.work, tag + '.json')
        cmd = ['cargo', 'kani', '--lib', '--output-format=terse', '-Z', 'unstable-options',
               '--no-assertion-reach-checks', '--harness-timeout', '%ds' % timeout,
               '--features', ','.join(features), '--target-dir', os.path.join(self.work, 't_' + tag)]
        if 'playback' not in tag:
            cmd += ['-j', str(jobs), '--export-json', js]
        for h in harnesses:
            cmd += ['--harness', h]
        if harnesses:
            cmd += ['--exact']
        cmd += list(extra)
        rc, out = run(cmd, self.crate, total, log=os.path.join(self.work, tag + '.log'), mem=MEM if self.quick else 14 << 30)
        res = {}
        if os.path.exists(js):
            d = json.load(open(js))
            stats = {c['harness_id']: c.get('cbmc_stats') or {} for c in d.get('cbmc', [])}
            for r in d['verification_results']['results']:
                r['stats'] = stats.get(r['harness_id'], {})
                res[r['harness_id']] = r
        shutil.rmtree(os.path.join(self.work, 't_' + tag), ignore_errors=True)
        return rc, out, res

    @staticmethod
    def classify(r):
        """-> (verdict, failing checks); verdict: holds, fails, unwind, unsupported, undecided, vacuous"""
        mp = r['harness_id'].endswith('_mp')
        ch = r['checks']
        if not ch:
            return 'undecided', []
        bad = [c for c in ch if c['status'] == 'Failure']
        unw = [c for c in bad if c['category'] == 'unwind' or 'unwinding assertion' in c['description']]
        uns = [c for c in bad if c['category'] == 'unsupported_construct' or 'is not currently supported by Kani' in c['description']]
        capx = [c for c in bad if 'MODEL-CAPACITY' in c['description']]
        rest = [c for c in bad if c not in unw and c not in uns and c not in capx]
        if mp:
            rest = [c for c in rest if not (c['category'] == 'assertion' and 'MUSTPANIC' not in c['description']
                                            and not c['function'].startswith('__rust'))]
        if rest:
            return 'fails', rest
        if unw:
            return 'unwind', unw
        if uns or capx:
            return 'unsupported', uns + capx
        undet = [c for c in ch if c['status'] not in ('Success', 'Unreachable', 'Satisfied', 'Unsatisfiable', 'Failure')]
        if undet:
            return 'undecided', undet
        cov = [c for c in ch if c['description'].startswith('witness')]
        if mp:
            cov = [c for c in cov if 'about to' in c['description']]
        else:
            cov = [c for c in cov if 'about to' not in c['description']]
        if not cov or any(c['status'] != 'Satisfied' for c in cov):
            return 'vacuous', cov
        return 'holds', []

    # -- the real code ---------------------------------------------------------------------
    def native_bin(self, profile):
        """builds the replay program; -> command prefix or None"""
        if profile in self.built:
            return self.built[profile]
        td = os.path.join(self.work, 'n_' + profile)
        feats = ','.join(['native', self.p.get('native', ('direct', ''))[1]]).strip(',')
        if profile == 'miri':
            env = dict(ENV, MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-ignore-leaks')
            cmd = ['cargo', '+nightly', 'miri', 'run', '-q', '--features', feats, '--target-dir', td, '--bin', 'replay', '--']
            rc, out = run(cmd + ['list'], self.native, min(240, max(30, self.left())), env=env, limit=False)
            r = (cmd, env) if rc == 0 else None
        else:
            cmd = ['cargo', 'build', '--features', feats, '--target-dir', td, '--bin', 'replay'] + (['--release'] if profile == 'release' else [])
            rc, out = run(cmd, self.native, min(240, max(30, self.left())), limit=False)
            r = ([os.path.join(td, 'release' if profile == 'release' else 'debug', 'replay')], ENV) if rc == 0 else None
        if r is None:
            self.say('native build (%s) failed:\n%s' % (profile, out[-3000:]))
        self.built[profile] = r
        return r

    def replay_file(self, harness, f, profiles=('debug', 'release', 'miri')):
        """-> (profile, message) of the first run that violates the property, or None"""
        tries = self.p.get('tries', 1)
        for pr in profiles:
            b = self.native_bin(pr)
            if not b:
                continue
            for k in range(1 if pr == 'miri' else tries):
                rc, out = run(b[0] + [harness, f], self.native, 20 if pr != 'miri' else 60, env=b[1], limit=False)
                last = (out.strip().splitlines() or [''])[-1]
                if rc is None:
                    if pr == 'miri':
                        break
                    return pr, 'does not terminate'
                if rc == 0 or rc == 77:
                    continue
                if rc == 78:
                    self.notes.append('replay of %s is misaligned' % harness)
                    break
                if rc == 1 and 'violated:' in out:
                    return pr, [l for l in out.splitlines() if 'violated:' in l][-1]
                if rc < 0 or rc == 134 or rc == 101:
                    return pr, 'crash (exit status %d): %s' % (rc, last)
                if pr == 'miri' and 'Undefined Behavior' in out:
                    return pr, [l for l in out.splitlines() if 'Undefined Behavior' in l][0]
        return None

    def counterexamples(self, full, unwind=None):
        """Kani's concrete values for the failing checks of one harness"""
        extra = ['-Z', 'concrete-playback', '--concrete-playback=print'] + (['--unwind', str(unwind)] if unwind else [])
        rc, out, _ = self.kani('playback_' + full.split('::')[-1], self.feats[full], [full], timeout=min(300, max(30, int(self.left() - 60))),
                               total=min(330, max(40, self.left() - 40)), extra=extra)
        cex = []
        for m in re.finditer(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', out, re.S):
            vals = [[int(x) for x in v.split(',') if x.strip()] for v in re.findall(r'vec!\[([0-9, ]*)\]', m[1])]
            if self.p['crate'] == 'model':
                vals = [v for v in vals if len(v) != 2]       # insertion positions of the model map
            head = out[:m.start()][-900:]
            what = re.findall(r'/// Check for [^\n]*|\* Check[^\n]*|Check \d+[^\n]*', head)
            if vals not in [c[0] for c in cex]:
                cex.append((vals, what[-1].strip() if what else ''))
        return cex

    def confirm(self, full, r, bad, unwind=None):
        """Replays counterexamples of a failed harness. -> (replay path, what) or None"""
        short = full.split('::')[-1]
        cex = self.counterexamples(full, unwind)
        self.say('%s: %d counterexample(s)' % (short, len(cex)))
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        ub = any(c['category'] not in ('assertion', 'unwind') or c['function'].startswith('__rust') for c in bad)
        for i, (vals, what) in enumerate(cex[:12]):
            f = os.path.join(d, '%s-%s-%d.txt' % (self.prop, short, i))
            with open(f, 'w') as o:
                o.write('# property %s, harness %s\n' % (self.prop, short))
                for c in bad[:8]:
                    o.write('# solver: %s in %s (%s:%s)\n' % (c['description'], c['function'], c['location'].get('file', ''), c['location'].get('line', '')))
                o.write('# values the harness asks for, in order, little endian; to run: python3 check.py --replay FILE\n')
                for v in vals:
                    o.write(''.join('%02x' % b for b in v) + '\n')
            profs = ('debug', 'release') + (('miri',) if ub and i < 3 and ('native' not in self.p or self.p.get('miri')) else ())
            hit = self.replay_file(short, f, profs)
            if hit:
                with open(f, 'a') as o:
                    o.write('# reproduced on the real code (%s build): %s\n' % hit)
                return f, hit
            os.remove(f)
            if self.left() < 30:
                break
        return None

    # -- known findings --------------------------------------------------------------------
    def known(self, short, what):
        f = os.path.join(HERE, 'known_findings.txt')
        for l in open(f) if os.path.exists(f) else []:
            m = re.match(r'known: property=(\S+) harness=(\S+) message=(.*)$', l.strip())
            if m and m[1] == self.prop and m[2] == short and m[3] in what:
                return m[3]
        return None

    # -- all together ----------------------------------------------------------------------
    def main(self):
        p = self.p
        self.features = [self.prop] + (p.get('quick', []) if self.quick else [self.prop + 't'])
        mode = dict(timeout=200, total=560) if self.quick else dict(timeout=500, total=max(300, self.left() - 150))
        more = p.get('more', []) + ([] if self.quick else p.get('more_t', []))   # features of a second run, at the same time
        with ThreadPoolExecutor(2) as ex:
            second = ex.submit(self.kani, 'more', more, jobs=3, **mode) if more else None
            rc, out, res = self.kani('main', self.features, jobs=p.get('jobs', 8), **mode)
            res2 = second.result() if second else (0, '', {})
        if more and res and not res2[2]:
            self.say(res2[1][-3000:])
            res = {}
        self.feats = dict([(h, self.features) for h in res] + [(h, more) for h in res2[2]])
        res.update(res2[2])
        if not res:
            self.say(out[-6000:])
            self.evidence({}, {}, [], 'no result from Kani')
            print('ERROR property=%s Kani gave no result (does /repo compile?)' % self.prop)
            return 2
        verdict = {h: self.classify(r) for h, r in res.items()}
        # loop bounds too small for changed code: raise them
        again = [h for h in verdict if verdict[h][0] == 'unwind']
        unwinds = {}
        for h in again[:6]:
            if self.left() < 200:
                break
            u = 2 * props.unwind_of(HERE, h.split('::')[-1]) + 2
            self.say('%s: loop bound too small, trying %d' % (h, u))
            _, _, r2 = self.kani('unw', self.feats[h], [h], timeout=min(150, max(30, int(self.left() - 100))), total=max(40, self.left() - 90), extra=['--unwind', str(u)])
            if h in r2:
                v = self.classify(r2[h])
                if v[0] != 'undecided':
                    res[h], verdict[h], unwinds[h] = r2[h], v, u
        # ran out of time or memory: once more with fewer at a time
        again = [h for h in verdict if verdict[h][0] == 'undecided']
        if again and len(again) <= 4 and self.left() > 300 and not any(v[0] == 'fails' for v in verdict.values()):
            self.say('trying again: ' + ' '.join(again))
            _, _, r2 = self.kani('again', self.feats[again[0]], [h for h in again if self.feats[h] == self.feats[again[0]]], timeout=int(self.left() - 150), total=self.left() - 140, jobs=2)
            for h in r2:
                res[h], verdict[h] = r2[h], self.classify(r2[h])
        # counterexamples
        violations, known, unconfirmed = [], [], []
        failing = sorted([h for h in verdict if verdict[h][0] in ('fails', 'unwind')], key=lambda h: (verdict[h][0], res[h]['duration_ms']))
        for h in failing:
            short = h.split('::')[-1]
            for c in verdict[h][1][:4]:
                self.say('%s: %s: %s (%s line %s)' % (short, c['category'], c['description'], c['location'].get('file', ''), c['location'].get('line', '')))
        for h in failing:
            short = h.split('::')[-1]
            if self.left() < 60:
                unconfirmed.append(short)
                continue
            hit = self.confirm(h, res[h], verdict[h][1], unwinds.get(h))
            if not hit:
                mp_overflow = short.endswith('_mp') and all('overflow' in c['description'] or 'assert' in c['category'] for c in verdict[h][1] if 'MUSTPANIC' not in c['description']) \
                    and not any('MUSTPANIC' in c['description'] for c in verdict[h][1])
                if mp_overflow:
                    # the call must panic, and does, by an overflow check or a debug assertion; not in release either did it return
                    self.notes.append('%s: overflow inside a call that must panic' % short)
                    verdict[h] = ('holds', [])
                else:
                    unconfirmed.append(short)
                continue
            k = self.known(short, hit[1][1])
            if k:
                known.append((short, k))
                continue
            violations.append((short, hit))
            break
        # random runs of the same harnesses on the real build: validates harness and model
        valid = {}
        if not violations and (p['crate'] == 'model' or not self.quick):
            b = self.native_bin('release')
            n = 150 if self.quick else 2000
            for h in verdict if b else []:
                short = h.split('::')[-1]
                rc, out = run(b[0] + [short, 'random', str(n), str(self.seed)], self.native, 20, limit=False)
                m = re.search(r'ok (\d+) rejected', out)
                if m:
                    valid[short] = int(m[1])
                elif verdict[h][0] == 'holds':
                    self.say('real build disagrees with the solver on %s: %s' % (short, out.strip()[-300:]))
                    self.notes.append('disagreement: ' + short)
        ans = {}
        for h, (v, _) in verdict.items():
            ans.setdefault(v, []).append(h.split('::')[-1])
        decided = len(ans.get('holds', []))
        und = ans.get('undecided', []) + ans.get('unsupported', []) + [s for s in unconfirmed if s not in ans.get('undecided', [])]
        for short, k in known:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, short, k))
        self.evidence(res, ans, violations, None, valid, unconfirmed, known)
        for v in ans:
            if v != 'holds':
                self.say('%s: %s' % (v, ' '.join(ans[v])))
        self.say('%d of %d harnesses hold' % (decided, len(res)))
        if violations:
            short, (f, (prof, what)) = violations[0]
            print('%s: %s (reproduced in the %s build)' % (short, what, prof))
            print('VIOLATION property=%s replay=%s' % (self.prop, f))
            return 1
        if unconfirmed:
            print('ERROR property=%s counterexample not reproduced on the real code: %s' % (self.prop, ' '.join(unconfirmed)))
            return 2
        if ans.get('vacuous') or any('disagreement' in n for n in self.notes):
            print('ERROR property=%s vacuous: %s; %s' % (self.prop, ans.get('vacuous'), self.notes))
            return 2
        if und:
            print('UNDECIDED property=%s (time, memory or unsupported code): %s' % (self.prop, ' '.join(und)))
            if decided < len(res) / 2:
                return 2
        return 0

    def evidence(self, res, ans, violations, error, valid={}, unconfirmed=[], known=[]):
        fns, st = {}, dict(symex=0.0, solver=0.0, vccs=0, remaining=0, steps=0)
        ob = dis = cov = 0
        slow = []
        for h, r in res.items():
            for c in r['checks']:
                if c['category'] == 'cover' or c['description'].startswith('witness'):
                    cov += 1
                    continue
                ob += 1
                if c['status'] in ('Success', 'Unreachable'):
                    dis += 1
                f = c['location'].get('file', '')
                if '/repo/src' in f or f.startswith('src/'):
                    fns.setdefault(re.sub(r'^.*/repo/', '', f), set()).add(c['function'])
            s = r.get('stats') or {}
            st['symex'] += s.get('runtime_symex_s') or 0
            st['solver'] += (s.get('runtime_decision_procedure_s') or 0)
            st['vccs'] += s.get('vccs_generated') or 0
            st['remaining'] += s.get('vccs_remaining') or 0
            st['steps'] += s.get('program_steps') or s.get('size_program_expression') or 0
            slow.append((r['duration_ms'] / 1000, h.split('::')[-1]))
        slow.sort(reverse=True)
        p = self.p
        e = dict(property=self.prop, tier=self.tier, seed=self.seed, level='other', coverage=dict(
            explanation='Bounded symbolic execution of the real code: Kani compiles the harnesses with /repo\'s current sources to goto programs, '
                        'CBMC executes them symbolically and a SAT solver decides every assertion for all values within the bounds. '
                        'A harness that cannot reach its end is rejected (reachability witnesses).',
            bounds=p['bounds'],
            harnesses=len(res), verdicts={k: len(v) for k, v in ans.items()},
            not_decided=ans.get('undecided', []) + ans.get('unsupported', []), unconfirmed=unconfirmed,
            loop_bounds=props.unwinds(HERE, [h.split('::')[-1] for h in res]),
            obligations=ob, discharged=dis, witnesses=cov,
            queries=dict(verification_conditions=st['vccs'], sent_to_solver=st['remaining'], program_steps=st['steps']),
            symbolic_execution_s=round(st['symex'], 1), solver_s=round(st['solver'], 2),
            functions_encoded={k: sorted(v) for k, v in sorted(fns.items())},
            traces_validated_against_impl=sum(valid.values()), harnesses_run_natively=len(valid),
            slowest=[dict(harness=n, s=t) for t, n in slow[:5]],
            samples=[dict(harness=h.split('::')[-1], verdict=self.classify(r)[0], checks=len(r['checks']), seconds=r['duration_ms'] / 1000) for h, r in list(res.items())[:8]],
            checker_cmd='cargo kani --lib -j 8 --features ' + ','.join(getattr(self, 'features', [])),
            trusted_base=['Kani 0.68 and its rustc (MIR to goto)', 'CBMC 6.11 and its SAT solver', 'harness/src (oracles)'] + p.get('trusted', []),
            notes=self.notes + ([error] if error else [])),
            assumptions=p.get('assume', []) + ['the properties hold beyond the bounds as within them is not shown',
                                               'panics abort under Kani: nothing after a panic is explored'],
            wall_s=round(time.time() - T0, 1), violations=len(violations))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(e, open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w'), indent=1)

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def check(prop, tier):
    return (unwind.make(Check, run) if props.PROPS[prop]['crate'].startswith('unwind') else Check)(prop, tier)


def setup():
    for c in (['cargo', 'kani', '--version'], ['cbmc', '--version'], ['cargo', '--version'], ['cargo', '+nightly', 'miri', '--version']):
        rc, out = run(c, HERE, 120, limit=False)
        print(' '.join(c), '->', out.strip())
        if rc != 0:
            return 1
    return 0


def replay(f):
    m = re.match(r'# property (\w+), harness (\w+)', open(f).readline())
    c = check(m[1], 'quick')
    try:
        hit = c.replay_file(m[2], os.path.abspath(f))
        print('reproduced (%s build): %s' % hit if hit else 'holds')
        return 1 if hit else 0
    finally:
        c.close()


if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        sys.exit(setup())
    if a and a[0] == '--replay':
        sys.exit(replay(a[1]))
    c = check(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'))
    try:
        rc = c.main()
    finally:
        c.close()
    sys.exit(rc)

"""Properties about what follows a panic in user code: rustc (panic=unwind, LTO) -> LLVM IR -> lib/l2c.py -> CBMC.
Everything else (replays, known findings, evidence, exit statuses) is as in check.py."""
import glob, json, os, re, time
from concurrent.futures import ThreadPoolExecutor
import l2c

SPLIT = {'s': [4, 4, 4], 'w': [3, 3, 3, 3]}       # cases made by main, by suffix of the harness (lib/l2c.py, vp_pick)
UNWIND = 6
CBMC = ['--bounds-check', '--pointer-check', '--unwinding-assertions', '--no-malloc-may-fail', '--slice-formula',
        '--sat-solver', 'cadical', '--object-bits', '11', '--json-ui', '--verbosity', '8']


def tables(src):
    def tab(n):
        b = re.search(r'%s: &\[\(u32, &str\)\] = &\[(.*?)\];' % n, src, re.S)[1]
        return {int(a): x for a, x in re.findall(r'\((\d+), "([^"]*)"\)', b)}
    return tab('CHECKS'), tab('WITNESSES')


def make(base, run):
    class Unwind(base):
        def ir(self):
            td = os.path.join(self.work, 'ir')
            rc, out = run(['cargo', '+nightly', 'rustc', '--lib', '--release', '--crate-type', 'staticlib', '--target-dir', td,
                           '--', '--emit=llvm-ir'], self.crate, 300, limit=False)
            fs = glob.glob(td + '/**/vu*.ll', recursive=True)
            if rc != 0 or not fs:
                self.say(out[-5000:])
                return None
            return l2c.Module(open(fs[0], errors='replace').read())

        def cbmc(self, h, unwind, timeout, extra=(), user=True):
            """-> list of checks in the form Kani reports them, or None if there is no answer; and statistics"""
            t = time.time()
            f = os.path.join(self.work, h + '.c')
            rc, out = run(['cbmc', f, '--unwind', str(unwind)] + [x for x in CBMC if x != '--slice-formula' or '-DVP_TRACE' not in extra or user] + list(extra), self.work, timeout, mem=(7 if self.quick else 14) << 30)
            st = dict(duration_ms=1000 * (time.time() - t))
            if rc is None:
                return None, st
            try:
                d = json.loads(out)
            except ValueError:
                return None, st
            stats, checks, traces = {}, [], []
            for m in d:
                s = m.get('messageText', '')
                for k, p in (('runtime_symex_s', r'Runtime Symex: ([\d.e-]+)s'), ('runtime_decision_procedure_s', r'Runtime decision procedure: ([\d.e-]+)s'),
                             ('vccs_generated', r'Generated (\d+) VCC'), ('vccs_remaining', r'(\d+) remaining after'), ('program_steps', r'size of program expression: (\d+)')):
                    x = re.search(p, s)
                    if x:
                        stats[k] = stats.get(k, 0) + float(x[1])
                for r in m.get('result', []):
                    loc = r.get('sourceLocation', {})
                    desc = r['description']
                    cat = 'unwind' if 'unwinding assertion' in desc else 'assertion' if desc.startswith(('USER', 'CODE', 'witness')) else 'pointer'
                    if desc.startswith('witness'):
                        status = 'Satisfied' if r['status'] == 'FAILURE' else 'Unsatisfiable'
                    else:
                        status = {'SUCCESS': 'Success', 'FAILURE': 'Failure'}.get(r['status'], 'Undetermined')
                    if desc.startswith('UNSUPPORTED') or 'no body for callee' in desc:
                        cat = 'unsupported_construct'
                    checks.append(dict(status=status, category=cat, description=desc, name=r['property'],
                                       function=self.plain(loc.get('function', '')), location=dict(file='', line=loc.get('line', ''))))
                    if 'trace' in r and not desc.startswith('witness'):
                        traces.append((r['property'], r['trace']))
            st['stats'] = stats
            if not checks or any(c['status'] == 'Undetermined' for c in checks):
                return None, st
            self.traces = traces
            return checks, st

        def plain(self, f):
            return self.names.get(f, f)

        @staticmethod
        def classify(r):
            v, bad = base.classify(dict(r, harness_id=r['harness_id']))
            if v == 'vacuous':      # one of the two ends is enough: some operations never call user code
                cov = [c for c in r['checks'] if c['description'].startswith('witness')]
                if any(c['status'] == 'Satisfied' for c in cov):
                    return 'holds', []
            return v, bad

        def one(self, h, unwind, timeout):
            r = dict(harness_id=h, duration_ms=0, checks=[], stats={})
            try:
                c, enc = l2c.program(self.mod, h, self.checks, self.wit, SPLIT.get(h.split('_')[-1], [4, 4]))
            except l2c.Unsupported as e:
                r['checks'] = [dict(status='Failure', category='unsupported_construct', description='UNSUPPORTED ' + str(e), function=h, location={}, name='')]
                return r
            except Exception as e:      # IR in a form that the translator does not know
                r['checks'] = [dict(status='Failure', category='unsupported_construct', description='UNSUPPORTED translator: %r' % e, function=h, location={}, name='')]
                return r
            open(os.path.join(self.work, h + '.c'), 'w').write(c)
            r['encoded'] = enc
            ch, st = self.cbmc(h, unwind, timeout)
            r.update(st)
            r.setdefault('stats', {})
            r['checks'] = self.last[h] = ch or []
            return r

        def kani(self, tag, features, harnesses=(), timeout=100, total=600, jobs=8, extra=()):
            if not hasattr(self, 'mod'):
                src = open(os.path.join(self.crate, 'src', 'lib.rs')).read()
                self.checks, self.wit = tables(src)
                self.names, self.last = {}, {}
                self.mod = self.ir()
            if self.mod is None:
                return 1, 'rustc gave no LLVM IR', {}
            hs = list(harnesses) or sorted(n for n in self.mod.funcs if n.startswith('h_') or (n.startswith('ht_') and not self.quick))
            u = int(extra[1]) if extra and extra[0] == '--unwind' else UNWIND
            with ThreadPoolExecutor(min(jobs, 6)) as ex:
                res = dict(zip(hs, ex.map(lambda h: self.one(h, u, timeout), hs)))
            return 0, '', res

        def counterexamples(self, full, unwind=None):
            cex = []
            bad = [c for c in self.last.get(full, []) if c['status'] == 'Failure']
            user = [c['name'] for c in bad if c['description'].startswith('USER')]
            names = (user or [c['name'] for c in bad])[:4]
            ch, _ = self.cbmc(full, unwind or UNWIND, min(300, max(30, int(self.left() - 60))), ['--trace', '-DVP_TRACE'] + [x for n in names for x in ('--property', n)], bool(user))
            for name, tr in (self.traces if ch else []):
                vals, case = {}, None
                for s in tr:
                    if s.get('stepType') == 'assignment' and 'binary' in s.get('value', {}):
                        m = re.match(r'vp_vals\[(\d+)', s.get('lhs', ''))
                        if m:
                            vals[int(m[1])] = int(s['value']['binary'], 2)
                        elif s.get('lhs') == 'c' and case is None:
                            case = int(s['value']['binary'], 2)
                # values that are constants in their case are not in the trace
                split = SPLIT.get(full.split('_')[-1], [4, 4])
                pre = []
                for x in reversed(split):
                    pre.insert(0, (case or 0) % x)
                    case = (case or 0) // x
                n = max(list(vals) + [-1]) + 1
                for k in range(n + len(pre)):
                    if k not in vals and pre:
                        vals[k] = pre.pop(0)
                n = max(list(vals) + [-1]) + 1
                v = [list(vals.get(k, 0).to_bytes(4, 'little')) for k in range(n)]
                if v not in [c[0] for c in cex]:
                    cex.append((v, name))
            return cex

        def evidence(self, res, *a, **k):
            self.features = []
            super().evidence(res, *a, **k)
            f = os.path.join(self.home, 'evidence', self.prop + '.json')
            e = json.load(open(f))
            c = e['coverage']
            fns = {}
            for r in res.values():
                for n in r.get('encoded', []):
                    m = re.search(r'20advanced_collections(?:\d+[a-z_]+)*?(\d+)(circular_buffer|counter|disjoint_set)', n)
                    if m:
                        fns.setdefault(m[2], set()).add(re.sub(r'^_R', '', n))
            c['functions_encoded'] = {k: sorted(v) for k, v in sorted(fns.items())}
            c['explanation'] = 'Bounded symbolic execution of the compiled code with unwinding: rustc (panic=unwind, LTO with std) compiles the harnesses with /repo\'s current sources ' \
                'to LLVM IR, lib/l2c.py turns the functions reachable from a harness into C in which every landing pad is an explicit branch, CBMC executes it symbolically and a SAT ' \
                'solver decides every assertion for all values within the bounds.'
            c['checker_cmd'] = 'cargo +nightly rustc --lib --release --crate-type staticlib -- --emit=llvm-ir; lib/l2c.py; cbmc --unwind %d %s' % (UNWIND, ' '.join(CBMC))
            c['trusted_base'] = ['rustc and LLVM at opt-level 1', 'lib/l2c.py (LLVM IR to C)', 'CBMC 6.11 and CaDiCaL', 'harness/unwind (oracles)'] + self.p.get('trusted', [])
            c['loop_bounds'] = {str(UNWIND): len(res)}
            e['assumptions'] = self.p.get('assume', []) + ['the properties hold beyond the bounds as within them is not shown']
            json.dump(e, open(f, 'w'), indent=1)
    return Unwind

"""Shared machinery: running TLC, reporting, evidence."""
import os, sys, json, time, subprocess, tempfile, shutil, re, traceback, random, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, 'specs')
REPO = os.environ.get('VERIF_REPO', '/repo')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    """The check itself failed (never a verdict on the code)."""


def java():
    for c in ('/usr/bin/java', 'java'):
        if shutil.which(c):
            return c
    return 'java'


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != 'thorough'
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.evdir = os.path.join(VERIF, 'evidence')
        os.makedirs(self.evdir, exist_ok=True)
        self.states = 0          # states TLC generated (distinct where TLC reports it) in this run
        self.transitions = 0     # states generated / steps computed by TLC
        self.traces = 0          # behaviours/traces checked against the implementation
        self.impl_steps = 0      # implementation calls compared
        self.samples = []
        self.counts = {}
        self.tlc_runs = []
        self.assumptions = []
        self.violations = []
        self.known = {}
        self.kf = load_known(pid)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, simulate=None, depth=100, seed=None, workers=1, timeout=600,
            env=None, expect_violation=False, extra=(), defs=None, heap='4g', simulate_file=None):
        """Run TLC on specs/<module>.tla.  `defs` (dict name->TLA text) creates a wrapper
        module that EXTENDS <module> and defines the given operators (used for cfg overrides).
        Returns (lines printed via PrintT(ToJson(..)) decoded, info dict).
        Larger simulations are split over several TLC processes with different seeds."""
        if simulate is not None and simulate >= 24 and not expect_violation:
            import concurrent.futures as cf
            k = 4
            base = self.seed if seed is None else seed
            with cf.ThreadPoolExecutor(k) as ex:
                fs = [ex.submit(self.tlc1, module, cfg, simulate // k + (i < simulate % k), depth, base + 7919 * i, workers,
                                timeout, env, False, tuple(extra) + (), defs, heap) for i in range(k)]
                rs = [f.result() for f in fs]
            info = dict(rs[0][1])
            for key in ('generated', 'distinct'):
                info[key] = sum(r[1][key] for r in rs)
            return [d for r in rs for d in r[0]], info
        return self.tlc1(module, cfg, simulate, depth, seed, workers, timeout, env, expect_violation, extra, defs, heap)

    def tlc1(self, module, cfg, simulate, depth, seed, workers, timeout, env, expect_violation, extra, defs, heap):
        work = tempfile.mkdtemp(prefix='tlc-', dir=self.scratch)
        for f in os.listdir(SPECS):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPECS, f), os.path.join(work, f))
        main = module
        if defs:
            main = module + '_Run'
            with open(os.path.join(work, main + '.tla'), 'w') as f:
                f.write('---- MODULE %s ----\nEXTENDS %s\n' % (main, module))
                for k, v in defs.items():
                    f.write('%s == %s\n' % (k, v))
                f.write('====\n')
        cfgpath = os.path.join(work, main + '.cfg')
        with open(cfgpath, 'w') as f:
            f.write(cfg if '\n' in cfg else open(os.path.join(SPECS, cfg)).read())
        cmd = [java(), '-Djava.io.tmpdir=' + work, '-Xmx' + heap, '-Xss128m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-cp', JARS, 'tlc2.TLC',
               '-metadir', os.path.join(work, 'md'), '-noGenerateSpecTE', '-workers', str(workers)]
        if simulate is not None:
            cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth), '-seed', str(self.seed if seed is None else seed)]
        cmd += ['-deadlock', '-config', cfgpath] + list(extra) + [os.path.join(work, main + '.tla')]
        e = dict(os.environ)
        if env:
            e.update(env)
        t = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=work, env=e,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on %s after %ss' % (main, timeout))
        out = p.stdout.decode('utf8', 'replace')
        docs = []
        for line in out.splitlines():
            if line.startswith('"{') or line.startswith('"['):
                try:
                    docs.append(json.loads(json.loads(line)))
                except ValueError as ex:
                    raise MachineryError('cannot parse TLC output line: %s (%s)' % (line[:200], ex))
        info = dict(rc=p.returncode, out=out, seconds=round(time.time() - t, 2), generated=0, distinct=0)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        if m:
            info['generated'], info['distinct'] = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r'The number of states generated: (\d+)', out)
        if m:
            info['generated'] = info['distinct'] = int(m[-1])
        ok = p.returncode == 0
        if not ok and not expect_violation:
            lines = [l for l in out.splitlines() if not l.startswith('"')]
            err = next((i for i, l in enumerate(lines) if l.startswith('Error:')), max(0, len(lines) - 30))
            tail = '\n'.join(lines[err:])[:3000]
            raise MachineryError('TLC failed on %s (rc=%d):\n%s' % (main, p.returncode, tail))
        self.states += info['distinct']
        self.transitions += info['generated']
        self.tlc_runs.append(dict(spec=module, mode='simulate' if simulate is not None else 'bfs', generated=info['generated'],
                                  distinct=info['distinct'], docs=len(docs), seconds=info['seconds']))
        shutil.rmtree(work, ignore_errors=True)
        return docs, info

    def bfs(self, module, cfg, **kw):
        """Exhaustive run that must succeed (the design satisfies its invariants)."""
        return self.tlc(module, cfg, **kw)

    def validate_trace(self, module, cfg, events, **kw):
        """Check a recorded trace (list of dicts) against a Trace specification that reads
        ndjson from $TRACE and accepts by POSTCONDITION.  Returns None if accepted, else a
        description of where it was rejected."""
        path = os.path.join(self.scratch, 'trace-%d.ndjson' % len(self.tlc_runs))
        with open(path, 'w') as f:
            for ev in events:
                f.write(json.dumps(ev) + '\n')
        docs, info = self.tlc(module, cfg, env={'TRACE': path}, expect_violation=True, **kw)
        out = info['out']
        if info['rc'] == 0:
            return None
        bad = ('POSTCONDITION' in out or 'postcondition' in out.lower() or 'is violated' in out or 'Assumption' in out
               or 'PostCondition' in out)
        if not bad:
            raise MachineryError('trace validation of %s failed to run:\n%s' % (module, out[-3000:]))
        m = re.findall(r'TRACE_REACHED (\d+)', out)
        return 'trace rejected by %s; %s' % (module, ('longest matched prefix %s events' % m[-1]) if m else 'see log: ' + out[-600:])

    # ---------------------------------------------------------------- results
    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, what, replay):
        """key: stable signature (used to match known findings); what: one line; replay: JSON-able."""
        for k, text in self.kf:
            if k == key:
                self.known[key] = text
                return
        d = os.path.join(self.evdir, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (self.pid, hashlib.sha1((key + what).encode()).hexdigest()[:10]))
        if len(self.violations) < 25:
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, key=key, what=what, seed=self.seed, tier=self.tier, replay=replay), f, indent=1,
                          default=str)
        self.violations.append((key, what, path))

    def each(self, docs, f, workers=None):
        """f(i, doc) for every document, in forked workers; what f records on this object (counts, samples,
        violations, steps) is merged in the order of the documents.  Returns the values f returned."""
        import pickle
        docs = list(docs)
        workers = min(workers or int(os.environ.get('VERIF_WORKERS', '8')), max(1, len(docs)))
        pids = []
        for w in range(workers):
            path = os.path.join(self.scratch, 'worker-%d-%d.pickle' % (len(pids), random.getrandbits(40)))
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    res = []
                    keep = self.violations
                    nbad = 0
                    for i in range(w, len(docs), workers):
                        self.violations, self.counts, self.samples, self.impl_steps, self.traces = [], {}, [], 0, 0
                        self.known, self.assumptions = {}, []
                        v = f(i, docs[i])
                        res.append((i, v, self.violations, self.counts, self.samples, self.impl_steps, self.traces, self.known, self.assumptions))
                        nbad += len(self.violations)
                        if nbad >= 10:
                            break
                    with open(path, 'wb') as g:
                        pickle.dump(res, g)
                    rc = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(rc)
            pids.append((pid, path))
        out, bad = {}, None
        for pid, path in pids:
            _, st = os.waitpid(pid, 0)
            if st != 0:
                bad = 'worker ended with status %d' % st
            else:
                with open(path, 'rb') as g:
                    for r in pickle.load(g):
                        out[r[0]] = r
        if bad:
            raise MachineryError(bad)
        vals = []
        for i in sorted(out):
            _, v, viol, counts, samples, steps, traces, known, assumptions = out[i]
            vals.append(v)
            self.violations += viol
            for k, n in counts.items():
                self.count(k, n)
            for x in samples:
                self.sample(x)
            self.impl_steps += steps
            self.traces += traces
            self.known.update(known)
            self.assumptions += [a for a in assumptions if a not in self.assumptions]
        return vals

    def too_many(self):
        return len(self.violations) >= 10

    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   impl_steps_compared=self.impl_steps, samples=self.samples, per_kind=self.counts, tlc_runs=self.tlc_runs)
        ev = dict(property=self.pid, tier='quick' if self.quick else 'thorough', seed=self.seed, level='model_checking',
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        with open(os.path.join(self.evdir, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k, text in sorted(self.known.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, text))
        seen = set()
        for key, what, path in self.violations:
            if key in seen and len(seen) > 0:
                continue
            seen.add(key)
            print('VIOLATION property=%s replay=%s  [%s] %s' % (self.pid, path, key, what[:300]))
        print('%s %s: states=%d transitions=%d traces=%d steps=%d violations=%d (%.1fs)' % (
            self.pid, ev['tier'], self.states, self.transitions, self.traces, self.impl_steps, len(self.violations),
            time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def load_known(pid):
    """known_findings.txt: lines `finding: property=<id> key=<key> <what>`; `fixed:` lines suppress nothing."""
    res = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)', line)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3).strip()))
    return res


def short(x, n=400):
    s = x if isinstance(x, str) else json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + '...'

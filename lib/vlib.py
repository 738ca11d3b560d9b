"""Driver library: builds harnesses from /repo, runs TLC, validates traces, writes evidence.

Outcome protocol of every check:
  exit 0                      property held on everything explored
  exit 1 + VIOLATION line     the implementation broke it (confirmed by a second, independent run)
  exit 2                      the check itself failed (build, TLC or model problem)
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time, hashlib, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CXXFLAGS = ['-O2', '-std=c++11', '-march=x86-64-v3', '-maes', '-mpclmul', '-mrdseed', '-w', '-pthread',
            '-Wno-unused-result']
NCPU = os.cpu_count() or 8


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, msg, replay):
        super().__init__(msg)
        self.replay = replay


class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out.replace(',', '')
                       if False else re.sub(r'(?<=\d),(?=\d)', '', out))
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = 'No error has been found' in out or 'The number of states generated' in out and rc == 0
        m = re.search(r'REJECTED_AT", (\d+)', out)
        self.rejected = int(m.group(1)) if m else None
        # an event the specification cannot even evaluate (malformed, out of range) is a rejection of that event
        if self.rejected is None and 'behavior up to this point' in out and ('Attempted to' in out or 'CHOOSE' in out):
            self.rejected = max([int(x) for x in re.findall(r'^State (\d+):', out, re.M)] or [1])
            i = out.find('The exception was')
            print('note: TLC could not evaluate an event: ' + re.sub(r'\s+', ' ', out[i:i + 1500])[:400])
        m = re.search(r'depth of the complete state graph search is (\d+)', re.sub(r'(?<=\d),(?=\d)', '', out))
        self.depth = int(m.group(1)) if m else 0


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.thorough = self.tier == 'thorough'
        base = os.path.join(VERIF, 'build')
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + '-', dir=base)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.cov = {}
        self.models = {}
        self.assumptions = []
        self.findings = []
        self.t0 = time.time()
        self.jit = 1   # quick traces are short: the JVM's cheap compiler is faster overall
        self.replay_dir = os.path.join(VERIF, 'evidence', 'replay', prop)
        shutil.rmtree(self.replay_dir, ignore_errors=True)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- build
    def build(self, name, srcs, flags=(), repo_srcs=('emp-tool/emp-tool.cpp',), libs=('-lcrypto',), opt=None):
        """Compile harness/<srcs> with /repo's working tree; objects in parallel."""
        outdir = self.path('obj-' + name)
        os.makedirs(outdir, exist_ok=True)
        base = list(CXXFLAGS)
        if opt:
            base[0] = opt
        def job(s):
            o = os.path.join(outdir, hashlib.md5(s.encode()).hexdigest()[:8] + '_' + os.path.basename(s) + '.o')
            big = os.path.basename(s).startswith('float32_')
            return (['g++'] + (['-O0'] + base[1:] if big else base) + list(flags) +
                    ['-I' + HARN, '-I' + REPO, '-c', s, '-o', o], o)

        def compile_all(jobs):
            with cf.ThreadPoolExecutor(NCPU) as ex:
                return list(ex.map(lambda j: subprocess.run(j[0], capture_output=True, text=True), jobs))
        files = [os.path.join(HARN, s) if not os.path.isabs(s) else s for s in srcs] + [os.path.join(REPO, s) for s in repo_srcs]
        jobs = [job(s) for s in files]
        for r in compile_all(jobs):
            if r.returncode:
                raise CheckError('harness does not compile:\n' + r.stderr[-3000:])
        exe = self.path(name)

        def link(objs):
            return subprocess.run(['g++', '-pthread'] + list(flags) + objs + ['-o', exe] + list(libs), capture_output=True, text=True)
        r = link([o for _, o in jobs])
        if r.returncode:
            # code may have moved between source files: link every source file of the library instead
            more = []
            for d, _, fs in os.walk(os.path.join(REPO, 'emp-tool')):
                more += [os.path.join(d, x) for x in fs if x.endswith(('.cpp', '.cc')) and not x.endswith('.txt.cpp')]
            extra = [job(s) for s in sorted(more) if s not in files]
            rs = compile_all(extra)
            r = link([o for _, o in jobs] + [j[1] for j, x in zip(extra, rs) if x.returncode == 0])
        if r.returncode:
            raise CheckError('harness does not link:\n' + r.stderr[-3000:])
        return exe

    def aes_src(self):
        """The generated C array of the AES circuit file, as the repository's build makes it."""
        f = os.path.join(REPO, 'emp-tool/circuits/files/bristol_fashion/aes_128.txt')
        data = open(f, 'rb').read()
        out = self.path('aes_128_txt.cpp')
        with open(out, 'w') as h:
            h.write('unsigned char emp_tool_circuits_files_bristol_fashion_aes_128_txt[] = {')
            h.write(','.join(map(str, data)))
            h.write('};\nunsigned int emp_tool_circuits_files_bristol_fashion_aes_128_txt_len = %d;\n' % len(data))
        return out

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=1, args=(), timeout=600, mem='3g', cfgtext=None, jit=4):
        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.dir)
        if cfgtext is not None:
            cfg = os.path.join(meta, 'x.cfg')
            open(cfg, 'w').write(cfgtext)
        else:
            cfg = os.path.join(SPEC, cfg or module + '.cfg')
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e.pop('JAVA_TOOL_OPTIONS', None)
        cmd = ['java', '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC', '-Xmx' + mem, '-Xss64m',
               '-XX:TieredStopAtLevel=%d' % jit, '-XX:-UsePerfData', '-DTLA-Library=' + SPEC, '-cp', JARS, 'tlc2.TLC',
               '-config', cfg, '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', *args,
               os.path.join(SPEC, module + '.tla')]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=meta)
        except subprocess.TimeoutExpired as x:
            raise CheckError('TLC timeout on %s' % module)
        finally:
            pass
        res = TlcResult(r.stdout + r.stderr, r.returncode)
        shutil.rmtree(meta, ignore_errors=True)
        return res

    def model(self, module, cfg=None, workers=4, args=(), timeout=800, env=None, cfgtext=None, mem='4g'):
        """Exhaustively check a design model; it must hold (it does not depend on /repo)."""
        r = self.tlc(module, cfg, workers=workers, args=args, timeout=timeout, env=env, cfgtext=cfgtext, mem=mem)
        if not r.ok:
            raise CheckError('model %s (%s) failed:\n%s' % (module, cfg, r.out[-4000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.models['%s/%s' % (module, cfg or 'default')] = dict(distinct_states=r.distinct, generated=r.generated, depth=r.depth)
        return r

    def mutant(self, module, cfg, subst, workers=4, timeout=300):
        """A deliberately broken variant of a design model must be rejected (the model has teeth)."""
        text = open(os.path.join(SPEC, cfg or module + '.cfg')).read()
        for a, b in subst:
            if a not in text:
                raise CheckError('mutant config of %s: %s not found' % (module, a))
            text = text.replace(a, b)
        r = self.tlc(module, cfgtext=text, workers=workers, timeout=timeout)
        if r.ok or 'is violated' not in r.out and 'was violated' not in r.out and 'were violated' not in r.out:
            raise CheckError('variant %s of %s is not rejected:\n%s' % (subst, module, r.out[-1500:]))
        self.cov.setdefault('rejected_design_variants', []).append('%s %s' % (module, [b for _, b in subst]))

    def generate(self, module, cfg=None, num=100, depth=50, seed=None, env=None, timeout=300, cfgtext=None):
        """Behaviours of a generator spec: `tlc -simulate`; the spec appends SCN lines to IOEnv.OUT."""
        out = self.path('scn-%s-%d.txt' % (module, len(os.listdir(self.dir))))
        open(out, 'w').close()
        e = dict(env or {})
        e['OUT'] = out
        r = self.tlc(module, cfg, env=e, workers=1, cfgtext=cfgtext,
                     args=['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(self.seed if seed is None else seed)],
                     timeout=timeout)
        lines = [m for m in re.findall(r'^"?SCN (.*?)"?$', r.out, re.M)]
        scns = []
        for l in lines:
            l = l.replace('\\"', '"').replace('\\\\', '\\')
            scns.append(json.loads(l))
        if not scns:
            raise CheckError('generator %s produced nothing:\n%s' % (module, r.out[-3000:]))
        self.cov.setdefault('generated_behaviours', 0)
        self.cov['generated_behaviours'] += len(scns)
        return scns

    # ---------------------------------------------------------------- harness
    def run(self, exe, args=(), env=None, timeout=120, stdin=None, okcodes=(0,), cwd=None):
        """Run a harness; returns (rc, stdout). A crash or hang is returned, never raised."""
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            r = subprocess.run([exe, *map(str, args)], capture_output=True, text=True, env=e, timeout=timeout,
                               input=stdin, cwd=cwd or self.dir, errors='replace')
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as x:
            return -999, (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), 'timeout'

    # ---------------------------------------------------------------- validation
    def validate(self, module, trace_files, cfg=None, env=None, timeout=700, what='', workers_total=None, mem='3g'):
        """TLC trace validation, one process per file. Returns list of (file, first rejected line index 1-based)."""
        rej = []

        def one(f):
            e = dict(env or {})
            e['TRACE'] = f
            return f, self.tlc(module, cfg, env=e, timeout=timeout, mem=mem, jit=4 if self.thorough else self.jit)
        with cf.ThreadPoolExecutor(workers_total or NCPU) as ex:
            for f, r in ex.map(one, trace_files):
                n = sum(1 for _ in open(f))
                if r.rejected is not None:
                    rej.append((f, r.rejected))
                elif not r.ok:
                    raise CheckError('trace validation of %s by %s failed:\n%s' % (f, module, r.out[max(0, r.out.find('Error:')):][:2500]))
                else:
                    self.traces += 1
                    self.events += n
                    self.states += r.distinct
                    self.transitions += r.generated
        return rej

    def split(self, lines, name, parts=None, per=None):
        """Write trace lines to files for parallel validation (stateless traces only)."""
        parts = parts or NCPU
        if per:
            parts = max(1, (len(lines) + per - 1) // per)
        parts = max(1, min(parts, len(lines)))
        fs = []
        for k in range(parts):
            f = self.path('%s-%d.ndjson' % (name, k))
            with open(f, 'w') as h:
                h.writelines(l if l.endswith('\n') else l + '\n' for l in lines[k::parts])
            fs.append(f)
        return fs

    def keep(self, f, name=None):
        os.makedirs(self.replay_dir, exist_ok=True)
        d = os.path.join(self.replay_dir, name or os.path.basename(f))
        shutil.copy(f, d)
        return d

    def violation(self, msg, replay_text):
        os.makedirs(self.replay_dir, exist_ok=True)
        d = os.path.join(self.replay_dir, 'violation.txt')
        with open(d, 'w') as h:
            h.write(msg + '\n' + replay_text + '\n')
        raise Violation(msg, d)

    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            self.samples.append(x)

    def evidence(self, violations=0):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ['none'], trace_events=self.events, design_models=self.models)
        cov.update(self.cov)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as h:
            json.dump(ev, h, indent=1)
            h.write('\n')

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def stateless(ctx, module, gen, cfg=None, name='t', env=None, per=None, sample_every=None):
    """Harness run -> stateless trace -> TLC judge; a rejection must repeat on a second harness run.

    gen() -> list of ndjson lines (already including a 'fail' line if the harness crashed).
    """
    lines = gen()
    if not lines:
        raise CheckError('harness produced no events')
    fs = ctx.split(lines, name, per=per)
    rej = ctx.validate(module, fs, cfg, env)
    for l in lines[:1] + lines[len(lines) // 2:len(lines) // 2 + 1] + lines[-1:]:
        ctx.sample(l.strip()[:400])
    if rej:
        lines2 = gen()
        fs2 = ctx.split(lines2, name + '-again', per=per)
        rej2 = ctx.validate(module, fs2, cfg, env)
        if rej2:
            bad = []
            for f, k in rej2:
                bad.append(open(f).read().splitlines()[k - 1][:2000])
            ctx.violation('%s: specification %s rejects an observed event' % (ctx.prop, module), '\n'.join(bad))
        print('note: a rejection did not repeat; not reported', file=sys.stderr)
    return lines


def harness_lines(ctx, exe, args, timeout=200, env=None, tag='run'):
    """Run harness that prints ndjson to stdout; crash/hang becomes a {"e":"fail"} event no spec accepts."""
    rc, out, err = ctx.run(exe, args, timeout=timeout, env=env)
    lines = [l + '\n' for l in out.split('\n') if l.startswith('{') and l.endswith('}')]
    if rc != 0:
        lines.append(json.dumps({'e': 'fail', 'rc': rc, 'err': (err or '')[-300:]}) + '\n')
    return lines


def main(prop, fn):
    ctx = Ctx(prop)
    rc = 2
    try:
        fn(ctx)
        for f in ctx.findings:
            print('KNOWN-FINDING: property=%s %s' % (prop, f))
        ctx.evidence(0)
        print('OK property=%s tier=%s states=%d traces=%d events=%d %.1fs' %
              (prop, ctx.tier, ctx.states, ctx.traces, ctx.events, time.time() - ctx.t0))
        rc = 0
    except Violation as v:
        ctx.evidence(1)
        print(str(v))
        print('VIOLATION property=%s replay=%s' % (prop, v.replay))
        rc = 1
    except CheckError as x:
        print('CHECK-ERROR property=%s %s' % (prop, x), file=sys.stderr)
    finally:
        if not os.environ.get('VERIF_KEEP'):
            ctx.cleanup()
        else:
            print('kept', ctx.dir)
    return rc


def known(prop):
    """ids of recorded, unrepaired findings of a property -> text."""
    r = {}
    for l in open(os.path.join(VERIF, 'known_findings.txt')):
        m = re.match(r'finding: property=(\w+) id=(\S+) (.*)', l)
        if m and m.group(1) == prop:
            r[m.group(2)] = m.group(3)
    return r

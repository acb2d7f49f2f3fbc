"""Plumbing of the checks: builds the harness from /repo, runs jobs on it, has
TLC judge the observations, and reports. No verdict is taken here."""
import concurrent.futures
import base64, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class CheckError(Exception):
    """The check itself failed: exit 2, no verdict."""


def goenv():
    e = dict(os.environ)
    godir = '/opt/veriftools/go1.27.3/bin'
    if os.path.isdir(godir):
        e['PATH'] = godir + ':' + e.get('PATH', '')
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
    e.setdefault('HOME', '/root')
    e.setdefault('GOPATH', '/root/go')
    e.setdefault('GOMODCACHE', '/root/go/pkg/mod')
    e.setdefault('GOCACHE', '/root/.cache/go-build')
    return e


# --------------------------------------------------------------------------
# text

def enc(b):
    """bytes -> str: printable ASCII as is, other bytes U+E000+byte"""
    return ''.join(chr(c) if 0x20 <= c < 0x7f or c in (9, 10, 13) else chr(0xE000 + c) for c in b)


def dec(s):
    return bytes(ord(c) - 0xE000 if ord(c) >= 0xE000 else ord(c) for c in s)


def units(b):
    """The characters of b as the scanner sees them: UTF-8, or single bytes"""
    out, i, n = [], 0, len(b)
    while i < n:
        c = b[i]
        w = 1
        if c >= 0x80:
            for k in (2, 3, 4):
                if i + k <= n:
                    try:
                        if len(b[i:i + k].decode('utf-8')) == 1:
                            w = k
                            break
                    except UnicodeDecodeError:
                        pass
        out.append(enc(b[i:i + w]))
        i += w
    return out


def b64(b):
    return base64.b64encode(b).decode()


def unb64(s):
    return base64.b64decode(s) if s else b''


# --------------------------------------------------------------------------

class Check:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.rnd = random.Random('%s/%d' % (prop, self.seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='vh-%s-' % prop)
        self.scratch = os.path.join(self.work, 'scratch')
        os.mkdir(self.scratch)
        self.violations = []
        self.known = []
        self.cov = {}
        self.level = 'exploration'
        self.assumptions = []
        self.counts = {}
        self.bins = {}
        self.tlc_cmd = None

    @property
    def quick(self):
        return self.tier == 'quick'

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- the harness -----------------------------------------------------
    def build(self, race=False):
        """The harness, linked against /repo's working tree"""
        key = 'vh-race' if race else 'vh'
        if key in self.bins:
            return self.bins[key]
        src = os.path.join(self.work, 'harness')
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, 'harness'), src)
        out = os.path.join(self.work, key)
        cmd = ['go', 'build', '-o', out] + (['-race'] if race else []) + ['.']
        p = subprocess.run(cmd, cwd=src, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise CheckError('building the harness failed:\n' + p.stdout.decode(errors='replace'))
        self.bins[key] = out
        return out

    def go_build(self, pkg, out):
        """A command of /repo"""
        out = os.path.join(self.work, out)
        p = subprocess.run(['go', 'build', '-o', out, pkg], cwd=REPO, env=goenv(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise CheckError('go build %s failed:\n%s' % (pkg, p.stdout.decode(errors='replace')))
        return out

    def run_jobs(self, jobs, race=False, timeout=20, workers=8, env=None, limit=800, cwd=None, aftermath=None, stdin=None):
        """jobs: list of dicts with op. Returns the results in order. A job
        that takes the whole process down is reported as a panic."""
        exe = self.build(race)
        for i, j in enumerate(jobs):
            j['i'] = i
        results = {}
        todo = list(range(len(jobs)))
        single = False
        e = dict(os.environ)
        e['VH_SCRATCH'] = self.scratch
        e['GORACE'] = 'halt_on_error=1 exitcode=66'
        e.update(env or {})
        crashes = 0
        while todo:
            batch = todo
            fin = os.path.join(self.work, 'jobs')
            fout = os.path.join(self.work, 'results')
            with open(fin, 'w') as f:
                for i in batch:
                    f.write(json.dumps(jobs[i]) + '\n')
            open(fout, 'w').close()
            try:
                p = subprocess.run([exe, '-in', fin, '-out', fout, '-w', '1' if single else str(workers),
                                    '-timeout', '%ds' % timeout], env=e, timeout=limit, cwd=cwd,
                                   **(dict(stdin=subprocess.DEVNULL) if stdin is None else dict(input=stdin)),
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                rc, err = p.returncode, p.stderr.decode(errors='replace')
            except subprocess.TimeoutExpired:
                raise CheckError('the harness did not finish')
            if os.environ.get('VH_DEBUG') and err:
                print(err[-3000:])
            if rc == 3:
                raise CheckError('harness: ' + err[-2000:])
            with open(fout, 'rb') as f:
                for line in f.read().split(b'\n'):
                    if not line:
                        continue
                    try:
                        r = json.loads(line)
                    except ValueError:
                        continue
                    results[r['i']] = r
            todo = [i for i in batch if i not in results]
            if not todo:
                if rc != 0 and aftermath is not None:
                    aftermath.append(crash_text(rc, err))
                elif rc != 0:
                    # everything was answered, and then it went down: a leaked goroutine
                    raise CheckError('the harness ended with %d: %s' % (rc, err[-2000:]))
                break
            if rc == 0:
                raise CheckError('results are missing')
            if not single:
                single = True  # again, one by one, to tell which job it is
                self.log('the harness went down (%d); running jobs one by one' % rc)
            else:
                crashes += 1
                results[todo[0]] = {'i': todo[0], 'panic': crash_text(rc, err), 'hang': False, 'r': None}
                todo = todo[1:]
                if crashes >= 20:
                    for i in todo:
                        results[i] = {'i': i, 'panic': '', 'hang': False, 'r': None, 'skipped': True}
                    break
        return [results[i] for i in range(len(jobs))]

    # ---- TLC -------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=8, args=(), timeout=800, heap='10g'):
        """Runs TLC; returns its output and exit status"""
        meta = tempfile.mkdtemp(prefix='tlc', dir=self.work)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-Xmx' + heap, '-Xss512m', '-XX:+UseParallelGC', '-Dfile.encoding=UTF-8', '-cp', JARS,
               'tlc2.TLC', '-noGenerateSpecTE', '-config', cfg or module + '.cfg', '-metadir', meta, '-workers', str(workers)]
        cmd += list(args) + [module + '.tla']
        self.tlc_cmd = ' '.join(cmd)
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC did not finish %s in %d s' % (module, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.stdout.decode('utf-8', errors='replace'), p.returncode

    def tlc_model(self, module, cfg=None, **kw):
        """Model checks a module; it must hold. Returns (states, distinct, output)."""
        out, rc = self.tlc(module, cfg, **kw)
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        if rc != 0 or not m:
            raise CheckError('TLC: %s does not hold or could not be checked:\n%s' % (cfg or module, out[-3000:]))
        gen, dist = [int(x.replace(',', '')) for x in m[-1]]
        self.counts['states'] = self.counts.get('states', 0) + dist
        self.counts['transitions'] = self.counts.get('transitions', 0) + gen
        return gen, dist, out

    def careless(self, what, configs, **kw):
        """Models with a mistake planted in them: (module, configuration). Each has to violate what it states."""
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            for (m, cfg), (out, rc) in zip(configs, ex.map(lambda x: self.tlc(x[0], x[1], heap='3g', workers=3, **kw), configs)):
                if not any(x in out for x in ('is violated', 'were violated', 'was violated')):
                    raise CheckError('a careless %s (%s) passes:\n%s' % (what, cfg, out[-2000:]))

    def judge(self, cases, module='Check', timeout=800, shard=4000, workers=8):
        """Has TLC judge the cases. Returns {i: verdict}, "" for accepted."""
        for i, c in enumerate(cases):
            c['i'] = i
        verdicts = {}
        for b in range(0, len(cases), shard):
            part = cases[b:b + shard]
            fn = os.path.join(self.work, 'cases.ndjson')
            with open(fn, 'w', encoding='utf-8') as f:
                for c in part:
                    f.write(json.dumps(c, ensure_ascii=False) + '\n')
            out, rc = self.tlc(module, env={'CASES': fn}, timeout=timeout, workers=workers)
            got = 0
            for line in out.split('\n'):
                if line.startswith('"@@') and line.endswith('"'):
                    r = parse_print(line)
                    verdicts[r['i']] = r['v']
                    got += 1
            if got != len(part) or rc != 0:
                miss = [c['i'] for c in part if c['i'] not in verdicts][:3]
                raise CheckError('TLC judged %d of %d cases (first missing: %s):\n%s'
                                 % (got, len(part), json.dumps([cases[i] for i in miss])[:3000], out[-3000:]))
            self.counts['judged'] = self.counts.get('judged', 0) + got
        return verdicts

    # ---- reporting -------------------------------------------------------
    def violation(self, what, replay):
        self.violations.append((what, replay))

    def finish(self):
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        rp = os.path.join(ev, 'replay')
        os.makedirs(rp, exist_ok=True)
        for f in os.listdir(rp):
            if f.startswith(self.prop + '-'):
                os.remove(os.path.join(rp, f))
        if self.level == 'model_checking':
            self.cov.setdefault('states', self.counts.get('states', 0))
            self.cov.setdefault('transitions', self.counts.get('transitions', 0))
            self.cov.setdefault('traces_validated_against_impl', self.cov.get('evaluations', 0))
        lines = []
        n = 0
        for what, replay in self.violations:
            n += 1
            fn = os.path.join(rp, '%s-%d.json' % (self.prop, n))
            if n <= 10:
                with open(fn, 'w') as f:
                    json.dump({'property': self.prop, 'what': what, 'seed': self.seed, 'tier': self.tier,
                               'replay': replay}, f, indent=1)
                lines.append('VIOLATION property=%s replay=%s' % (self.prop, fn))
                print('  %s' % what[:600])
        rec = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
               'coverage': self.cov, 'assumptions': self.assumptions,
               'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        with open(os.path.join(ev, self.prop + '.json'), 'w') as f:
            json.dump(rec, f, indent=1)
        for l in self.known:
            print(l)
        for l in lines:
            print(l)
        self.log('%d violations' % len(self.violations))
        self.cleanup()
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def crash_text(rc, err):
    m = re.search(r'^(panic: .*|fatal error: .*|WARNING: DATA RACE.*)$', err, re.M)
    return (m.group(1) if m else 'the process ended with status %d' % rc)[:500]


def parse_print(line):
    """A line printed by PrintT("@@" \\o json): a TLA+ string literal"""
    s = line[1:-1][2:]
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s):
            out.append({'n': '\n', 't': '\t', 'r': '\r', 'f': '\f'}.get(s[i + 1], s[i + 1]))
            i += 2
        else:
            out.append(s[i])
            i += 1
    return json.loads(''.join(out))


def load_known(prop):
    fn = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return [k for k in json.load(f) if k.get('property') == prop and k.get('status') == 'known']

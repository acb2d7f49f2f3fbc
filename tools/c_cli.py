"""C17: the command-line tools."""
import json, os, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from c_diff import settle, text, pair
from c_fault import models
import gen

TOOLS = ['schemalex', 'schemadiff', 'schemalint']
MALFORMED = [b'CREATE TABLE', b'CREATE TABLE t (a INT', b'CREATE TABLE t (a INT);;CREATE', b'CREATE TABLE t (a FOO);', b"CREATE TABLE t (a INT DEFAULT 'x);", b'SELECT 1;',
             b'CREATE TABLE t (a INT);\x00', b'CREATE TABLE t ();', b'/* open', b'CREATE TABLE t (a INT) ENGINE=;', b'CREATE TABLE t (a INT); nonsense',
             b'CREATE TABLE a (x INT);CREATE TABLE b (x INT) oops;', b'CREATE TABLE t (a INT,);', b')']


def git(cwd, work, *args):
    e = dict(os.environ, HOME=work, GIT_CONFIG_NOSYSTEM='1', GIT_AUTHOR_NAME='v', GIT_AUTHOR_EMAIL='v@v', GIT_COMMITTER_NAME='v', GIT_COMMITTER_EMAIL='v@v')
    p = subprocess.run(['git'] + list(args), cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise CheckError('git %s: %r' % (args, p.stdout))


class Runs:
    def __init__(self, c):
        self.c, self.r = c, c.rnd
        self.g = gen.Gen(c.rnd, odd=.1)
        self.root = os.path.join(c.work, 'cli')
        os.mkdir(self.root)
        self.runs = []
        self.n = 0

    def folder(self):
        self.n += 1
        d = os.path.join(self.root, 'r%d' % self.n)
        os.mkdir(d)
        return d

    def source(self, d, kind, body, name, stdin):
        """The argument for a source; what stands behind it"""
        r = self.r
        if kind == 'unresolvable':
            return r.choice(['http://localhost/' + name, 'ftp://x', 'file://remote.host/' + name, 'file://remote' + d, 'gopher:///x', 'local-git://remote/x?file=a&commitish=b',
                             'file:///%zz', 'nosuch:x'])
        if kind == 'unreadable':
            k = r.choice(['missing', 'dir', 'nodir', 'uri', 'git', 'gitfile', 'mysql'])
            if k == 'dir':
                os.mkdir(os.path.join(d, name + '.d'))
                return name + '.d'
            if k == 'git':
                return 'local-git://%s?file=x.sql&commitish=HEAD' % d
            if k == 'gitfile':
                return 'local-git://%s?file=nosuch.sql&commitish=%s' % (self.repo(d, name, body), r.choice(['HEAD', 'nosuch']))
            if k == 'mysql':
                return r.choice(['mysql://root@unix(%s/nosuch.sock)/x' % d, 'mysql://root@unix(%s)/nosuch' % self.sock, 'mysql://)('])
            return {'missing': 'missing.sql', 'nodir': 'no/such/file', 'uri': 'file://%s/missing' % d}[k]
        if kind == 'malformed':
            body = r.choice(MALFORMED)
        k = r.choice(['name'] * 4 + ['path', 'uri', 'uri', 'stdin', 'stdin', 'git', 'link'])
        if k == 'stdin' and stdin:
            k = 'path'
        if k == 'stdin':
            stdin.append(body)
            return '-'
        if k == 'git':
            return 'local-git://%s?file=s.sql&commitish=%s' % (self.repo(d, name, body), r.choice(['HEAD', 'v1']))
        with open(os.path.join(d, name), 'wb') as f:
            f.write(body)
        if k == 'link':
            os.symlink(name, os.path.join(d, 'link-' + name))
            return 'link-' + name
        return {'name': name, 'path': os.path.join(d, name), 'uri': 'file://' + r.choice(['', 'localhost']) + os.path.join(d, name)}[k]

    def repo(self, d, name, body):
        p = os.path.join(d, 'repo-' + name)
        os.mkdir(p)
        git(p, self.c.work, 'init', '-q')
        with open(os.path.join(p, 's.sql'), 'wb') as f:
            f.write(body)
        git(p, self.c.work, 'add', '-A')
        git(p, self.c.work, 'commit', '-q', '-m', 'x')
        git(p, self.c.work, 'tag', 'v1')
        if self.r.random() < .5:
            with open(os.path.join(p, 's.sql'), 'wb') as f:
                f.write(b'something else')
        return p

    def bodies(self, tool):
        r = self.r
        if r.random() < .04:
            return [b'CREATE TABLE big (%s);' % b', '.join(b'col_%d INT' % i for i in range(5000)), b'']
        if tool == 'schemalint':
            s = self.g.schema()
            return [gen.spell(r, s, r.choice(['plain', 'random'])), b'']
        o, n = pair(self.c, self.g)
        if r.random() < .12:
            n = o
        if r.random() < .5:
            o, n = n, o
        return [text(self.c, o), text(self.c, n)]

    def one(self):
        r = self.r
        tool = r.choice(TOOLS)
        need = 1 if tool == 'schemalint' else 2
        d = self.folder()
        k = r.random()
        n = need if k < .88 else r.choice([x for x in (0, 1, 2, 3, 4) if x != need])
        kinds = ['ok'] * n
        if n and r.random() < .25:
            kinds[r.randrange(n)] = r.choice(['unresolvable', 'unreadable', 'malformed'])
        if n == 2 and r.random() < .03:
            kinds = [r.choice(['unresolvable', 'unreadable', 'malformed']) for _ in range(2)]
        bodies = self.bodies(tool)
        names = r.choice([['a.sql', 'b.sql', 'c', 'd'], ['old', 'new', 'x', 'y'], ['with space', '\u00fc', 'c', 'd'], ['true', 'false', '1', '2']])
        stdin = []
        args = [self.source(d, kd, bodies[i % 2], names[i], stdin) for i, kd in enumerate(kinds)]
        # flags
        flags = []
        badflag = False
        txn, indent = True, 2
        dash = lambda: r.choice(['-', '-', '--'])
        if tool != 'schemalint':
            if r.random() < .55:
                f = r.choice(['t', 't=true', 't=false', 't=false', 't=0', 't=1', 't=F', 't=True', 't=TRUE', 't=FALSE'])
                txn = f[2:].lower() not in ('false', '0', 'f')
                flags.append([dash() + f])
        elif r.random() < .5:
            indent = r.choice([0, 1, 2, 3, 4, 8, 17])
            flags.append(r.choice([[dash() + 'i', str(indent)], [dash() + 'i=%d' % indent]]))
        if r.random() < .05:
            badflag = True
            flags.append(r.choice([['-x'], ['--nosuch=1'], ['-t=maybe'] if tool != 'schemalint' else ['-i=x'], ['-i', 'many'] if tool == 'schemalint' else ['-i=2'], ['-tt'], ['---t']]))
        out = r.choice(['stdout'] * 8 + ['stdoutfull'] + ['file'] * 9 + ['uncreatable'] * 2 + ['full'])
        target = None
        alias = 0
        if out == 'file':
            k = r.choice(['new', 'shorter', 'longer', 'longer', 'alias', 'alias', 'link', 'empty', 'indir'])
            target = os.path.join(d, r.choice(['out.sql', 'o u t', 'out']))
            if k == 'indir':
                os.mkdir(os.path.join(d, 'sub'))
                target = os.path.join(d, 'sub', 'out')
            if k in ('shorter', 'longer', 'empty'):
                with open(target, 'wb') as f:
                    f.write({'shorter': b'x', 'empty': b'', 'longer': b'OLD CONTENT;\n' * r.choice([50, 40000])}[k])
            if k == 'link':
                with open(os.path.join(d, 'behind'), 'wb') as f:
                    f.write(b'old\n' * 5000)
                os.symlink('behind', target)
            if k == 'alias':
                own = [i for i in range(n) if os.path.isfile(os.path.join(d, names[i])) and not os.path.islink(os.path.join(d, names[i]))]
                if own:
                    alias = r.choice(own)
                    target = os.path.join(d, names[alias])
                    if r.random() < .3:
                        l = os.path.join(d, 'hard')
                        (os.link if r.random() < .5 else os.symlink)(target, l)
                        target = l
        elif out == 'uncreatable':
            k = r.choice(['nodir', 'dir', 'under', 'longname'])
            if k == 'dir':
                os.mkdir(os.path.join(d, 'od'))
            with open(os.path.join(d, 'afile'), 'wb') as f:
                f.write(b'x')
            target = os.path.join(d, {'nodir': 'no/such/out', 'dir': 'od', 'under': 'afile/out', 'longname': 'n' * 300}[k])
        elif out == 'full':
            target = '/dev/full'
        if target:
            t = os.path.relpath(target, d) if out == 'file' and r.random() < .5 else target
            flags.append(r.choice([[dash() + 'o', t], [dash() + 'o=' + t]]))
        r.shuffle(flags)
        argv = sum(flags, [])
        if r.random() < .1:
            argv.append('--')
        self.runs.append(dict(tool=tool, argv=argv + args, kinds=kinds, badflag=badflag, out=out, target=target, dir=d, stdin=stdin[0] if stdin else None,
                              bodies=bodies, txn=txn, indent=indent))

    def execute(self, bins, run):
        full = None
        try:
            if run['out'] == 'stdoutfull':
                full = open('/dev/full', 'wb')
            p = subprocess.Popen([bins[run['tool']]] + run['argv'], cwd=run['dir'], env=dict(os.environ, HOME=self.c.work, GIT_CONFIG_NOSYSTEM='1', GIT_CEILING_DIRECTORIES=self.root),
                                 stdin=subprocess.PIPE if run['stdin'] is not None else subprocess.DEVNULL,
                                 stdout=full or subprocess.PIPE, stderr=subprocess.PIPE)
            try:
                so, se = p.communicate(run['stdin'], timeout=60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                return dict(hang=True, status=0, stdout=b'', stderr=b'', file=[])
        finally:
            if full:
                full.close()
        f = []
        if run['target'] and run['out'] == 'file' and os.path.isfile(run['target']):
            with open(run['target'], 'rb') as h:
                f = [h.read()]
        return dict(hang=False, status=p.returncode & 255, stdout=so or b'', stderr=se, file=f)


def run_C17(c):
    c.level = 'model_checking'
    models(c, [('CliModel', 'CliModel.cfg')], [('CliModel', 'CliModelCareless.cfg')])
    bins = {t: c.go_build('./cmd/' + t, t) for t in TOOLS}
    R = Runs(c)
    R.sock = os.path.join(c.work, 's.sock')
    srv = subprocess.Popen([c.build(), '-in', '/dev/stdin', '-out', '/dev/null'], stdin=subprocess.PIPE, env=dict(os.environ, VH_MYSQL=R.sock))
    try:
        for _ in range(200):
            if os.path.exists(R.sock):
                break
            time.sleep(.02)
        for _ in range(c.pick(900, 9000)):
            R.one()
        # from and to a server
        dba = b'CREATE TABLE `a` (\n  `x` int(11)\n);'
        dbb = b'CREATE TABLE `b` (\n  `x` int(11)\n);\n\nCREATE TABLE `c``d` (\n  `x` int(11)\n);'
        for tool in TOOLS:
            for o in ('stdout', 'file'):
                for a, b in ((dba, dbb), (dbb, dba), (dba, dba)):
                    d = R.folder()
                    u = {dba: 'mysql://root@unix(%s)/dba' % R.sock, dbb: 'mysql://root@unix(%s)/dbb' % R.sock}
                    args = [u[a]] if tool == 'schemalint' else [u[a], u[b]]
                    t = os.path.join(d, 'out')
                    R.runs.append(dict(tool=tool, argv=(['-o', t] if o == 'file' else []) + args, kinds=['ok'] * len(args), badflag=False, out=o, target=t, dir=d,
                                       stdin=None, bodies=[a, b], txn=True, indent=2))
        runs = R.runs
        # what the library makes of the same sources
        jobs = []
        for x in runs:
            if x['tool'] == 'schemalint':
                jobs.append(dict(op='lint', text=b64(x['bodies'][0]), indent=[' '], n=x['indent']))
            else:
                jobs.append(dict(op='diff', old=b64(x['bodies'][0]), new=b64(x['bodies'][1]), via='strings', txn='on' if x['txn'] else 'off', reps=1))
        lib = c.run_jobs(jobs)
        with ThreadPoolExecutor(8) as ex:
            obs = list(ex.map(lambda x: R.execute(bins, x), runs))
    finally:
        srv.stdin.close()
        srv.wait()
    cases, at = [], []
    memo = {}
    for i, (x, l, o) in enumerate(zip(runs, lib, obs)):
        if l.get('skipped') or l['panic'] or l['hang']:
            continue
        want = l['r'] if x['tool'] == 'schemalint' else l['r'][0]
        computes = not x['badflag'] and all(k == 'ok' for k in x['kinds']) and len(x['kinds']) == (1 if x['tool'] == 'schemalint' else 2)
        if not want['ok'] and computes:
            continue
        w = unb64(want['out']) if want['ok'] else b''
        # the text itself where it is the same: it need not be read
        lit = lambda b: (['='] if b == w else units(b)) if computes and w else units(b)
        cases.append(dict(kind='C17', run=dict(tool=x['tool'], badflag=x['badflag'], srcs=x['kinds'], out=x['out'], empty=w == b'', want=units(w) if len(w) < 30000 else ['=']),
                          o=dict(status=o['status'], stdout=lit(o['stdout']), file=[lit(f) for f in o['file']], message=len(o['stderr'].strip()) > 0), hang=o['hang']))
        at.append(i)
    c.log('%d runs of the commands' % len(cases))
    verdicts = c.judge(cases)

    def describe(k):
        x, o = runs[at[k]], obs[at[k]]
        return dict(command=x['tool'], argv=x['argv'], sources=x['kinds'], out=x['out'], stdin=enc(x['stdin'] or b'')[:500], bodies=[enc(b)[:1500] for b in x['bodies']],
                    status=o['status'], stdout=enc(o['stdout'])[:1500], stderr=enc(o['stderr'])[:600], file=[enc(f)[:1500] for f in o['file']])
    settle(c, cases, verdicts, describe)
    kinds = {}
    for k in range(len(cases)):
        x = runs[at[k]]
        s = '%s -> %s%s' % (','.join(sorted(set(x['kinds']))) or 'no source', x['out'], ' (bad flag)' if x['badflag'] else '')
        kinds[s] = kinds.get(s, 0) + 1
    c.cov = dict(evaluations=len(cases), distinct_nontrivial=len({json.dumps([runs[i]['tool'], runs[i]['argv'], [enc(b) for b in runs[i]['bodies']]]) for i in at}),
                 situations=kinds, succeeded=sum(obs[i]['status'] == 0 for i in at),
                 rule='CliModel.tla: every situation of arguments, sources and output file; the built commands run in scratch folders in randomly drawn situations '
                      '(flags, number of arguments, files, URIs, git, standard input, MySQL, missing, malformed and unreadable sources; standard output, new, existing and '
                      'linked output files, the source itself as output, files that can not be created, full devices) and are held against the same promise; '
                      'nontrivial: distinct command lines and sources',
                 samples=[describe(k) for k in range(0, len(cases), max(1, len(cases) // 4))][:4])

"""C14 and C15: where schemas come from."""
import json, os, stat, subprocess
from urllib.parse import unquote_to_bytes
from vlib import *
from c_diff import settle
from c_fault import models
import gen


def chars(b):
    """one character for each byte"""
    return [enc(bytes([x])) for x in b]


# --------------------------------------------------------------------------
# C14

NAMES = [b'a.sql', b'with space.sql', b'per%cent', b'pre%41fix', b'%2e', b'quest?ion', b'ha#sh', b'caf\xc3\xa9', b'new\nline', b'tab\there', b'semi;colon',
         b'amp&ersand', b'eq=ual', b'plus+plus', b'-', b'-dash', b'1a:b', b'.hidden', b'q\'uote', b'"dq"', b'back\\slash', b'star*', b'\xff\xfe', b'a:b', b'file:x',
         b'localhost', b'~tilde', b'$HOME', b'`id`', b'b%', b'b%4', b'b%zz', b'@at', b'[x]', b'{y}', b'|pipe', b'<lt>', b'colon:', b'\x7fdel', b'UPPER', b'upper']
# what may be the scheme of a URI, and what may not
EDGES = [x + b'b:c' for x in (b'0', b'9', b'a', b'z', b'A', b'Z', b'+', b'-', b'.', b'@', b'[', b'`', b'{', b'_', b' ', b'\xe9', b'')] + \
        [b'b' + x + b':c' for x in (b'0', b'5', b'9', b'a', b'z', b'A', b'Z', b'+', b'-', b'.', b',', b';', b'@', b'[', b'`', b'{', b'_', b' ', b'\xe9', b'%41', b'\\')]
NAMES += sorted(set(EDGES))
DIRS = [b'dir', b'd ir', b'd%20ir', b'dir?x', b'dir#y', b'b\xc3\xa4r', b'dir+z']


class World:
    def __init__(self, c):
        self.c, self.r = c, c.rnd
        self.root = os.path.join(c.work, 'world').encode()
        os.mkdir(self.root)
        self.contents = {}   # bytes -> id
        self.files = {}      # path as bytes -> id
        self.git = {}        # (dir, file, commit) -> id
        self.dbs = {}
        r = self.r
        bodies = [b'', b'\n', bytes(range(256)), b'\x00' * 5, b'\xef\xbb\xbfCREATE', b'no newline', b'crlf\r\n\r\n', b'x' * 70000]
        for d in DIRS:
            os.mkdir(os.path.join(self.root, d))
        for n in NAMES:
            self.write(n, r.choice(bodies) if r.random() < .3 else b'-- %s %d\n' % (n.replace(b'\n', b' '), r.randrange(10**6)))
        for d in DIRS:
            for n in r.sample(NAMES, 6) + [b'a.sql']:
                self.write(d + b'/' + n, b'-- %s/%s\n' % (d, n.replace(b'\n', b' ')))
        for i, b in enumerate(bodies):
            self.write(b'body%d' % i, b)
        self.write(b'big', bytes(r.randrange(256) for _ in range(1000)) * 3000)
        self.write(b'huge', bytes(r.randrange(256) for _ in range(1000)) * 18000 + b'.')
        os.symlink(b'a.sql', os.path.join(self.root, b'link'))
        self.files[b'link'] = self.files[os.path.join(self.root, b'link')] = self.files[b'a.sql']
        os.symlink(b'nowhere', os.path.join(self.root, b'dangling'))
        for n in (b'file:x', b'a:b'):  # these have a scheme
            del self.files[n]
        self.make_git()

    def id(self, b):
        return self.contents.setdefault(b, 'c%d' % len(self.contents))

    def write(self, name, body):
        p = os.path.join(self.root, name)
        with open(p, 'wb') as f:
            f.write(body)
        self.files[name] = self.files[b'./' + name] = self.files[p] = self.id(body)

    def run_git(self, d, *args, **kw):
        e = dict(os.environ, HOME=self.c.work, GIT_CONFIG_NOSYSTEM='1', GIT_AUTHOR_NAME='v', GIT_AUTHOR_EMAIL='v@v', GIT_COMMITTER_NAME='v',
                 GIT_COMMITTER_EMAIL='v@v', GIT_AUTHOR_DATE='2020-01-01T00:00:%02dZ' % self.tick, GIT_COMMITTER_DATE='2020-01-01T00:00:%02dZ' % self.tick)
        p = subprocess.run([b'git', b'-c', b'core.quotePath=false', b'-c', b'init.defaultBranch=main'] + [a if isinstance(a, bytes) else a.encode() for a in args],
                           cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise CheckError('git %r failed: %r' % (args, p.stdout))
        return p.stdout.strip()

    def make_git(self):
        self.tick = 0
        self.repos = []
        names = [b'a.sql', b'sub/b.sql', b'sp ace.sql', b'plus+x', b'per%41', b'\xc3\xa9.sql', b'amp&x=y', b'semi;x', b'ha#sh', b'q?x', b'-x', b'co:lon', b'HEAD']
        for d in (b'repo', b'repo two', b'repo%20'):
            p = os.path.join(self.root, d)
            os.mkdir(p)
            self.run_git(p, 'init', '-q')
            commits = []
            state = {}
            for k in range(3):
                self.tick += 1
                os.makedirs(os.path.join(p, b'sub'), exist_ok=True)
                for n in names:
                    if k == 0 or self.r.random() < .5:
                        state[n] = b'%s of %s in %d\n' % (n, d, k) if self.r.random() < .9 else bytes(range(256))
                        with open(os.path.join(p, n), 'wb') as f:
                            f.write(state[n])
                if k == 2 and self.r.random() < .5:
                    del state[b'a.sql']
                    os.remove(os.path.join(p, b'a.sql'))
                self.run_git(p, 'add', '-A')
                self.run_git(p, 'commit', '-q', '-m', 'c%d' % k)
                commits.append((self.run_git(p, 'rev-parse', 'HEAD'), dict(state)))
            self.run_git(p, 'tag', 'v1', commits[0][0])
            self.run_git(p, 'tag', '-a', '-m', 'x', 'rel/2.0', commits[1][0])
            self.run_git(p, 'branch', 'feature/x+y', commits[1][0])
            self.run_git(p, 'branch', 'caf\u00e9', commits[0][0])
            # a tag goes before a branch of that name, and git says so
            self.run_git(p, 'tag', 'both', commits[1][0])
            self.run_git(p, 'branch', 'both', commits[0][0])
            # what is not committed is not delivered
            for n in names:
                with open(os.path.join(p, n), 'wb') as f:
                    f.write(b'not committed')
            with open(os.path.join(p, b'staged'), 'wb') as f:
                f.write(b'staged')
            self.run_git(p, 'add', 'staged', 'a.sql')
            refs = {}
            for k, (h, st) in enumerate(commits):
                for ref in (h, h[:12], h.upper()[:14] if False else h[:9]):
                    refs[ref] = st
                refs[[b'HEAD~2', b'HEAD~1', b'HEAD'][k]] = st
            refs[b'HEAD^'] = refs[b'HEAD~1']
            refs[b'main'] = refs[b'HEAD']
            refs[b'v1'] = commits[0][1]
            refs[b'refs/tags/v1'] = commits[0][1]
            refs[b'both'] = commits[1][1]
            refs[b'rel/2.0'] = commits[1][1]
            refs[b'feature/x+y'] = commits[1][1]
            refs['caf\u00e9'.encode()] = commits[0][1]
            for ref, st in refs.items():
                for n, body in st.items():
                    self.git[(p, n, ref)] = self.id(body)
                    self.git[(p + b'/sub', n, ref)] = self.id(body)
            if d == b'repo':
                self.damage(p)
            self.repos.append((p, names + [b'staged', b'sub', b'missing', b'sub/', b''], list(refs)))

    def damage(self, repo):
        """A repository with objects that git finds out to be broken when it has delivered some of them"""
        p = self.damaged = os.path.join(self.root, b'damaged')
        os.mkdir(p)
        self.run_git(p, 'init', '-q')
        self.tick += 1
        bodies = {b'whole.sql': b'-- whole\n', b'large.sql': bytes(self.r.randrange(256) for _ in range(1000)) * 300 + b'.',
                  b'huge.sql': bytes(self.r.randrange(256) for _ in range(1000)) * 4500 + b'.'}
        for k in range(8):
            bodies[b'cut%d.sql' % k] = bytes(self.r.randrange(256) for _ in range([300, 3000, 30000, 300000][k % 4]))
        for n, b in bodies.items():
            with open(os.path.join(p, n), 'wb') as f:
                f.write(b)
        self.run_git(p, 'add', '-A')
        self.run_git(p, '-c', 'gc.auto=0', 'commit', '-q', '-m', 'c')
        for n, b in bodies.items():
            h = self.run_git(p, 'rev-parse', b'HEAD:' + n).decode()
            o = os.path.join(p.decode(), '.git', 'objects', h[:2], h[2:])
            if not n.startswith(b'cut'):
                self.git[(p, n, b'HEAD')] = self.git[(p, n, b'main')] = self.id(b)
                continue
            os.chmod(o, 0o644)
            with open(o, 'rb') as f:
                z = f.read()
            with open(o, 'wb') as f:
                f.write(z[:len(z) // 2] if n < b'cut4.sql' else z[:-9] if n < b'cut6.sql' else z[:len(z) // 2] + b'\x55' * 40 + z[len(z) // 2 + 40:])

    def table(self):
        t = {}
        for i in range(256):
            t['%02x' % i] = enc(bytes([i]))
        t['control'] = chars(bytes(range(32)) + b'\x7f')
        return t

    def spec(self):
        sizes = [dict(id=i, size=len(b)) for b, i in self.contents.items()]
        return dict(table=self.table(), stdin='none', sizes=sizes,
                    files=[dict(path=chars(p), id=i) for p, i in self.files.items()],
                    git=[dict(dir=chars(d), file=chars(f), commit=chars(h), id=i) for (d, f, h), i in self.git.items()],
                    mysql=[dict(dsn=chars(d), id=i) for d, i in self.dbs.items()])

    # ---- source strings
    def escape(self, text, keep, p, plus=False):
        out = bytearray()
        for x in text:
            ch, a, b = bytes([x]), self.r.random(), self.r.random()  # as many for any name of the scratch folder
            if plus and ch == b' ' and a < .5:
                out += b'+'
            elif ch in keep or (ch.isalnum() and a > p):
                out += ch
            else:
                out += (b'%%%02X' if b < .5 else b'%%%02x') % x
        return bytes(out)

    def scheme(self, s):
        return s if self.r.random() < .8 else bytes(self.r.choice([bytes([x]).upper(), bytes([x])])[0] for x in s)

    def host(self):
        return self.r.choice([b''] * 6 + [b'localhost'] * 2)

    def path(self, p):
        return self.escape(p, [b'/', b'-', b'_', b'.', b'~'] + self.r.choice([[], [b' ', b'+', b'&', b'=', b';', b'@', b':', b'$']]), self.r.choice([0, .3]))

    def file_uri(self):
        p = self.r.choice([x for x in self.files if x.startswith(b'/')])
        u = self.scheme(b'file') + b'://' + self.host() + self.path(p)
        if self.r.random() < .1:
            u += b'#fragment'
        return u

    def git_uri(self):
        d, names, refs = self.r.choice(self.repos)
        if self.r.random() < .2:
            d = d + b'/sub'
        elif self.r.random() < .06:
            d = self.r.choice([self.root, os.path.join(self.root, b'nowhere'), d + b'/a.sql'])
        f, h = self.r.choice(names), self.r.choice(refs)
        k = self.r.random()
        if k < .06:
            h = self.r.choice([b'nosuch', b'--help', b'-p', b'HEAD~9', b'v1 ', b'deadbeef', b'--batch', b'HEAD:sub', b'-', b'main..v1', b'--textconv', b'HEAD -- '])
        return self.git_string(d, f, h)

    def git_string(self, d, f, h):
        esc = lambda b: self.escape(b, [b'/', b'-', b'_', b'.', b'~'] + self.r.choice([[], [b':', b'@', b'^']]), self.r.choice([0, .3]), plus=True)
        params = [b'file=' + esc(f), b'commitish=' + esc(h)]
        if self.r.random() < .3:
            params.append(self.r.choice([b'x=y', b'', b'file2=z', b'commit=v1', b'File=a.sql', b'=', b'y']))
        if self.r.random() < .1:
            params.append(self.r.choice([b'file=other', b'commitish=v1']))
            first = params[:2]
        self.r.shuffle(params[:2])
        q = b'&'.join(params)
        if self.r.random() < .05:
            i = self.r.randrange(len(q) + 1)
            q = q[:i] + self.r.choice([b';', b'%', b'%4', b'%zz', b'&', b'+', b'%00']) + q[i:]
        return self.scheme(b'local-git') + b'://' + self.host() + self.path(d) + b'?' + q + (b'#f' if self.r.random() < .05 else b'')

    def mutate(self, u):
        r = self.r
        for _ in range(r.choice([1, 1, 2])):
            i = r.randrange(len(u) + 1)
            k = r.random()
            if k < .35 and u:
                u = u[:i] + u[i + 1:]
            elif k < .75:
                u = u[:i] + r.choice([b'%', b'%4', b'%00', b'?', b'#', b'&', b'=', b';', b':', b' ', b'x', b'-', b'+', b'\n', b'\x00', b'@', b'%2f', b'%2E', b'\xff', b'A', b'[', b'\t', b'1']) + u[i:]
            elif u:
                j = min(i, len(u) - 1)
                u = u[:j] + bytes([r.choice(b'abzAZ019-_%?#:;@+ ')]) + u[j + 1:]
        return u

    def git_facts(self, u):
        """other names of commits and directories, as git and the file system know them"""
        head, _, q = u.split(b'#')[0].partition(b'?')
        dirs = []
        i = head.find(b'//')
        j = head.find(b'/', i + 2)
        if i >= 0 and j >= 0:
            d = unquote_to_bytes(head[j:])
            if b'\x00' not in d:
                dirs.append(d)
        files, commits = [], []
        for part in q.split(b'&'):
            k, _, v = part.partition(b'=')
            k, v = unquote_to_bytes(k.replace(b'+', b' ')), unquote_to_bytes(v.replace(b'+', b' '))
            if k == b'file':
                files.append(v)
            elif k == b'commitish' and v and not v.startswith(b'-') and b'\x00' not in v:
                commits.append(v)
        for d in dirs:
            real = os.path.realpath(d)
            for p, names, refs in self.repos:
                if real not in (p, p + b'/sub') or not os.path.isdir(d):
                    continue
                for v in commits:
                    h = v
                    if v not in refs:
                        x = subprocess.run([b'git', b'rev-parse', b'-q', b'--verify', v + b'^{commit}'], cwd=p, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
                        h = x.stdout.strip()
                    for f in files:
                        if (p, f, h) in self.git:
                            self.git[(d, f, v)] = self.git[(p, f, h)]

    def facts(self, u):
        cand = {u}
        for k in (b'#', b'?#', b''):
            x = u
            for ch in k:
                x = x.split(bytes([ch]))[0]
            cand.add(x)
            i = x.find(b'//')
            if i >= 0:
                rest = x[i + 2:]
                j = rest.find(b'/')
                if j >= 0:
                    cand.add(rest[j:])
                    cand.add(unquote_to_bytes(rest[j:]))
        for p in cand:
            if p in self.files or b'\x00' in p or not p:
                continue
            full = p if p.startswith(b'/') else os.path.join(self.root, p)
            try:
                if stat.S_ISREG(os.stat(full).st_mode):
                    with open(full, 'rb') as f:
                        self.files[p] = self.id(f.read())
            except OSError:
                pass


def run_C14(c):
    c.level = 'fault_enumeration'
    r = c.rnd
    models(c, [('CopyModel', 'CopyModel.cfg')], [('CopyModel', 'CopyModelCareless.cfg')])
    w = World(c)
    sock = os.path.join(w.root, b'my.sock')
    dba = b'CREATE TABLE `a` (\n  `x` int(11)\n);'
    dbb = b'CREATE TABLE `b` (\n  `x` int(11)\n);\n\nCREATE TABLE `c``d` (\n  `x` int(11)\n);'
    for pre in (b'', b'root@', b'user:p%40ss@', b'u:a:b/c@', b'x:y@z@'):
        for s in (b'my.sock', b'./my.sock', sock):
            for suf in (b'', b'?charset=utf8', b'?autocommit=1', b'?charset=utf8mb4,utf8&parseTime=true', b'?timeout=9s&readTimeout=9s'):
                w.dbs[pre + b'unix(' + s + b')/dba' + suf] = 'dba'
                w.dbs[pre + b'unix(' + s + b')/dbb' + suf] = 'dbb'
                w.dbs[pre + b'unix(' + s + b')/' + suf] = w.id(b'')
    uris = list(w.files) + [b'-/', b'--', b'dangling', b'missing', b'.', b'dir', b'./missing', b'', b' -', b'- ', b'-x', b'a.sql/', b'a.sql\x00', b'A.SQL']
    uris += list(b'mysql://' + d for d in r.sample(list(w.dbs), c.pick(60, len(w.dbs))))
    uris += [b'mysql://root@unix(nosuch.sock)/dba', b'mysql://root@unix(my.sock)/nosuch', b'mysql://', b'mysql://root@unix(my.sock)', b'mysql://root@unix(my.sock/dba',
             b'mysql://root@unix(my.sock)/dba?nosuchvariable=1', b'mysql://root@unix(my.sock)/dba?tls=true', b'mysql:///', b'mysql://localhost/dba?timeout=0',
             b'mysql://root@unix(my.sock)/dba?tls=true&ssl-ca=a.sql&ssl-cert=a.sql&ssl-secret=a.sql', b'mysql://root@nonet(my.sock)/dba']
    uris += [b'http://localhost/a.sql', b'https://x/y', b'ftp://localhost/x', b'filex:///x', b'git:///x', b'local-gitx:///x', b'local:///x', b'data:,x', b'mysqlx://',
             b'ssh://x', b'C:\\x', b'C:/x', b'x:', b'file://host' + w.root + b'/a.sql', b'file://host:80' + w.root + b'/a.sql', b'file://127.0.0.1' + w.root + b'/a.sql',
             b'file://localhost:80' + w.root + b'/a.sql', b'file://a.sql', b'file://localhost.evil' + w.root + b'/a.sql', b'file://xlocalhost' + w.root + b'/a.sql',
             b'file://' + w.root, b'file://' + w.root + b'/missing', b'stdin://', b'std-in:-', b'file+x://' + w.root + b'/a.sql', b'git+file://' + w.root + b'/a.sql']
    for d, names, refs in w.repos:
        h = refs[0]
        for host in (b'remote', b'github.com', b'localhost:22', b'127.0.0.1', b'local'):
            uris.append(b'local-git://' + host + d.replace(b' ', b'%20').replace(b'%20', b'%2520' if d.endswith(b'%20') else b'%20') + b'?file=a.sql&commitish=HEAD')
        for f in names:
            for h in r.sample(refs, c.pick(4, len(refs))):
                uris.append(w.git_string(d, f, h))
    for k in range(8):
        uris += [w.git_string(w.damaged, b'cut%d.sql' % k, h) for h in (b'HEAD', b'main')]
    uris += [w.git_string(w.damaged, n, h) for n in (b'whole.sql', b'large.sql', b'huge.sql') for h in (b'HEAD', b'main')]
    uris += [w.file_uri() for _ in range(c.pick(350, 3000))]
    gits = [w.git_uri() for _ in range(c.pick(350, 3000))]
    uris += gits
    uris += [w.mutate(w.file_uri()) for _ in range(c.pick(500, 5000))]
    uris += [w.mutate(w.git_uri()) for _ in range(c.pick(250, 2500))]
    uris += [w.mutate(r.choice(list(w.files))) for _ in range(c.pick(300, 3000))]
    uris = [u for u in uris if not (u.lower().startswith(b'mysql:') and not u.startswith(b'mysql://')) and u != b'-']
    for u in uris:
        w.facts(u)
        w.git_facts(u)
    limits = [-1] * len(uris)
    more = []
    for u in r.sample(uris, min(len(uris), c.pick(250, 2500))):
        more.append(u)
        limits.append(r.choice([0, 0, 1, 5, 100, 40000]))
    uris += more
    jobs = [dict(op='source', uri=enc(u), limit=l) for u, l in zip(uris, limits)]
    cwd = w.root.decode()
    genv = dict(GIT_CONFIG_NOSYSTEM='1', HOME=c.work, GIT_CEILING_DIRECTORIES=cwd, VH_MYSQL=os.path.join(cwd, 'my.sock'))
    res = c.run_jobs(jobs, cwd=cwd, env=genv)
    # standard input, one process each
    stdin = ['none'] * len(uris)
    for body in [b'', b'CREATE TABLE t (a INT);', bytes(range(256)) * 300, b'\n']:
        for l in (-1, 0, 20):
            x = c.run_jobs([dict(op='source', uri='-', limit=l)], cwd=cwd, env=genv, stdin=body)
            res += x
            uris.append(b'-')
            limits.append(l)
            stdin.append(w.id(body))
    texts = {dba: 'dba', dbb: 'dbb'}
    texts.update((b, i) for b, i in w.contents.items())
    # what stands between the statements of a database is up to the source
    squashed = {b''.join(b.split()): i for b, i in ((dba, 'dba'), (dbb, 'dbb'))}
    spec = w.spec()
    spec['sizes'] += [dict(id='dba', size=len(dba)), dict(id='dbb', size=len(dbb))]
    fn = os.path.join(c.work, 'world.json')
    with open(fn, 'w', encoding='utf-8') as f:
        json.dump(spec, f, ensure_ascii=False)
    os.environ['WORLD'] = fn
    cases = []
    for u, l, s, x in zip(uris, limits, stdin, res):
        if x.get('skipped'):
            continue
        o = x['r'] or dict(neither=False, ok=False, out=None)
        got = 'neither' if o['neither'] else 'error' if not o['ok'] else texts.get(unb64(o['out'])) or squashed.get(b''.join(unb64(o['out']).split()), 'something else')
        cases.append(dict(kind='C14', uri=chars(u), limit=l, stdin=s, got=got, panic=x['panic'], hang=x['hang'],
                          text=(o.get('text') or '')[:300], out=enc(unb64(o['out'])[:300]) if o['ok'] else ''))
    c.log('%d source strings resolved and read' % len(cases))

    # copies
    copies, cj = [], []
    for _ in range(c.pick(60, 700)):
        data = r.choice([b'', b'x', b'CREATE TABLE t (a INT);\n', bytes(r.randrange(256) for _ in range(r.randrange(1, 40)))])
        base = dict(op='copy', data=b64(data), limit=-1, chunk=r.choice([0, 1, 2, 5]), joined=r.random() < .5, zero=r.random() < .4, dst=-1, late=False)
        cj.append(base)
        for k in range(len(data) + 1):
            cj.append(dict(base, limit=k, joined=r.random() < .5))
            if k < len(data):
                cj.append(dict(base, dst=k, late=r.random() < .3))
        for _ in range(4):
            cj.append(dict(base, limit=r.randrange(len(data) + 1), dst=r.randrange(len(data) + 1)))
    big = bytes(r.randrange(256) for _ in range(3)) * 30000
    for k in range(6):
        cj.append(dict(op='copy', data=b64(big), limit=-1 if k < 3 else r.randrange(len(big)), chunk=r.choice([0, 5000]), joined=k % 2 == 0, zero=False,
                       dst=-1 if k % 3 else r.randrange(len(big)), late=False))
    nbig = 6
    cres = c.run_jobs(cj)
    for j, x in zip(cj, cres):
        cases.append(dict(kind='C14copy', ev=x['r'] or [], panic=x['panic'], hang=x['hang'], job=dict(j, data=j['data'][:80])))
    c.log('%d copies' % len(cj))
    verdicts = c.judge(cases)

    def describe(i):
        k = cases[i]
        if k['kind'] == 'C14copy':
            return dict(job=k['job'], events=k['ev'][:50])
        return dict(source=''.join(k['uri']), limit=k['limit'], got=k['got'], error=k['text'], delivered=k['out'])
    settle(c, cases, verdicts, describe)
    got = {}
    for k in cases:
        if k['kind'] == 'C14':
            s = 'error' if k['got'] == 'error' else 'content'
            got[s] = got.get(s, 0) + 1
    c.cov = dict(evaluations=len(cases), distinct_nontrivial=len(set(uris)) + len({json.dumps(j, sort_keys=True) for j in cj}),
                 outcomes=got, copies=len(cj), files=len(w.files), git_objects=len(w.git), model_states=c.counts['states'], model_transitions=c.counts['transitions'],
                 rule='a scratch folder of files with odd names and contents, three git repositories with three commits each, and a MySQL server on a socket: '
                      'every file by name, files and git objects by randomly escaped URIs, near misses of all of these, standard input, destinations that fail; '
                      'copies from readers that split, fail and end at every position; nontrivial: distinct source strings and copies',
                 samples=[describe(i) for i in range(0, len(cases), len(cases) // 6)][:6])


# --------------------------------------------------------------------------
# C15

def reply_size(kind, tables, cols):
    """bytes of an answer (an upper bound will do)"""
    n = 5 + 9 * 2
    for _ in range(cols):
        n += 45
    for t in tables:
        n += 4 + 8 + len(t[0]) + (len(t[1]) + 4 if kind == 'create' else 0)
    return n


def run_C15(c):
    c.level = 'fault_enumeration'
    r = c.rnd
    models(c, [('MySQLModel', 'MySQLModel.cfg')], [('MySQLModel', 'MySQLModelCareless.cfg')])
    g = gen.Gen(r, odd=.2)
    certs = os.path.join(c.work, 'certs')
    os.mkdir(certs)
    x = c.run_jobs([dict(op='certs', dir=certs)])[0]
    if not x['r']:
        raise CheckError('no certificates: %r' % x)

    def tables(n, small):
        out = []
        used = set()
        for k in range(n):
            name = g.name(used) if r.random() < .7 else r.choice(['a`b', 'x y', '``', 'caf\u00e9', 'a;b', "q'uote", 'a.b', 't\n', '-- x'])
            name = enc(name.encode()) if not isinstance(name, bytes) else enc(name)
            if name in used or not name:
                continue
            used.add(name)
            if small:
                text = 'CREATE TABLE t%d' % k
            else:
                text = enc(gen.spell(r, [g.table('t')], 'plain').strip().rstrip(b';'))
            out.append(dict(name=name, text=text))
        return out

    jobs = []

    def job(ts, faults, **kw):
        j = dict(op='mysql', tables=ts, faults=faults, chunk=0, net='tcp', params='', ca='', cert='', key='', limit=-1)
        j.update(kw)
        if j['net'] == 'tls':
            j.update(ca=certs + '/ca.pem', cert=certs + '/cert.pem', key=certs + '/key.pem')
        jobs.append(j)

    none = dict(on='', idx=0, kind='', at=0)
    # nothing goes wrong
    for k in range(c.pick(60, 800)):
        job(tables(r.randrange(0, 6), False), [none], net=r.choice(['tcp', 'unix', 'tls']), chunk=r.choice([0, 0, 1, 3, 50]),
            params=r.choice(['', '', 'charset=utf8', 'autocommit=1', 'charset=utf8mb4,utf8&parseTime=true', 'sql_quote_show_create=1', 'interpolateParams=true']))
    job([dict(name='big%d' % k, text='CREATE TABLE ' + 'x' * n) for k, n in enumerate((250, 251, 252, 65535, 65536, 300000))], [none], chunk=4096)
    job([dict(name='t%d' % k, text='CREATE TABLE t%d' % k) for k in range(c.pick(150, 1500))], [none], net='unix')
    # connections that end after every byte
    step = c.pick(3, 1)
    for n in c.pick([0, 1, 2, 3], [0, 1, 2, 3, 4, 6]):
        ts = tables(n, True)
        n = len(ts)
        pairs = [(dec(t['name']), dec(t['text'])) for t in ts]
        drops = [dict(on='handshake', idx=0, kind='drop', at=k) for k in range(0, 80, step)] + [dict(on='auth', idx=0, kind='drop', at=k) for k in range(0, 12)]
        drops += [dict(on='tables', idx=0, kind='drop', at=k) for k in range(reply_size('tables', pairs, 1))]
        for i in range(n):
            drops += [dict(on='create', idx=i, kind='drop', at=k) for k in range(r.randrange(step), reply_size('create', pairs[i:i + 1], 2), step)]
        bad = []
        for kind in ('err', 'seq'):
            bad += [dict(on='handshake', idx=0, kind=kind, at=0), dict(on='auth', idx=0, kind=kind, at=0)]
            bad += [dict(on='tables', idx=0, kind=kind, at=k) for k in range(0, n + 5)]
            for i in range(n):
                bad += [dict(on='create', idx=i, kind=kind, at=k) for k in range(0, 7)]
        for kind in ('nulls', 'norows', 'morecols', 'fewcols'):
            bad += [dict(on='tables', idx=0, kind=kind, at=k) for k in range(max(1, n))]
            bad += [dict(on='create', idx=i, kind=kind, at=0) for i in range(n)]
        faults = drops + bad
        for net in ['tcp', 'unix'] + (['tls'] if n == 2 else []):
            fs = faults if net != 'tls' else r.sample(faults, len(faults) // 4)
            for b in range(0, len(fs), 60):
                job(ts, fs[b:b + 60], net=net, chunk=r.choice([0, 0, 1, 7]))
        # and the destination
        total = sum(len(x[1]) + 3 for x in pairs)
        for k in range(total + 1):
            job(ts, [none], net='unix', limit=k)
    # faults after much has been read
    for n in (1100, 5000, 40000, 70000):
        ts = [dict(name='t%d' % k, text="CREATE TABLE t%d -- " % k + 'x' * n) for k in range(4)]
        fs = [dict(on='create', idx=i, kind=kind, at=at) for i in range(4) for kind, ats in (('err', [0, 2]), ('norows', [0]), ('drop', [0, 60, 140, 150 + n // 2])) for at in ats]
        job(ts, fs, net='unix')
    # servers that do not speak TLS, are not there, or have another name
    res = c.run_jobs(jobs, timeout=300)
    cases, at = [], []
    for i, (j, x) in enumerate(zip(jobs, res)):
        if x.get('skipped'):
            continue
        runs = x['r'] if x['r'] is not None else [[]]
        for k, ev in enumerate(runs):
            f = j['faults'][k] if x['r'] is not None else none
            name = '%s/%d %s at %d' % (f['on'], f['idx'], f['kind'], f['at']) if f['kind'] else 'none'
            cases.append(dict(kind='C15', ev=ev, fault=name, panic=x['panic'], hang=x['hang']))
            at.append((i, k))
    c.log('%d conversations' % len(cases))
    verdicts = c.judge(cases)

    def describe(i):
        j, k = jobs[at[i][0]], at[i][1]
        return dict(net=j['net'], params=j['params'], chunk=j['chunk'], limit=j['limit'], tables=[dict(t, text=t['text'][:200]) for t in j['tables'][:10]],
                    fault=j['faults'][k], events=[dict(e, out=e['out'][:500], rows=[dict(q, text=q['text'][:100]) for q in e['rows'][:10]]) for e in cases[i]['ev']])
    settle(c, cases, verdicts, describe)
    kinds, ok = {}, 0
    for i, k in enumerate(cases):
        f = jobs[at[i][0]]['faults'][at[i][1]]
        s = (f['on'] + ' ' + f['kind']).strip() or ('destination' if jobs[at[i][0]]['limit'] >= 0 else 'none')
        kinds[s] = kinds.get(s, 0) + 1
        ok += bool(k['ev'] and k['ev'][-1]['ok'])
    c.cov = dict(evaluations=len(cases), distinct_nontrivial=len({json.dumps([jobs[a]['tables'], jobs[a]['net'], jobs[a]['faults'][b], jobs[a]['limit']], sort_keys=True) for a, b in at}),
                 faults=kinds, succeeded=ok, model_states=c.counts['states'], model_transitions=c.counts['transitions'],
                 rule='a scripted MySQL server on loopback (TCP, socket, TLS) with up to 6 tables of odd names: connections that end after each byte of each answer, '
                      'errors and wrong sequence numbers in place of each packet, rows with NULLs, too many or too few columns, no rows; destinations that fail at '
                      'each byte; each conversation is replayed against MySQLSource.tla; nontrivial: distinct combinations of tables, connection and fault',
                 samples=[describe(i) for i in range(0, len(cases), max(1, len(cases) // 3))][:3])

"""C13: runs of diff, format and lint in an environment that fails."""
import copy, json, os, subprocess
from vlib import *
from c_diff import settle, text, pair, small_pair
import c_parse, gen


def models(c, good, bad):
    """The design holds, and would not if it were careless"""
    for m in good:
        c.tlc_model(m[0], m[1], heap='4g')
    c.careless('design', bad)


def op_of(what):
    return 'diff' if what.startswith('diff') else 'lint' if what == 'lint' else 'format'


def bad_tables(g, r, pairs):
    """Definitions made with the interface that nothing can print"""
    out = []
    for old, new in pairs:
        old, new = copy.deepcopy(old), copy.deepcopy(new)
        k = r.choice(['type', 'addtype', 'chgtype', 'vals', 'addvals', 'nocols', 'ref', 'addref'])
        if not new:
            continue
        t = r.choice(new)
        if t['like'] or not t['cols']:
            continue
        if k == 'vals':
            r.choice(t['cols']).update(typ=r.choice(['ENUM', 'SET']), vals=[], len=[], dec=[])
        elif k == 'type':
            r.choice(t['cols'])['typ'] = r.choice(['', '?max', '?beyond', '?negative'])
        else:
            # in a table that is there already
            if not any(x['name'] == t['name'] for x in old):
                old.append(copy.deepcopy(t))
            base = [x for x in old if x['name'] == t['name']][0]
            if base['like']:
                continue
            if k == 'addvals':
                t['cols'].insert(r.randrange(len(t['cols']) + 1), c_parse.one_column('bad_col', r.choice(['ENUM', 'SET'])))
            elif k == 'addtype':
                t['cols'].insert(r.randrange(len(t['cols']) + 1), c_parse.one_column('bad_col', r.choice(['', '?max', '?beyond', '?negative'])))
            elif k == 'chgtype':
                x = r.choice(t['cols'])
                if not any(y['name'] == x['name'] for y in base['cols']):
                    base['cols'].append(copy.deepcopy(x))
                x['typ'] = r.choice(['', '?max', '?beyond', '?negative'])
            else:
                x = dict(kind='NORMAL', sym=[], name=['bad_idx'], typ='none', cols=[], opts=[], ref=[])
                if k == 'ref' or k == 'addref':
                    cc = [dict(n=t['cols'][0]['name'], len=[], dir='none')]
                    x = dict(kind='FOREIGN', sym=['bad_idx'], name=[], typ='none', cols=cc, opts=[],
                             ref=[dict(t='r', cols=copy.deepcopy(cc), match='none', **{'del': 'none', 'upd': 'none'})])
                    if r.random() < .3:
                        x['ref'][0]['cols'] = []
                    else:
                        x['ref'][0][r.choice(['del', 'upd'])] = 'bad'
                t['idx'].insert(r.randrange(len(t['idx']) + 1), x)
                if k == 'addref':
                    # the table is new
                    old = [y for y in old if y['name'] != t['name']]
        out.append((k, old, new))
    return out


def named_sources(c, r, pairs):
    """Sources as they are named, with something wrong behind them: broken objects in a repository, missing and unreadable files,
    servers that fail. What can be read of them parses."""
    d = os.path.join(c.work, 'named').encode()
    repo = os.path.join(d, b'repo')
    os.makedirs(repo)
    env = dict(os.environ, HOME=c.work, GIT_CONFIG_NOSYSTEM='1')

    def git(*a):
        p = subprocess.run(('git', '-c', 'user.name=v', '-c', 'user.email=v@v', '-c', 'gc.auto=0', '-c', 'init.defaultBranch=main') + a, cwd=repo, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise CheckError('git %r failed: %r' % (a, p.stdout))
        return p.stdout.strip().decode()
    sql = b'CREATE TABLE `named` (\n  `a` INT (11) NOT NULL\n);'
    blank = lambda n: bytes(r.choice(b' \n\t\r') for _ in range(n))
    body = {'whole.sql': sql}
    for k, n in enumerate([200, 20000, 200000, 300000, 600000]):
        body['cut%d.sql' % k] = (sql if k % 2 else b'') + blank(n)
    body['mid.sql'] = sql + blank(200000) + sql.replace(b'named', b'second') + blank(50)
    for n, b in body.items():
        with open(os.path.join(repo, n.encode()), 'wb') as f:
            f.write(b)
    git('init', '-q')
    git('add', '-A')
    git('commit', '-q', '-m', 'c')
    for n in body:
        if n != 'whole.sql':
            h = git('rev-parse', 'HEAD:' + n)
            o = os.path.join(repo.decode(), '.git', 'objects', h[:2], h[2:])
            os.chmod(o, 0o644)
            with open(o, 'r+b') as f:
                f.truncate(os.path.getsize(o) * 4 // 5 if n != 'cut3.sql' else os.path.getsize(o) - 6)
    g = lambda f, h='HEAD': enc(b'local-git://' + repo + b'?file=' + f.encode() + b'&commitish=' + h.encode())
    bad = [g(n) for n in body if n != 'whole.sql']
    bad += [g('missing.sql'), g('whole.sql', 'nosuch'), g('whole.sql', 'HEAD~1'), enc(b'local-git://' + d + b'?file=whole.sql&commitish=HEAD'),
            enc(b'local-git://' + d + b'/nosuch?file=whole.sql&commitish=HEAD'), enc(b'file://' + d + b'/missing.sql'), enc(b'file://' + d), enc(d + b'/missing.sql'), enc(d),
            enc(d + b'/repo/whole.sql/x'), 'mysql://u@unix(' + enc(d) + '/nosuch)/db']
    jobs = []
    tables = [dict(name=n, text='CREATE TABLE `%s` (\n  `x` int(11)\n)' % n) for n in ('a', 'b', 'c')]
    faults = [dict(On=on, Idx=i, Kind=k, At=p) for on, i in (('handshake', 0), ('auth', 0)) for k in ('drop', 'err') for p in ((0, 3) if k == 'drop' else (0,))]
    faults += [dict(On='tables', Idx=0, Kind=k, At=p) for k in ('drop', 'err') for p in range(0, 60 if k == 'drop' else 7, 7 if k == 'drop' else 1)]
    faults += [dict(On='create', Idx=i, Kind=k, At=p) for i in range(3) for k in ('drop', 'err') for p in range(0, 120 if k == 'drop' else 6, 13 if k == 'drop' else 1)]
    faults += [dict(On='create', Idx=i, Kind=k, At=0) for i in range(3) for k in ('norows', 'fewcols')]
    good = [dict(On='', Idx=0, Kind='', At=0)]
    others = [b'', sql, b'CREATE TABLE `z` (`a` INT);'] + [w for _, w in pairs[:c.pick(3, 60)]]
    for k, o in enumerate(others):
        txn = r.choice(['none', 'on', 'off'])
        for u, f, ok in ((bad, [], False), ([], faults, False), ([g('whole.sql')], [], True), ([], good, True)):
            jobs.append(dict(op='badsrc', uris=u, other=b64(o), txn=txn, tables=tables, faults=f, good=ok))
    return jobs


def run_C13(c):
    c.level = 'fault_enumeration'
    r = c.rnd
    models(c, [('EmitModel', 'EmitModel.cfg')], [('EmitModel', 'EmitModelCareless.cfg')])
    g = gen.Gen(r, odd=.12)
    jobs = []
    n = c.pick(30, 400)
    pairs = []
    for k in range(n):
        o, w = pair(c, g) if r.random() < .5 else small_pair(g, r)
        o, w = text(c, o), text(c, w)
        if r.random() < .3:
            if r.random() < .5:
                o = c_parse.broken(c, g)
            else:
                w = c_parse.broken(c, g)
        pairs.append((o, w))
    pairs += [(b'', b''), (b'CREATE TABLE t (a INT);', b''), (b'', b'CREATE TABLE t (a INT);'), (b'CREATE TABLE t (a INT)', b'CREATE'), (b'x', b'')]
    for o, w in pairs:
        txn = r.choice(['none', 'on', 'off'])
        jobs.append(dict(op='emit', old=b64(o), new=b64(w), txn=txn, max=c.pick(240, 2000), indent=r.choice([[], [' '], ['\t']])))
        jobs.append(dict(op='readfault', old=b64(o), new=b64(w), txn=txn, max=c.pick(40, 400), seed=r.randrange(1000)))
    at = [(o, w, False) for o, w in pairs for _ in range(2)]
    raw = [small_pair(g, r) if r.random() < .6 else pair(c, g) for _ in range(c.pick(150, 3000))]
    bads = {}
    for k, o, w in bad_tables(g, r, raw):
        bads[k] = bads.get(k, 0) + 1
        jobs.append(dict(op='badstmts', old=o, new=w, txn=r.choice(['none', 'on'])))
        at.append((b'', b'', True))
    for j in named_sources(c, r, pairs):
        jobs.append(j)
        at.append((b'', unb64(j['other']), False))
    res = c.run_jobs(jobs, timeout=120, env=dict(GIT_CONFIG_NOSYSTEM='1', HOME=c.work, GIT_CEILING_DIRECTORIES=c.work))
    cases, src = [], []
    for i, ((o, w, b), x) in enumerate(zip(at, res)):
        if x.get('skipped'):
            continue
        if x['r'] is None:
            cases.append(dict(kind='C13', old=units(o), new=units(w), op='diff', badstmts=b, panic=x['panic'], hang=x['hang'],
                              set=dict(what='', need=0, total=-1, runs=[])))
            src.append(i)
        for s in x['r'] or []:
            s = dict(s, runs=[dict(q, ev=[dict(e=e['e'], n=e['n'], t=e['t'], ok=e['ok'], f=e['f']) for e in q['ev']]) for q in s['runs']])
            cases.append(dict(kind='C13', old=units(o), new=units(w), op=op_of(s['what']), badstmts=b, panic='', hang=False, set=s))
            src.append(i)
    runs = sum(len(k['set']['runs']) for k in cases)
    c.log('%d runs of %d operations' % (runs, len(cases)))
    verdicts = c.judge(cases)

    def describe(i):
        k, j = cases[i], jobs[src[i]]
        d = dict(job=j, op=k['set']['what'])
        if 'old' in j and not k['badstmts']:
            d.update(old=unb64(j['old']).decode('utf-8', 'backslashreplace'), new=unb64(j['new']).decode('utf-8', 'backslashreplace'))
        return d
    settle(c, cases, verdicts, describe)
    faults = {}
    for k in cases:
        for q in k['set']['runs']:
            faults[q['mode']] = faults.get(q['mode'], 0) + 1
    points = {(src[i], k['set']['what'], q['mode'], q['at']) for i, k in enumerate(cases) for q in k['set']['runs'] if q['mode'] != 'none'}
    ops = {}
    for k in cases:
        ops[k['set']['what']] = ops.get(k['set']['what'], 0) + 1
    c.cov = dict(evaluations=runs, distinct_nontrivial=len(points), operations=ops, faults=faults, unprintable=bads,
                 model_states=c.counts['states'], model_transitions=c.counts['transitions'],
                 rule='pairs of random schemas, some malformed: every entry point of diff, format and lint with a destination that fails at '
                      'every byte (at most %d positions each; mode dst: takes what fits, late: takes everything and fails), with sources that '
                      'fail at every position in turn (src, own), missing files, source strings behind which something fails (named: a damaged '
                      'repository, missing files and revisions; mysql: a server that fails at any point), and definitions that can not be printed; the events the '
                      'environment saw are replayed against Emit.tla; nontrivial: distinct points of failure' % c.pick(240, 2000),
                 samples=[dict(op=cases[i]['set']['what'], run=cases[i]['set']['runs'][-1]) for i in range(0, len(cases), max(1, len(cases) // 4))][:4])
    c.assumptions = ['the length of the complete output does not depend on the order in which sets are iterated']

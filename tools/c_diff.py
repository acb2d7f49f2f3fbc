"""C01 to C05 and C12: diffs of pairs of schemas."""
import concurrent.futures, copy, json
from vlib import *
import gen


def small_pair(g, r):
    """Two versions of few tables over few columns: dense in planner decisions"""
    names = ['a', 'b', 'c', 'd', 'e'][:r.randrange(2, 6)]

    def col(n, like=None):
        if like is not None and r.random() < .7:
            return copy.deepcopy(like)
        c = g.column(n, r.choice(['INT', 'INT', 'BIGINT', 'VARCHAR']))
        c['com'] = []
        return c

    def table(name, base=None):
        old = {c['name']: c for c in base['cols']} if base else {}
        k = r.randrange(1, len(names) + 1)
        ns = r.sample(names, k)
        if base and r.random() < .6:
            keep = [n for n in (c['name'] for c in base['cols']) if n in ns]
            it = iter(keep)
            ns = [next(it) if n in keep else n for n in ns]
        t = dict(name=name, temp=False, ine=False, like=[], cols=[col(n, old.get(n)) for n in ns], idx=[], opts=[])
        if base:
            for x in base['idx']:
                if all(c['n'] in ns for c in x['cols']) and r.random() < .7:
                    t['idx'].append(copy.deepcopy(x))
        for _ in range(r.randrange(0, 3)):
            kind = r.choice(['NORMAL', 'UNIQUE', 'FOREIGN', 'PRIMARY', 'NORMAL'])
            if kind == 'PRIMARY' and any(x['kind'] == 'PRIMARY' for x in t['idx']):
                continue
            cols = [dict(n=n, len=[], dir='none') for n in r.sample(ns, r.randrange(1, min(len(ns), 2) + 1))]
            used = [n for x in t['idx'] for n in x['name'] + x['sym']]
            free = [n for n in ['i', 'j', 'k', 'l', 'm', 'n', 'o', 'p'] if n not in used]
            x = dict(kind=kind, sym=[], name=[] if kind == 'PRIMARY' else [r.choice(free)], typ='none', cols=cols, opts=[], ref=[])
            if kind == 'FOREIGN':
                x['sym'], x['name'] = x['name'], []
                x['ref'] = [dict(t='r', cols=copy.deepcopy(cols), match='none', upd='none', **{'del': r.choice(['none', 'cascade'])})]
            t['idx'].append(x)
        return t

    tabs = ['t', 'u', 'v'][:r.randrange(1, 4)]
    old = [table(n) for n in tabs if r.random() < .85]
    by = {t['name']: t for t in old}
    new = [table(n, by.get(n) if r.random() < .9 else None) for n in tabs if r.random() < .9]
    r.shuffle(new)
    return old, new


def pair(c, g):
    old, new = pair0(c, g)
    return g.alike(old, new) if c.rnd.random() < .1 else (old, new)


def pair0(c, g):
    r = c.rnd
    k = r.random()
    if k < .12:
        old = g.schema()
        new = g.near_edit(old if r.random() < .7 else g.edit(old, 1))
        return (old, new) if r.random() < .8 else (new, old)
    if k < .5:
        return small_pair(g, r)
    if k < .9:
        old = g.schema()
        return old, g.edit(old)
    if k < .96:
        old = g.schema()
        new = g.schema()
        for a, b in zip(old, new):
            if r.random() < .6 and not any(t['name'] == a['name'] for t in new):
                b['name'] = a['name']
        return old, new
    return r.choice([([], g.schema()), (g.schema(), []), ([], [])])


def wide_pairs(g, r, n):
    """Much to do at once: from a schema with few of something to one with many, or between two with many"""
    out = []
    for k in range(n):
        what = ['columns', 'columns', 'indexes', 'keys', 'tables'][k % 5]
        big = r.choice([r.randrange(9, 20), r.choice([17, 20, 33]), r.choice([35, 66])] if what != 'keys' else [9, 12, 18])
        names = ['c%d' % i for i in range(2 * big)]
        r.shuffle(names)
        tab = lambda n, cols: dict(name=n, temp=False, ine=False, like=[], cols=cols, idx=[], opts=[])
        col = lambda n: dict(plain_column(n, r.choice(['INT', 'INT', 'BIGINT', 'TEXT'])), com=[n] if r.random() < .1 else [])
        if what == 'tables':
            a = [tab(n, [col('a')]) for n in names[:big]]
            b = r.choice([[], a[:r.randrange(big)], [tab(n, [col('a'), col('b')]) for n in names[big // 2:big // 2 + big]]])
            b = copy.deepcopy(b)
            r.shuffle(b)
        elif what == 'columns':
            keep = names[:r.choice([1, 2, big // 2])]
            many = keep + names[big:2 * big - len(keep)]
            if r.random() < .5:
                # the ones that stay are in order
                pos = sorted(r.sample(range(len(many)), len(keep)))
                it, rest = iter(keep), iter(many[len(keep):])
                many = [next(it) if i in pos else next(rest) for i in range(len(many))]
            few = keep + (names[len(keep):big] if r.random() < .4 else [])
            a, b = [tab('t', [col(n) for n in few])], [tab('t', [col(n) for n in many])]
        else:
            cols = [dict(plain_column(n, 'INT')) for n in names[:5]]
            idx = []
            for i in range(big):
                kind = 'FOREIGN' if what == 'keys' else r.choice(['NORMAL', 'UNIQUE'])
                cc = [dict(n=x, len=[], dir='none') for x in r.sample(names[:5], r.randrange(1, 3))]
                x = dict(kind=kind, sym=[], name=['i%d' % i], typ='none', cols=cc, opts=[], ref=[])
                if kind == 'FOREIGN':
                    x.update(sym=['f%d' % i], name=[], ref=[dict(t='r', cols=copy.deepcopy(cc), match='none', upd='none', **{'del': 'none'})])
                idx.append(x)
            a, b = [tab('t', cols)], [tab('t', copy.deepcopy(cols))]
            cut = r.choice([0, 0, big // 3])
            a[0]['idx'], b[0]['idx'] = idx[:r.choice([0, big // 2])], idx[cut:]
        out.append((a, b) if r.random() < .6 else (b, a))
    return out


def plain_column(name, typ):
    d = dict(name=name, typ=typ, len=[], dec=[], uns=False, zf=False, bin=False, cs=[], co=[], upd=[], nul='none', **{'def': []})
    d.update(ai=False, uniq=False, prim=False, key=False, com=[], vals=[])
    return d


def text(c, schema):
    style = 'plain' if c.rnd.random() < .3 else 'random'
    return gen.spell(c.rnd, schema, style)


def diff_cases(c, kind, pairs, runs, reps):
    """pairs: (old, new) texts; runs: (via, txn) per pair. Returns the cases for TLC"""
    jobs, at = [], []
    for i, (o, n) in enumerate(pairs):
        for via, txn in runs[i]:
            jobs.append(dict(op='diff', old=b64(o), new=b64(n), via=via, txn=txn, reps=reps))
            at.append(i)
    res = c.run_jobs(jobs)
    cases = [dict(kind=kind, old=units(o), new=units(n), runs=[], panic='', hang=False) for o, n in pairs]
    for i, j, r in zip(at, jobs, res):
        if r.get('skipped'):
            continue
        k = cases[i]
        k['panic'] = k['panic'] or r['panic']
        k['hang'] = k['hang'] or r['hang']
        for out in r['r'] or []:
            k['runs'].append(dict(via=j['via'], txn='on' in j['txn'].split('+'), ok=out['ok'], out=units(unb64(out['out']))))
    return cases


def settle(c, cases, verdicts, describe):
    """Violations and known findings from the verdicts"""
    known = {k['class']: k for k in load_known(c.prop)}
    seen = set()
    for i, case in enumerate(cases):
        v = verdicts[i]
        if not v:
            continue
        if v.startswith('?'):
            raise CheckError('the case is no good: %s\n%s' % (v, json.dumps(describe(i))[:3000]))
        if v.startswith('KF:'):
            cls = v[3:].split(' (run')[0]
            if cls in known:
                seen.add(cls)
                continue
        c.violation(v, describe(i))
    for cls in sorted(seen):
        c.known.append('KNOWN-FINDING: property=%s %s' % (c.prop, known[cls]['what']))
    return seen


def describe_pairs(pairs, cases):
    def d(i):
        o, n = pairs[i]
        return dict(old=o.decode('utf-8', 'backslashreplace'), new=n.decode('utf-8', 'backslashreplace'),
                    old_b64=b64(o), new_b64=b64(n),
                    runs=[dict(r, out=dec(''.join(r['out'])).decode('utf-8', 'backslashreplace')) for r in cases[i]['runs']])
    return d


def coverage(c, pairs, cases, verdicts, rule):
    nontrivial = set()
    stmts = {}
    for (o, n), k in zip(pairs, cases):
        for r in k['runs']:
            t = dec(''.join(r['out']))
            if t:
                nontrivial.add((o, n))
            for line in t.split(b'\n'):
                w = b' '.join(line.split()[:2] + [x for x in line.split()[3:6] if x.isalpha() and x.isupper()]) \
                    if line.startswith(b'ALTER') else line.split(b' ')[0]
                w = w.decode('utf-8', 'replace')
                if line and w.isascii() and w.replace(' ', '').isalpha() and w.split()[0] in ('ALTER', 'CREATE', 'DROP', 'BEGIN', 'SET', 'COMMIT'):
                    stmts[w] = stmts.get(w, 0) + 1
    c.cov = dict(evaluations=sum(len(k['runs']) for k in cases), distinct_nontrivial=len(nontrivial), rule=rule,
                 pairs=len(pairs), statement_heads=stmts,
                 samples=[dict(old=o.decode('utf-8', 'replace')[:400], new=n.decode('utf-8', 'replace')[:400])
                          for o, n in pairs[:3]])


FIXED = {
    # known findings, see known_findings.json
    'support-index': (b'CREATE TABLE t (a INT, b INT, KEY k (a), CONSTRAINT k FOREIGN KEY (a) REFERENCES r (a));',
                      b'CREATE TABLE t (a INT, b INT, KEY k (a, b), CONSTRAINT k FOREIGN KEY (a) REFERENCES r (a));'),
    'AUTO_INCREMENT column without a key':
        (b'CREATE TABLE t (a INT);', b'CREATE TABLE t (a INT, id INT NOT NULL AUTO_INCREMENT, PRIMARY KEY (id));'),
    'duplicate foreign key symbol':
        (b'CREATE TABLE t (a INT, CONSTRAINT f FOREIGN KEY (a) REFERENCES r (a)); CREATE TABLE u (a INT);',
         b'CREATE TABLE t (a INT); CREATE TABLE u (a INT, CONSTRAINT f FOREIGN KEY (a) REFERENCES r (a));'),
}


CARELESS = {'C02': ['pk', 'fklate', 'idxfirst', 'colfirst', 'fkidx', 'all', 'pos', 'idxtype', 'typefirst', 'auto']}


def universe(c, name):
    """The pairs of a universe of Migrate.tla, on all of which the planner of that module is checked"""
    _, _, out = c.tlc_model('Migrate', 'Migrate_%s.cfg' % name, heap='4g', workers=4)
    seen = {}
    for line in out.split('\n'):
        if line.startswith('"@@'):
            seen[line] = 1
    return [(p['old'], p['new']) for p in (parse_print(l) for l in sorted(seen))]


def run_pairs(c):
    """C01, C02, C03, C05"""
    r = c.rnd
    c.level = 'model_checking'
    small, sizes = [], {}
    attrs = ['attributes', 'types', 'indexes', 'references', 'flags'] + (['keyed', 'nulls'] if c.prop == 'C01' else [])
    names = {'C05': ['columns', 'both'], 'C02': ['columns', 'keys', 'both', 'tables', 'indexes', 'references', 'keyed', 'nulls']}.get(
        c.prop, ['columns', 'keys', 'both', 'tables'] + attrs)
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for u, p in zip(names, ex.map(lambda u: universe(c, u), names)):
            sizes[u] = len(p)
            small += r.sample(p, 2500) if u in ('keyed', 'nulls') and c.prop == 'C01' and c.quick else p
    if not c.quick and c.prop != 'C05':
        p = universe(c, 'morekeys')
        sizes['morekeys'] = len(p)
        small += r.sample(p, 40000)
    c.careless('planner', [('Migrate', 'MigrateCareless_%s.cfg' % m) for m in CARELESS.get(c.prop, [])])
    c.log('%d pairs of small schemas: %s' % (len(small), sizes))
    g = gen.Gen(r, odd=.12)
    n = c.pick(900, 10000)
    pairs = [pair(c, g) for _ in range(n)] + wide_pairs(g, r, c.pick(25, 200))
    if c.prop in ('C01', 'C03'):
        pairs += g.near_all()
    pairs = [(text(c, o), text(c, w)) for o, w in pairs]
    if c.prop in ('C01', 'C02'):
        pairs.append(FIXED['support-index'])
    vias = ['strings', 'statements', 'strings', 'files', 'sources']
    runs = [[(r.choice(vias), r.choice(['none', 'off', 'on', 'none']))] for _ in pairs]
    cases = diff_cases(c, c.prop, pairs, runs, c.pick(3, 4))
    random = len(pairs)
    if small:
        sp = [(gen.spell(r, o, 'plain'), gen.spell(r, n, 'plain')) for o, n in small]
        pairs += sp
        cases += diff_cases(c, c.prop, sp, [[('strings', 'none')]] * len(sp), c.pick(2, 4))
    if c.prop == 'C02':
        for k in ('AUTO_INCREMENT column without a key', 'duplicate foreign key symbol'):
            # in which order tables are altered varies
            more = diff_cases(c, 'C02strict', [FIXED[k]], [[('strings', 'none')]], 20)
            pairs.append(FIXED[k])
            cases += more
    c.log('%d pairs run' % len(pairs))
    verdicts = c.judge(cases)
    settle(c, cases, verdicts, describe_pairs(pairs, cases))
    coverage(c, pairs, cases, verdicts,
             'pairs of random schemas: dense small ones (1-3 tables over at most 5 columns, subsets and permutations of '
             'columns and keys), pairs between which many columns, keys or tables come or go, random schemas and random edits of them, independent ones, and the empty schema; random '
             'spelling and entry point, several runs each because the order of tables varies; and every pair of the universes '
             'of Migrate.tla, where a planner is model checked with all its orders of statements; nontrivial: distinct pairs '
             'with a non-empty difference')
    c.cov['universes'] = sizes


def run_C04(c):
    r = c.rnd
    g = gen.Gen(r, odd=.12)
    n = c.pick(450, 6000)
    pairs = []
    for _ in range(n):
        s = g.schema()
        if r.random() < .1:
            s = g.alike(s, s)[1]
        pairs.append((text(c, s), text(c, g.vary(s) if r.random() < .85 else s)))
    runs = [[(r.choice(['strings', 'statements', 'files', 'sources']), r.choice(['none', 'off']))] for _ in pairs]
    cases = diff_cases(c, 'C04', pairs, runs, 2)

    # itself, formatted and linted
    m = c.pick(150, 2500)
    texts = [text(c, g.schema()) for _ in range(m)]
    jobs = []
    for t in texts:
        ind = r.choice([[], ['  '], ['\t'], ['']])
        jobs.append(dict(op='lint', text=b64(t), indent=[r.choice([' ', '\t', ''])] if r.random() < .7 else [], n=r.randrange(0, 5)))
        jobs.append(dict(op='format', text=b64(t), indent=ind, n=r.randrange(0, 4)))
    res = c.run_jobs(jobs)
    pairs2 = []
    for k, t in enumerate(texts):
        linted, formatted = res[2 * k], res[2 * k + 1]
        pairs2.append((t, t))
        for a in (linted, formatted):
            if a['panic'] or a['hang'] or a.get('skipped') or a['r'] is None:
                continue  # C11, C13
            out = unb64(a['r']['out']) if 'out' in a['r'] else b';'.join(unb64(o['out']) for o in a['r']['outs'])
            pairs2.append((t, out) if r.random() < .5 else (out, t))
    cases2 = diff_cases(c, 'C04self', pairs2, [[('strings', 'none')]] * len(pairs2), 1)
    c.log('%d pairs run' % (len(pairs) + len(pairs2)))
    allp, allc = pairs + pairs2, cases + cases2
    verdicts = c.judge(allc)
    settle(c, allc, verdicts, describe_pairs(allp, allc))
    coverage(c, allp, allc, verdicts, '')
    c.cov.update(distinct_nontrivial=len({p for p in allp if p[0] != p[1] and p[0] and p[1]}),
                 rule='random schemas against an equivalent spelling (order of tables and keys, case, layout, comments, quoting, '
                      'synonyms, widths, NULL, defaults, inline keys, implicit indexes), against themselves, and against their '
                      'formatted and linted form; nontrivial: distinct pairs of two different non-empty texts',
                 rewritten_pairs=len(pairs2))


def run_C12(c):
    r = c.rnd
    g = gen.Gen(r, odd=.12)
    n = c.pick(130, 2000)
    pairs = [pair(c, g) for _ in range(n)]
    pairs = [(text(c, o), text(c, w)) for o, w in pairs]
    for k in range(n // 8):
        t = text(c, g.schema())
        pairs.append((t, t))
    pairs += [(b'', b''), (b'CREATE TABLE t (a INT);', b'CREATE TABLE t (a INT'), (b'-- nothing', b';;')]
    vias = ['strings', 'statements', 'files', 'sources', 'sources-file']
    txns = ['none', 'on', 'off', 'parser', 'parser+on', 'on+parser']
    runs = []
    for i in range(len(pairs)):
        every = [(v, t) for v in vias for t in txns]
        runs.append(every if i % 10 == 0 else
                    [(v, r.choice(txns)) for v in vias] + [(r.choice(vias), 'on'), (r.choice(vias), 'none')])
    cases = diff_cases(c, 'C12', pairs, runs, 1)
    verdicts = c.judge(cases)
    settle(c, cases, verdicts, describe_pairs(pairs, cases))
    coverage(c, pairs, cases, verdicts,
             'pairs of random schemas, each through every entry point (statements, strings, files, sources of two kinds) with '
             'random options (none, transaction on or off, a parser, both in either order), every tenth through all 30 '
             'combinations; nontrivial: distinct pairs with output')

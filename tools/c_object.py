"""C19: objects of the model, built by calls."""
import copy, json
from vlib import *
from c_diff import settle
import gen


def histories(c, cfg):
    _, distinct, out = c.tlc_model('ObjectModel', cfg + '.cfg', workers=1, heap='8g')
    paths, heap = [], None
    for line in out.split('\n'):
        if line.startswith('"@@'):
            x = parse_print(line)
            if 'heap' in x:
                heap = x['heap']
            else:
                paths.append(x['path'])
    if len(paths) != distinct - 1 or heap is None:
        raise CheckError('%d histories of %d' % (len(paths), distinct - 1))
    return heap, paths


COL = dict(kind='col', typ='', len=0, uns=False, zf=False, bin=False, cs=[], co=[], upd=[], nul='none', ai=False, uniq=False, prim=False, key=False, com=[], enum=[],
           set=[], tid='', **{'def': []})
IDX = dict(kind='idx', sym=[], name=[], typ='none', cols=[], opts=[], ref=0)
REF = dict(kind='ref', t='', cols=[], match='none', upd='none', **{'del': 'none'})


def random_history(c, g):
    """A longer history over more objects"""
    r = c.rnd
    E = gen.E
    s = lambda: g.string()
    heap = []
    for _ in range(r.randrange(1, 9)):
        k = r.choice(['col', 'col', 'len', 'ixcol', 'ixcol', 'ref', 'idx', 'idx', 'tab', 'db'])
        n = g.name()
        heap.append(copy.deepcopy({'col': dict(COL, name=n), 'len': dict(kind='len', len=g.small(), dec=[]), 'ixcol': dict(kind='ixcol', n=n, len=[], dir='none'), 'ref': REF,
                                   'idx': dict(IDX, ikind=r.choice(['PRIMARY', 'NORMAL', 'UNIQUE', 'FULLTEXT', 'SPATIAL', 'FOREIGN'])),
                                   'tab': dict(kind='tab', name=n, temp=False, ine=False, like=[]), 'db': dict(kind='db', name=n, ine=False)}[k]))
    kinds = [h['kind'] for h in heap]
    of = lambda k: [i + 1 for i, x in enumerate(kinds) if x == k]
    path = []
    for _ in range(r.randrange(1, r.choice([5, 15, 50]))):
        o = r.randrange(len(kinds)) + 1
        k = kinds[o - 1]
        st = lambda a, v: path.append(dict(op='set', o=o, a=a, v=v))
        b = r.random() < .6
        if k == 'col':
            m = r.randrange(9)
            if m == 0:
                st('typ', r.choice([t for t in gen.ALL_TYPES]))
            elif m == 1 and of('len'):
                st('len', r.choice(of('len')))
            elif m == 2:
                st(r.choice(['uns', 'zf', 'bin', 'ai', 'uniq', 'prim', 'key']), b)
            elif m == 3:
                st(r.choice(['cs', 'co', 'upd', 'com']), [s()])
            elif m == 4:
                st('nul', r.choice(['none', 'null', 'notnull']))
            elif m == 5:
                st('def', [dict(v=s(), q=b)])
            elif m == 6:
                st(r.choice(['enum', 'set']), [s() for _ in range(r.randrange(0, 4))])
            elif m == 7:
                st('tid', g.name())
            elif len(kinds) < 12:
                path.append(dict(op='clone', o=o))
                kinds.append(k)
        elif k == 'len':
            st('dec', [g.small()])
        elif k == 'ixcol':
            st('len', [g.small()]) if b else st('dir', r.choice(['none', 'asc', 'desc']))
        elif k in ('ref', 'idx') and b and of('ixcol'):
            for _ in range(r.choice([1, 1, 2, 3])):
                path.append(dict(op='add', o=o, a='cols', v=r.choice(of('ixcol'))))
        elif k == 'ref':
            a = r.choice(['t', 'match', 'del', 'upd'])
            st(a, g.name() if a == 't' else r.choice(['none', 'full', 'partial', 'simple'] if a == 'match' else ['none', 'restrict', 'cascade', 'setnull', 'noaction']))
        elif k == 'idx':
            m = r.randrange(5)
            if m == 0:
                st(r.choice(['sym', 'name']), [g.name()])
            elif m == 1:
                st('typ', r.choice(['none', 'btree', 'hash']))
            elif m == 2:
                path.append(dict(op='add', o=o, a='opts', v=dict(k=g.name(), v=s(), q=r.random() < .5)))
            elif m == 3 and of('ref'):
                st('ref', r.choice(of('ref')))
            elif len(kinds) < 12:
                path.append(dict(op='clone', o=o))
                kinds.append(k)
        elif k == 'tab':
            st('like', [g.name()]) if r.random() < .3 else st(r.choice(['temp', 'ine']), b)
        elif k == 'db':
            st('ine', b)
    return heap, path


def run_C19(c):
    c.level = 'model_checking'
    r = c.rnd
    c.careless('clone', [('ObjectModel', 'ObjectModelCareless.cfg')])
    todo, sizes = [], {}
    for s in ('column', 'index', 'lists', 'table'):
        heap, paths = histories(c, 'ObjectModel_' + s if c.quick or s in ('column', 'table') else 'ObjectModelDeep_' + s)
        sizes[s] = len(paths)
        # a path that is the beginning of another is seen there only at its end
        if len(paths) > c.pick(16000, 300000):
            paths = r.sample(paths, c.pick(16000, 300000))
        todo += [(heap, p) for p in paths]
    c.log('histories: %s' % sizes)
    g = gen.Gen(r, odd=.4)
    for _ in range(c.pick(2500, 30000)):
        h, p = random_history(c, g)
        if p:
            todo.append((h, p))
    jobs = [dict(op='objects', heap=h, path=p) for h, p in todo]
    cases = []
    for j, x in zip(jobs, c.run_jobs(jobs)):
        rr = x['r'] or dict(views=[], fluent=True)
        cases.append(dict(kind='C19objects', heap=j['heap'], path=j['path'], views=rr['views'], fluent=rr['fluent'], panic=x['panic'], hang=x['hang']))
    n = len(cases)
    g = gen.Gen(r, odd=.2)
    pj = []
    for _ in range(c.pick(700, 9000)):
        for t in g.schema():
            if len(pj) < c.pick(900, 12000):
                pj.append(dict(op='pieces', table=t, ine=r.random() < .5))
    for j, x in zip(pj, c.run_jobs(pj)):
        rr = x['r']
        if rr is not None:
            for p in [rr['table'], rr['db']] + rr['cols'] + rr['idx'] + rr['refs'] + rr['strs'] + rr['opts']:
                p['out'] = units(unb64(p['out']))
        cases.append(dict(kind='C19pieces', t=j['table'], ine=j['ine'], r=rr, panic=x['panic'], hang=x['hang']))
    jobs += pj
    c.log('%d histories and %d tables run' % (n, len(pj)))
    verdicts = c.judge(cases, shard=12000)
    settle(c, cases, verdicts, lambda i: dict(job=jobs[i], observed={k: v for k, v in cases[i].items() if k in ('views', 'fluent', 'r')}))
    c.cov = dict(traces_validated_against_impl=len(cases), distinct_nontrivial=len({json.dumps([j['heap'], j['path']]) for j in jobs[:n]}) + len(pj), histories=sizes, tables=len(pj),
                 rule='ObjectModel.tla: every history of setters, additions and clones up to a depth (a column with lengths; an index with its columns and a reference; only '
                      'additions and clones, deeper; table and database flags), replayed on real objects and everything they show compared; random longer ones; the parts of '
                      'random tables built by calls printed one by one and read by the grammar; nontrivial: distinct histories, and tables', samples=[jobs[1], jobs[-1]])

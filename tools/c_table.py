"""C18: tables as they are edited."""
import copy, json
from vlib import *
from c_diff import settle
from c_fault import models
import gen

NAMES = ['a', 'b', 'A', '', 'a#b', 'tablecol#a', 'table#t', 't', 'a b', '`', '"', '\\', '%s', '%!s', '\n', 'é', '日', '0', 'x' * 70, 'a.b', "'", ',']


def vary(r, x):
    """An index that may or may not be another one"""
    y = copy.deepcopy(x)
    k = r.randrange(14)
    odd = lambda: r.choice(['a', 'b', 'A', 'B', 'aB', 'ab', 'a1', 'none', 'a"', 'a"."b', '"', '\\', 'a\\"', 'x-3', 'a-desc', '%', '%d', 'a.b', '#', 'index_column#"a"', 'é', "'", '`', ' ', 'a ', '0'])
    E = gen.E
    if k == 0:
        y['kind'] = r.choice(['PRIMARY', 'NORMAL', 'UNIQUE', 'FULLTEXT', 'SPATIAL', 'FOREIGN'])
    elif k == 1:
        y['name'] = r.choice([[], [E(odd())], x['sym'], x['name']])
    elif k == 2:
        y['sym'] = r.choice([[], [E(odd())], x['name'], ['none']])
    elif k == 3:
        y['typ'] = r.choice(['none', 'btree', 'hash'])
    elif k == 4 and y['cols']:
        y['cols'][r.randrange(len(y['cols']))]['n'] = E(odd())
    elif k == 5 and y['cols']:
        y['cols'][r.randrange(len(y['cols']))]['len'] = r.choice([[], ['1'], ['10'], ['01']])
    elif k in (6, 7) and y['cols']:
        y['cols'][r.randrange(len(y['cols']))]['dir'] = r.choice(['none', 'asc', 'desc'])
    elif k == 8:
        y['cols'].insert(r.randrange(len(y['cols']) + 1), dict(n=E(odd()), len=[], dir='none'))
    elif k == 9:
        r.shuffle(y['cols'])
    elif k == 10:
        y['opts'] = r.choice([[], [dict(k='WITH PARSER', v=E(odd()))], [dict(k=E(odd()), v='x'), dict(k='x', v=E(odd()))], [dict(k=E(odd()), v=E(odd()))]])
    elif k == 11:
        y['ref'] = r.choice([[], [dict(t=E(odd()), cols=copy.deepcopy(y['cols'][:1]), match='none', **{'del': 'none', 'upd': 'none'})]])
    elif y['ref']:
        f = y['ref'][0]
        m = r.randrange(7)
        if m == 0:
            f['t'] = E(odd())
        elif m == 1:
            f['match'] = r.choice(['none', 'full', 'partial', 'simple'])
        elif m in (2, 3):
            f[r.choice(['del', 'upd'])] = r.choice(['none', 'restrict', 'cascade', 'setnull', 'noaction'])
        elif m == 4:
            f['del'], f['upd'] = f['upd'], f['del']
        elif m == 5:
            f['cols'].append(dict(n=E(odd()), len=r.choice([[], ['3']]), dir=r.choice(['none', 'asc', 'desc'])))
        elif f['cols']:
            # from one list to the other
            y['cols'].append(f['cols'].pop())
    elif y['cols']:
        y['cols'].append(copy.deepcopy(r.choice(y['cols'])))
    return y


def run_C18(c):
    c.level = 'model_checking'
    r = c.rnd
    models(c, [('TableLock', 'TableLock.cfg')] + ([] if c.quick else [('TableLock', 'TableLockDeep.cfg')]), [('TableLock', 'TableLockCareless.cfg')])
    _, histories, out = c.tlc_model('TableModel', 'TableModel.cfg' if c.quick else 'TableModelDeep.cfg', workers=1, heap='8g')
    paths = [parse_print(l)['path'] for l in out.split('\n') if l.startswith('"@@')]
    if len(paths) != histories - 1:
        raise CheckError('%d histories of %d' % (len(paths), histories - 1))
    c.log('%d histories' % len(paths))
    jobs, cases = [], []

    g = gen.Gen(r, odd=.4)

    def history(path, n, names, every):
        jobs.append(dict(op='history', cols=[g.column(x) for x in names], tables=['t%d' % i for i in range(1, n + 1)], names=names, ask=['zz'], path=path, every=every))
        cases.append(dict(kind='C18history', n=n, names=names, path=path, every=every))
    for p in paths:
        history(p, 2, ['a', 'b', 'a'], False)
    short = len(cases)
    for k in range(c.pick(500, 8000)):
        n = r.randrange(1, 5)
        same = r.random() < .3
        m = r.randrange(1, r.choice([4, 12, 40]))
        names = r.sample(['c%d' % i for i in range(60)], m) if not same else [r.choice('abcd') for _ in range(m)]
        if r.random() < .4:
            names = [gen.E(r.choice(NAMES)) or 'x' for _ in range(m)]
        path = []
        count = [0] * n
        for i in range(r.randrange(1, r.choice([6, 20, 60]))):
            e = r.choice(['col', 'col', 'col', 'set', 'idx', 'opt', 'setin'])
            if e == 'col':
                path.append(dict(e=e, t=r.randrange(1, n + 1), c=r.randrange(1, m + 1)))
                count[path[-1]['t'] - 1] += 1
            elif e == 'setin':
                t = r.randrange(n)
                if count[t]:
                    path.append(dict(e=e, t=t + 1, p=r.randrange(1, count[t] + 1), v='v%d' % i))
            elif e == 'set':
                path.append(dict(e=e, c=r.randrange(1, m + 1), v='v%d' % i))
            else:
                path.append(dict(e=e, t=r.randrange(1, n + 1), v='%s%d' % (e, r.randrange(9))))
        if path:
            history(path, n, names, r.random() < .3)
    res = c.run_jobs(jobs)
    for x, k in zip(res, cases):
        k.update(panic=x['panic'], hang=x['hang'], seen=(x['r'] or {}).get('seen') or [], defs=(x['r'] or {}).get('defs') or [])
    # IDs
    ijobs = []
    for _ in range(c.pick(400, 6000)):
        cols = [dict(name=n) for n in ('a', 'b', 'c')]
        base = g.index(cols, kind=r.choice([None, 'PRIMARY', 'FOREIGN']))
        idx = [base]
        while len(idx) < 14:
            idx.append(vary(r, r.choice(idx) if r.random() < .5 else base))
        for x in idx:
            if len(x['name']) and x['name'][0] == '':
                x['name'] = ['x']
        ijobs.append(dict(op='ids', table=r.choice(['t', 'a.b', '"']), idx=idx, cols=[gen.E(n) for n in r.sample(NAMES, 8)]))
    for j, x in zip(ijobs, c.run_jobs(ijobs)):
        cases.append(dict(kind='C18ids', panic=x['panic'], hang=x['hang'], idx=j['idx'], ids=(x['r'] or {}).get('idx') or [], cols=j['cols'], colids=(x['r'] or {}).get('cols') or []))
    jobs += ijobs
    c.log('%d sets of indexes' % len(ijobs))
    # at the same time
    tjobs = []
    for _ in range(c.pick(60, 1200)):
        tjobs.append(dict(op='together', adders=r.choice([1, 2, 3, 4, 8]), each=r.choice([1, 2, 5, 12, 30]), lookers=r.choice([0, 1, 2, 4]), looks=r.choice([5, 20, 60]),
                          shared=r.random() < .4, pause=r.choice([0, 0, 1, 20])))
    nops = 0
    for j, x in zip(tjobs, c.run_jobs(tjobs, race=True, workers=2)):
        if x.get('skipped'):
            continue
        rr = x['r'] or dict(added=[], cols=[], other=[], wrong=[], ops=[])
        nops += len(rr['ops'])
        # positions matter only up to their order, and pairs are many
        if len(rr['ops']) > 160:
            rr['ops'] = [rr['ops'][i] for i in sorted(r.sample(range(len(rr['ops'])), 160))]
        rr['ops'] = [dict(k=o['k'], pos=o['pos'], inv=o['inv'], ret=o['ret']) for o in rr['ops']]
        cases.append(dict(kind='C18together', panic=x['panic'], hang=x['hang'], shared=j['shared'], r=rr))
    jobs += tjobs
    c.log('%d rounds of concurrent calls' % len(tjobs))
    verdicts = c.judge(cases, shard=12000)

    def describe(i):
        d = dict(job=jobs[i] if i < len(jobs) else None)
        if cases[i]['kind'] == 'C18history':
            d['seen'] = cases[i]['seen']
        return d
    settle(c, cases, verdicts, describe)
    c.cov = dict(traces_validated_against_impl=len(cases), distinct_nontrivial=len({json.dumps(j['path']) for j in jobs[:len(jobs) - len(ijobs) - len(tjobs)]}),
                 enumerated_histories=short, longer_histories=len(jobs) - short - len(ijobs) - len(tjobs), index_pairs=len(ijobs) * 14 * 13 // 2, concurrent_operations=nops,
                 rule='TableModel.tla: every history of up to %d edits of two tables with three column objects, two of them with the same name, replayed on real tables and '
                      'everything that can be seen compared; longer random histories of up to 4 tables, 40 objects and 60 edits; indexes that differ in one place, pairwise; '
                      'TableLock.tla: all interleavings of additions and lookups, where the rule for linearizability is shown to be exact; the real calls under the race '
                      'detector with times of call and return judged by that rule; nontrivial: distinct histories' % c.pick(3, 4),
                 samples=[jobs[i] for i in range(0, len(jobs), len(jobs) // 4)][:4])
    c.assumptions = ['listings are not taken while columns are added']

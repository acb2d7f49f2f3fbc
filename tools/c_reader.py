"""C20: operations that only read what they share."""
import json
from vlib import *
from c_diff import settle, text
from c_fault import models
import gen


def pair(c, g):
    """Two schemas, one often an edit of the other; names without line ends"""
    r = c.rnd
    a = g.schema()
    b = g.edit(a, r.choice([1, 2, 4, 8])) if r.random() < .8 else g.schema()
    for s in (a, b):
        if s and r.random() < .4:
            # a name that is easily taken for another
            n = r.choice(s)['name']
            n = r.choice([n.swapcase(), n.upper(), n.lower(), n.title(), n + ' x', n + 'x', 'x' + n, n[:-1] or 'y', n + n, n + '#', n[::-1]])
            if n.strip() == n and n not in [t['name'] for t in s]:
                s.insert(r.randrange(len(s) + 1), dict(g.schema(1)[0], name=n))
    return [enc(text(c, a)), enc(text(c, b))]


def run_C20(c):
    c.level = 'model_checking'
    r = c.rnd
    models(c, [('Readers', 'Readers.cfg')] + ([] if c.quick else [('Readers', 'ReadersDeep.cfg')]),
           [('Readers', 'ReadersCareless_%s.cfg' % x) for x in ('sort', 'scratch', 'keep')])
    _, distinct, out = c.tlc_model('ReaderHistories', 'ReaderHistories.cfg' if c.quick else 'ReaderHistoriesDeep.cfg', workers=1, heap='8g')
    paths = [parse_print(l)['path'] for l in out.split('\n') if l.startswith('"@@')]
    if len(paths) != distinct - 1:
        raise CheckError('%d histories of %d' % (len(paths), distinct - 1))
    ops = [p[0] for p in paths if len(p) == 1]
    g = gen.Gen(r, odd=.15)
    pairs = [pair(c, g) for _ in range(c.pick(90, 900))]
    todo = [(r.randrange(len(pairs)), p) for p in paths]
    for _ in range(c.pick(900, 12000)):
        # longer ones
        todo.append((r.randrange(len(pairs)), [r.choice(ops) for _ in range(r.randrange(4, r.choice([6, 12, 40])))]))
    # what each operation says when it is alone, in processes where little else happened
    alone = [(i, [o]) for i in range(len(pairs)) for o in ops]
    fresh = {}
    for i in range(len(pairs)):
        fresh[i] = []
    ares = c.run_jobs([dict(op='readers', texts=pairs[i], path=p) for i, p in alone])
    jobs, cases = [], []

    def case(i, j, x, solo=False):
        rr = x['r'] or dict(view='', ev=[], gone=True, first=[], found=[])
        if not solo:
            rr['gone'] = True       # what other jobs of the process have running
        jobs.append(j)
        cases.append(dict(kind='C20readers', fresh=fresh[i], panic=x['panic'], hang=x['hang'], **{k: rr[k] for k in ('view', 'ev', 'gone', 'first', 'found')}))
    for (i, p), x in zip(alone, ares):
        res = x['r']['ev'][0]['res'] if x['r'] else ''
        fresh[i].append(dict(p[0], res=res))
    for (i, p), x in zip(alone, ares):
        case(i, dict(op='readers', texts=pairs[i], path=p), x)
    js = [dict(op='readers', texts=pairs[i], path=p) for i, p in todo]
    for (i, p), j, x in zip(todo, js, c.run_jobs(js)):
        case(i, j, x)
    # one after the other in a process: what they leave behind can be told
    some = [(i, dict(op='readers', texts=pairs[i], path=[o])) for i in range(len(pairs)) for o in r.sample(ops, 4)]
    for (i, j), x in zip(some, c.run_jobs([j for _, j in some], workers=1, timeout=60)):
        case(i, j, x, True)
    c.log('%d histories on %d pairs of schemas' % (len(todo), len(pairs)))
    # at the same time
    par = []
    for _ in range(c.pick(60, 800)):
        i = r.randrange(len(pairs))
        p = r.sample(ops, 2) if r.random() < .5 else ops[:]
        r.shuffle(p)
        par.append((i, dict(op='readers', texts=pairs[i], path=p, together=r.choice([2, 4, 8]), rounds=c.pick(3, 8))))
    after = []
    for (i, j), x in zip(par, c.run_jobs([j for _, j in par], race=True, workers=1, timeout=60, limit=c.pick(300, 2000), aftermath=after)):
        if not x.get('skipped'):
            case(i, j, x, True)
    # at the same time, as the first thing that a process does
    for _ in range(c.pick(14, 150)):
        i = r.randrange(len(pairs))
        p = [o for o in ops if o['op'] in ('parse', 'lint', 'cutlint', 'difftext')]
        j = dict(op='readers', texts=pairs[i], path=p, together=8, rounds=1, cold=True)
        for x in c.run_jobs([j], race=True, workers=1, timeout=60, aftermath=after):
            if x['r']:
                # there are no schemas to look at
                for e in x['r']['ev'] + [x['r']]:
                    e['view'] = ''
            case(i, j, x, True)
    for a in after:
        jobs.append({})
        cases.append(dict(kind='C20readers', fresh=[], panic=a, hang=False, view='', ev=[], gone=True, first=[], found=[]))
    c.log('%d groups of concurrent operations' % len(par))
    verdicts = c.judge(cases, shard=4000)
    settle(c, cases, verdicts, lambda i: dict(job=jobs[i], observed={k: v for k, v in cases[i].items() if k != 'fresh'}))
    c.cov = dict(traces_validated_against_impl=len(cases), distinct_nontrivial=len({json.dumps(j) for j in jobs}), histories=len(todo), pairs=len(pairs), concurrent_groups=len(par),
                 rule='Readers.tla: every interleaving of operations that share schemas; ReaderHistories.tla: every sequence of operations up to a length, each replayed on the real '
                      'code over a random pair of schemas, longer random ones, and the operations at the same time under the race detector; every result is compared with the one '
                      'that the operation has alone, and the schemas with what they said before; nontrivial: distinct pairs of schemas and histories', samples=[jobs[1], jobs[-1]])

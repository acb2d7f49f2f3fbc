"""C11: calls of the parser return, leave nothing behind, and do not disturb each other."""
import json
from vlib import *
from c_diff import settle, text
from c_fault import models
import c_parse, gen


def big_texts(r, n):
    """Large inputs of few kinds of elements"""
    k = n * 1000
    out = [b'(' * k, b"'" * k, b'`' * k, b'"' * (k + 1), b'\\' * k, b"'" + b'\\' * k, b'/*' * k, b'/*' + b'*' * k, b'--' * k, b'-' * k, b'#' * k, b'\n' * k, b' ' * k,
           b'a' * k, b'1' * k, b'.' * k, b'1.' * k, b'e' * k, b'1e' * k, b'\x00' * k, b'\xff' * k, b'\xe3\x81\x82' * k, b'-- x\n' * k, b'/**/' * k, b';' * k, b',' * k, b'+-' * k,
           b'CREATE ' * k, b'CREATE TABLE ' + b'a' * k, b'CREATE TABLE t (' + b'a INT,' * k, b'CREATE TABLE t (a INT' + b' NOT NULL' * k + b');',
           b'DROP ' + b'x ' * k, b'USE x;' * k, b'SET a=1;\n' * k, b"DROP TABLE '" + b'x' * k, b'CREATE DATABASE x;' * k,
           b'CREATE TABLE t (a INT, ' + b'KEY (a),' * k + b'KEY (a))', b'CREATE TABLE t (a INT)' + b' ENGINE=x' * k, b'CREATE TABLE t (a INT) UNION=' + b'(' * k,
           b'CREATE TABLE t (a ENUM(' + b"'x'," * k + b"'y'))", b'CREATE TABLE t (a INT, KEY (' + b'a,' * k + b'a))',
           b'CREATE TABLE t (' + b', '.join(b'c%d INT' % i for i in range(k // 4)) + b')',
           b';'.join(b'CREATE TABLE t%d (a INT, b VARCHAR(20), KEY (a), UNIQUE KEY x (b))' % i for i in range(k // 20)),
           b'CREATE TABLE t (a INT, ' + b', '.join(b'CONSTRAINT x%d FOREIGN KEY (a) REFERENCES r (a)' % i for i in range(k // 20)) + b')']
    out += [t + r.choice([b"'", b'/*', b'`', b'"', b'x', b'\x00', b'']) for t in r.sample(out, 8)]
    return out


def run_C11(c):
    c.level = 'model_checking'
    r = c.rnd
    models(c, [('Pipeline', 'Pipeline.cfg'), ('Pipeline', 'PipelineTwo.cfg')] + ([] if c.quick else [('Pipeline', 'PipelineLong.cfg')]),
           [('Pipeline', 'PipelineCareless.cfg'), ('Pipeline', 'PipelineCareless2.cfg')])
    c.log('the pipeline holds')
    g = gen.Gen(r, odd=.2)
    kw = sorted(gen.KEYWORDS)
    p = c_parse.Paths(c, 'GrammarPathsFine')
    # the grammar's cut points, one unexpected token after each, and what may follow
    texts = []
    for s in sorted(p.states.values(), key=lambda s: s['s']):
        texts.append(p.text(r, s['path'])[0])
        for k in r.sample(p.kinds, c.pick(4, 60)):
            t = p.text(r, s['path'] + [k])[0]
            m = r.random()
            if m < .3:
                t += b' ' + r.choice([b"'open", b'"open', b'`open', b'/* open', b'-- open', b'\x00', b'\\', b'x ' * 20, b'1 ' * 9])
            texts.append(t)
    cut = len(texts)
    for _ in range(c.pick(4000, 60000)):
        texts.append(c_parse.broken(c, g))
    for _ in range(c.pick(4000, 60000)):
        texts.append(c_parse.soup(r, kw, r.randrange(1, r.choice([4, 10, 40, 200]))))
    for _ in range(c.pick(2000, 30000)):
        # tokens in any order, after a beginning that makes sense
        s = r.choice(sorted(p.states))
        ks = p.states[s]['path'] + [r.choice(p.kinds) for _ in range(r.randrange(1, 12))]
        texts.append(p.text(r, [k for k in ks if k != 'EOF'])[0])
    for _ in range(c.pick(300, 3000)):
        t = text(c, g.schema())
        for i in range(len(t) + 1) if len(t) < 400 and r.random() < .1 else r.sample(range(len(t) + 1), min(3, len(t))):
            texts.append(t[:i])
    for w in (b'CREATE', b'CREATE TABLE', b'CREATE TABLE t', b'DROP', b'SET', b'USE', b'CREATE DATABASE', b'', b';', b'x'):
        for e in (b'', b' ', b'\n', b';', b"'", b'"', b'`', b'/*', b'--', b'-- ', b'#', b'\x00', b'\xff', b'\\', b'/', b'-', b'.', b'+', b'@'):
            texts.append(w + b' ' + e)
            texts.append(w + b' ' + e + b' x ' * 9)
            texts.append(w + e)
    big = big_texts(r, c.pick(20, 100))
    jobs, at = [], []

    def add(ts, **kw):
        jobs.append(dict(dict(op='calls', texts=[enc(t) for t in ts], via=r.choice(['bytes', 'bytes', 'string']), reps=1, procs=0, limit=8000), **kw))
        at.append(ts)
    r.shuffle(texts)
    for b in range(0, len(texts), 400):
        add(texts[b:b + 400], procs=r.choice([0, 1, 2]))
    # the same again, for other interleavings, and from files
    some = r.sample(texts, 600)
    for b in range(0, len(some), 60):
        add(some[b:b + 60], reps=c.pick(20, 200), procs=r.choice([0, 2, 3]))
    for b in range(0, len(some), 200):
        add(some[b:b + 200], via='file')
    for t in big:
        add([t])
        # returns at once, with much left to scan
    for t in r.sample(big, 10):
        add([b'x ' + t, b'CREATE x ' + t, b'CREATE TABLE (' + t], reps=c.pick(10, 60))
    res = c.run_jobs(jobs, workers=1, timeout=c.pick(120, 600), limit=c.pick(300, 2000), aftermath=[])
    # a job that went down as a whole: each of its texts alone
    again = [t for ts, x in zip(at, res) if (x['panic'] or x['hang']) and not x.get('skipped') for t in ts][:1200]
    cases, src = [], []

    def collect(ts, x):
        for t, ev in zip(ts, x['r'] or []):
            if ev:
                cases.append(dict(kind='C11', ev=ev, panic='', hang=False))
                src.append(t)
    for ts, x in zip(at, res):
        collect(ts, x)
    if again:
        found = 0
        rerun = c.run_jobs([dict(op='calls', texts=[enc(t)], via='bytes', reps=50, procs=0, limit=8000) for t in again], workers=1, timeout=60, limit=300, aftermath=[])
        for t, x in zip(again, rerun):
            if x['panic'] or x['hang']:
                found += 1
                cases.append(dict(kind='C11', ev=[], panic=x['panic'], hang=x['hang']))
                src.append(t)
            else:
                collect([t], x)
        if not found:
            for ts, x in zip(at, res):
                if x['panic'] or x['hang']:
                    cases.append(dict(kind='C11', ev=[], panic=x['panic'], hang=x['hang']))
                    src.append(b'\n-----\n'.join(ts))
    calls = len(cases)
    c.log('%d inputs' % calls)

    # scanners that are cancelled while they wait
    ljobs = []
    for _ in range(c.pick(250, 2500)):
        t = r.choice([lambda: text(c, g.schema()), lambda: c_parse.soup(r, kw, 40), lambda: c_parse.broken(c, g)])()
        ljobs.append(dict(text=b64(t), read=r.randrange(0, 12), wait=r.choice([0, 0, 200, 2000])))
    lres = c_parse.run_lexer(c, ljobs)
    if lres is None:
        c.log('the scanner can not be run alone')
    for j, x in zip(ljobs, lres or []):
        if x is not None:
            cases.append(dict(kind='C11lex', panic=x['panic'], hang=x['hang'], left=x['left']))
            src.append(unb64(j['text']))
    # many goroutines, one parser
    rjobs, rat = [], []
    broken = any([e['e'] for e in k.get('ev', [])] != ['begin', 'return', 'gone'] for k in cases[:calls])
    for _ in range(c.pick(14, 120) if not broken else 0):
        ts = [text(c, g.schema()) for _ in range(6)] + [c_parse.broken(c, g) for _ in range(4)] + [c_parse.soup(r, kw, 20) for _ in range(2)]
        rjobs.append(dict(op='reentrant', texts=[enc(t) for t in ts], n=r.choice([2, 4, 8, 16]), rounds=c.pick(2, 6), others=r.random() < .4))
        rat.append(ts)
    after = []
    rres = c.run_jobs(rjobs, race=True, workers=1, timeout=c.pick(40, 200), limit=c.pick(600, 3000), aftermath=after) if rjobs else []
    for ts, x in zip(rat, rres):
        if not x.get('skipped'):
            rr = x['r'] or dict(alone=[], seen=[])
            cases.append(dict(kind='C11many', panic=x['panic'], hang=x['hang'], alone=rr['alone'], seen=rr['seen']))
            src.append(b'\n-----\n'.join(ts))
    # as the first thing that a process does
    for _ in range(c.pick(12, 100) if not broken else 0):
        ts = [text(c, g.schema()) for _ in range(4)] + [c_parse.broken(c, g) for _ in range(2)]
        j = dict(op='reentrant', texts=[enc(t) for t in ts], n=8, rounds=1, others=r.random() < .4, cold=True)
        for x in c.run_jobs([j], race=True, workers=1, timeout=60, aftermath=after):
            rr = x['r'] or dict(alone=[], seen=[])
            cases.append(dict(kind='C11many', panic=x['panic'], hang=x['hang'], alone=rr['alone'], seen=rr['seen']))
            src.append(b'\n-----\n'.join(ts))
    for a in after:
        cases.append(dict(kind='C11many', panic=a, hang=False, alone=[], seen=[]))
        src.append(b'(after all calls had returned)')
    c.log('%d groups of concurrent calls' % len(rjobs))
    verdicts = c.judge(cases, shard=40000)

    def describe(i):
        return dict(text=enc(src[i][:3000]), text_b64=b64(src[i][:20000]), length=len(src[i]), **{k: v for k, v in cases[i].items() if k not in ('alone', 'seen')})
    settle(c, cases, verdicts, describe)
    c.cov = dict(traces_validated_against_impl=len(cases), distinct_nontrivial=len(set(src)), calls=sum(j['reps'] * len(j['texts']) for j in jobs), cancelled_scanners=len(ljobs),
                 concurrent_groups=len(rjobs), concurrent_calls=sum(j['n'] * j['rounds'] * len(j['texts']) for j in rjobs),
                 rule='Pipeline.tla: every input of up to 5 tokens, every place of an error and every interleaving, with fairness; the real parser on every control state of the '
                      'grammar cut there and with unexpected tokens after it (%d), damaged texts, mixes of delicate fragments, prefixes, tokens in any order, inputs of %d to %d '
                      'bytes, with goroutines counted after every return and different numbers of processors; scanners cancelled after 0 to 11 tokens; one parser in up to 16 '
                      'goroutines under the race detector, results compared with those alone; nontrivial: distinct inputs' % (cut, min(map(len, big)), max(map(len, big))),
                 samples=[describe(i)['text'][:500] for i in range(0, len(cases), len(cases) // 4)][:4])

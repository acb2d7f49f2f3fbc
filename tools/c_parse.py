"""C06 to C10 and C16: scanning, parsing, formatting, linting, normalizing."""
import copy, json
from vlib import *
from c_diff import settle, text
import gen

# --------------------------------------------------------------------------
# The automaton of the grammar, as explored by TLC

STRAY = [b'@', b'!', b'\x00', b'\\', b'[', b'%', b'&', b'\xc3\xa9', b'\xff', b'_', b'$', b'?', b'\x0b']
PUNCT = dict(LPAREN=b'(', RPAREN=b')', COMMA=b',', SEMICOLON=b';', EQUAL=b'=', DOT=b'.', SLASH=b'/', DASH=b'-', PLUS=b'+')
UNTERM = [b"'abc", b'"abc', b'`abc', b'/* abc', b"'a\\'", b'"a\\"', b'/*/', b"'", b"'ab''", b'/* *']


def token(kind, n, r):
    if kind == 'IDENT':
        return b'n%d' % n
    if kind == 'BACKTICK_IDENT':
        return b'`n%d`' % n
    if kind == 'SINGLE_QUOTE_IDENT':
        return b"'n%d'" % n
    if kind == 'DOUBLE_QUOTE_IDENT':
        return b'"n%d"' % n
    if kind == 'NUMBER':
        return b'%d' % n
    if kind in PUNCT:
        return PUNCT[kind]
    if kind == 'ILLEGAL':
        return r.choice(STRAY)
    if kind == 'UNTERM':
        return r.choice(UNTERM)
    if kind == 'EOF':
        return b''
    w = kind
    if r.random() < .3:
        w = r.choice([w.lower(), w.capitalize(), ''.join(r.choice([a.lower(), a.upper()]) for a in w)])
    return w.encode()


class Paths:
    """Every control state of the grammar, how to get there, and where from there"""

    def __init__(self, c, cfg):
        c.log('exploring the grammar (%s)' % cfg)
        _, self.distinct, out = c.tlc_model('GrammarPaths', cfg + '.cfg', workers=1, heap='4g')
        self.states = {}
        for line in out.split('\n'):
            if line.startswith('"@@'):
                s = parse_print(line)
                self.states[s['s']] = s
        # shortest completions
        self.rest = {'done': []}
        pred = {}
        for s in self.states.values():
            for k, n in s['moves'].items():
                pred.setdefault(n, []).append((s['s'], k))
        todo = ['done']
        while todo:
            nxt = []
            for n in todo:
                for s, k in sorted(pred.get(n, [])):
                    if s not in self.rest:
                        self.rest[s] = [k] + self.rest[n]
                        nxt.append(s)
            todo = nxt
        dead = [s for s in self.states if s not in self.rest]
        if dead:
            raise CheckError('grammar states without an end: %s' % dead[:3])
        self.kinds = sorted(KINDS)
        self.start = [s['s'] for s in self.states.values() if not s['path']][0]

    def detour(self, r, path):
        """Another path through the same states"""
        out, s = [], self.start
        for k in path:
            moves = self.states[s]['moves']
            s = moves[k]
            out.append(r.choice([x for x in sorted(moves) if moves[x] == s]) if r.random() < .7 else k)
        return out

    def behind(self, r, s):
        """What could follow the state"""
        if r.random() < .2:
            return [k for k in r.sample(self.kinds, 3) if k not in ('EOF', 'UNTERM')]
        k = r.choice(sorted(s['moves']))
        return [x for x in [k] + self.rest[s['moves'][k]] if x not in ('EOF', 'UNTERM')]

    def text(self, r, kinds):
        """The input, and the column of its last token"""
        out, col = bytearray(), 1
        n = 0
        for i, k in enumerate(kinds):
            t = token(k, i + 1, r)
            gap = b''
            if i:
                gap = r.choice([b' ', b' ', b'  ', b'\t']) if r.random() < .98 else \
                    r.choice([b' /*\xf0\x9f\x98\x80*/ ', b' /* \xc3\xa9\xe3\x81\x82*/ ', b' /*\xff*/ ', b'\t/*\xed\xa0\x80*/\t'])
            out += gap
            n = len(bytes(out).decode('utf-8', 'replace'))
            out += t
        return bytes(out), n + 1


KINDS = set(gen.KEYWORDS) | set(PUNCT) | {'IDENT', 'BACKTICK_IDENT', 'SINGLE_QUOTE_IDENT', 'DOUBLE_QUOTE_IDENT', 'NUMBER',
                                          'ILLEGAL', 'UNTERM', 'EOF'}


def walks(c, p, n, longest=60):
    """Random walks through the automaton: the kinds of the tokens, and the states passed (one more)"""
    r = c.rnd
    start = [s['s'] for s in p.states.values() if not s['path']]
    assert len(start) == 1
    out = []
    for _ in range(n):
        s, kinds, seen = start[0], [], [start[0]]
        for _ in range(r.choice([longest // 4, longest // 2, longest])):
            if s == 'done':
                break
            moves = p.states[s]['moves']
            # by where they lead, so that the one way on is as likely as the many that are alike
            to = r.choice(sorted(set(moves.values())))
            if to == 'done' and r.random() < .8:
                continue
            k = r.choice(sorted(k for k in moves if moves[k] == to))
            kinds.append(k)
            s = to
            seen.append(s)
        out.append((kinds, seen))
    return out


STRUCTURE = ['RPAREN', 'LPAREN', 'COMMA', 'SEMICOLON', 'EOF']


def walk_cases(c, p, n):
    """What is unexpected somewhere on a long way: [(text, column, eof)]"""
    r = c.rnd
    bad = []
    for kinds, seen in walks(c, p, n):
        for i in range(len(seen)):
            if seen[i] == 'done':
                continue
            moves = p.states[seen[i]]['moves']
            for k in STRUCTURE + r.sample(p.kinds, 2):
                if k not in moves:
                    t, col = p.text(r, kinds[:i] + [k])
                    bad.append((t, col, k == 'EOF'))
    return bad


def path_cases(c, fine, accepted_share=1.0, rejected_share=1.0, again=0):
    """(texts with completions, [(text, column, eof)] of rejected tokens, paths)"""
    r = c.rnd
    p = Paths(c, 'GrammarPathsFine' if fine else 'GrammarPaths')
    good, bad = [], []
    for s in sorted(p.states.values(), key=lambda s: s['s']):
        for k in p.kinds:
            ks = s['path'] + [k]
            if k in s['moves']:
                if r.random() < accepted_share:
                    good.append(p.text(r, ks + p.rest[s['moves'][k]])[0])
            elif r.random() < rejected_share:
                t, col = p.text(r, ks)
                bad.append((t, col, k == 'EOF'))
                # the same on another way, and with more behind it
                if r.random() < again:
                    t, col = p.text(r, p.detour(r, s['path']) + [k])
                    if k not in ('EOF', 'UNTERM'):
                        t += b' ' + p.text(r, p.behind(r, s))[0]
                    bad.append((t, col, k == 'EOF'))
    return good, bad, p


# --------------------------------------------------------------------------
# broken texts

JUNK = [b'(', b')', b',', b';', b'=', b'.', b'/', b'-', b'+', b"''", b'""', b'``', b'x', b'`x`', b"'x'", b'"x"', b'7', b'1.5e3', b'@', b'\x00',
        b'\xff', b'\xe3\x81\x82', b'\\', b"'x", b'"x', b'`x', b'/* x', b'*/', b'--', b'-- ', b'#', b'_x', b'$']


def broken(c, g):
    """A text that has been damaged: tokens deleted, inserted, replaced, swapped, or cut"""
    r = c.rnd
    s = g.schema()
    sp = gen.Speller(r, r.choice(['plain', 'random', 'random']))
    toks = sp.schema(s, .1)
    k = r.random()
    if not toks:
        toks = [b'CREATE']
    if k < .75:
        for _ in range(1 if r.random() < .8 else r.randrange(1, 4)):
            if not toks:
                break
            i = r.randrange(len(toks))
            m = r.random()
            new = r.choice(JUNK) if r.random() < .35 else r.choice(sorted(gen.KEYWORDS)).encode() if r.random() < .6 else r.choice(toks)
            if m < .25:
                del toks[i]
            elif m < .5:
                toks.insert(i, new)
            elif m < .75:
                toks[i] = new
            elif m < .87 and i + 1 < len(toks):
                toks[i], toks[i + 1] = toks[i + 1], toks[i]
            elif m < .95:
                del toks[i:]
            else:
                j = min(len(toks), i + r.randrange(1, 6))
                del toks[i:j]
    b = gen.layout(toks, r if r.random() < .7 else None, comments=.05)
    if k >= .75:
        m = r.random()
        i = r.randrange(len(b) + 1)
        if m < .35:
            b = b[:i]
        elif m < .7:
            b = b[:i] + r.choice([b"'", b'"', b'`', b'\\', b'/*', b'*/', b'--', b'#', b'\n', b'\x00', b'\xff', b'.', b'e', b'\xe3\x81\x82',
                                  b'(', b')', b',', b';', b'\xe3']) + b[i:]
        else:
            b = b[:i] + b[i + r.randrange(1, 4):]
    return b


def parse_cases(c, kind, texts, vias=('bytes', 'string', 'file')):
    r = c.rnd
    jobs = [dict(op='parse', text=b64(t), via=r.choice(vias)) for t in texts]
    res = c.run_jobs(jobs)
    cases = []
    for t, j, x in zip(texts, jobs, res):
        cases.append(dict(kind=kind, text=units(t), file='FILE' if j['via'] == 'file' else '', panic=x['panic'], hang=x['hang'],
                          obs=x['r'] or dict(ok=False, nil=True, stmts=[], err=[])))
    return cases


def describe_texts(texts, cases):
    def d(i):
        k = cases[i]
        return dict(kind=k['kind'], text=texts[i].decode('utf-8', 'backslashreplace'), text_b64=b64(texts[i]),
                    observed={x: k[x] for x in k if x not in ('text', 'texts', 'kind', 'i', 'out', 'out2', 'outs')})
    return d


def judge_texts(c, cases, texts):
    verdicts = c.judge(cases)
    settle(c, cases, verdicts, describe_texts(texts, cases))
    return verdicts


def samples(texts, n=3):
    return [t.decode('utf-8', 'replace')[:500] for t in texts[:n]]


def run_C06(c):
    c.level = 'model_checking'
    r = c.rnd
    good, _, p = path_cases(c, not c.quick, 1.0, 0)
    if c.quick:
        more, _, p = path_cases(c, True, .15, 0)
        good += more
    for kinds, seen in walks(c, p, c.pick(300, 4000)):
        good.append(p.text(r, kinds + p.rest[seen[-1]])[0])
    g = gen.Gen(r, odd=.12)
    n = c.pick(700, 12000)
    rand = [gen.spell(r, g.schema(), 'plain' if r.random() < .2 else 'random', noise=r.choice([.1, .3])) for _ in range(n)]
    rand += [stretched(c, gen.spell(r, g.schema(), 'random', noise=.1), r.choice(LONG)) for _ in range(n // 5)]
    rand += [gen.spell(r, x, 'random', noise=0, comments=0) for x in g.places()]
    texts = good + rand
    cases = parse_cases(c, 'C06', texts)
    c.log('%d texts parsed' % len(texts))
    judge_texts(c, cases, texts)
    acc = [t for t, k in zip(texts, cases) if k['obs']['ok'] and k['obs']['stmts']]
    c.cov = dict(traces_validated_against_impl=len(texts), distinct_nontrivial=len(set(acc)), grammar_moves=len(good), random_texts=n,
                 rule='every move of the grammar automaton (every control state by a shortest path, each accepted token, the shortest '
                      'completion), random walks through it, and random schemas in random spelling between ignored statements, through Parse, ParseString and '
                      'ParseFile; nontrivial: distinct accepted texts that declare a table', samples=samples(rand))


def run_C10(c):
    c.level = 'model_checking'
    r = c.rnd
    _, bad, p = path_cases(c, True, 0, 1.0, c.pick(.6, 1.0))
    bad += walk_cases(c, p, c.pick(600, 6000))
    # where each is rejected, against the explored automaton
    size = 400
    jobs = [dict(op='parsemany', texts=[enc(t) for t, _, _ in bad[b:b + size]], via=r.choice(['bytes', 'string'])) for b in range(0, len(bad), size)]
    res = c.run_jobs(jobs, timeout=60)
    recheck = []
    for b, x in zip(range(0, len(bad), size), res):
        part = bad[b:b + size]
        if x['panic'] or x['hang'] or x['r'] is None:
            recheck += [t for t, _, _ in part]
            continue
        for (t, col, eof), o in zip(part, x['r']):
            want = dict(ok=False, nil=True, parse=True, line=1, col=col, eof=eof)
            if o != want:
                recheck.append(t)
    if len(recheck) > 2000:
        recheck = r.sample(recheck, 2000)
    c.log('%d unexpected tokens, %d not as expected' % (len(bad), len(recheck)))
    odd = len(recheck)
    recheck += [t for t, _, _ in r.sample(bad, c.pick(500, 6000))]
    g = gen.Gen(r, odd=.12)
    rand = [broken(c, g) for _ in range(c.pick(1100, 20000))]
    rand += [stretched(c, broken(c, g), r.choice(LONG)) for _ in range(c.pick(250, 3000))]
    rand += [stretched(c, broken(c, g), r.choice([4096, 5000, 9000])) for _ in range(c.pick(6, 60))]
    texts = recheck + rand
    cases = parse_cases(c, 'C10', texts)
    verdicts = judge_texts(c, cases, texts)
    if odd and not any(verdicts[i] for i in range(odd)):
        raise CheckError('%d inputs are not rejected where the automaton says, but the verdict is fine: %r' % (odd, recheck[0]))
    rej = [t for t, k in zip(texts, cases) if not k['obs']['ok']]
    c.cov = dict(traces_validated_against_impl=len(bad) + len(texts), distinct_nontrivial=len(set(t for t, _, _ in bad) | set(rej)),
                 unexpected_tokens=len(bad), damaged_texts=len(rand),
                 rule='every control state of the grammar automaton (column types told apart) by a shortest path, followed by each kind of '
                      'token that it does not accept, alone and with more behind it; the same along random walks; random well-formed texts with tokens deleted, '
                      'inserted, replaced, swapped or cut, and bytes inserted, removed or cut; nontrivial: distinct rejected texts',
                 samples=samples(rand))


def stretched(c, b, n):
    """The text with something long in it, before or behind whatever may be wrong there"""
    r = c.rnd
    unit = r.choice([b' ', b'\n', b'\r\n', b'\t', b' \n', b'\xe3\x81\x82\n', b'/* x */', b'-- x\n', b'#\n', b'/*\n*/', b'DROP TABLE x;\n', b';', b'\n\n  '])
    k = max(1, n // len(unit))
    at = [0, len(b)] + [i for i, x in enumerate(b) if x in b' \n']
    if r.random() < .3:
        # one long word or string, somewhere
        unit, k = r.choice([b'x', b'ab_9', b'`x`` `', b"'it''s'", b"'\xe3\x81\x82'", b'"a\nb"', b'7', b'/* * x\n */', b'-- x\n']), 1
        if unit in (b'x', b'ab_9', b'7'):
            unit = b' ' + unit * (n // len(unit)) + b' '
        else:
            unit = b' ' + unit[:2] + unit[2:-1] * (n // len(unit)) + unit[-1:] + b' '
    i = r.choice(at)
    return b[:i] + unit * k + b[i:]


LONG = [16, 63, 64, 65, 127, 128, 255, 256, 257, 300, 1000, 1023, 1024, 1025]

# --------------------------------------------------------------------------
# C09

PIECES = [b"'", b'"', b'`', b'\\', b"''", b'""', b'``', b"\\'", b'\\"', b'\\\\', b'/*', b'*/', b'/', b'*', b'--', b'-- ', b'--\n', b'--\t', b'#', b'-', b'+',
          b'.', b'0', b'12', b'1.', b'.5', b'1e', b'1e5', b'1E-3', b'e', b'E', b'-7', b'+.5', b'1.2.3', b' ', b'\n', b'\t', b'\r', b'\r\n', b'\x00', b'\xff',
          b'\xe3\x81\x82', b'\xe3\x81', b'\xc3\xa9', b'\xf0\x9f\x98\x80', b'\xc2\xa0', b'a', b'_', b'a_1', b'Z9', b'(', b')', b',', b';', b'=', b'@', b'\x0b', b'\x0c',
          b'$', b'0x1F', b'select', b'CREATE', b'int', b'AUTO_INCREMENT', b'\xef\xbb\xbf', b'\xed\xa0\x80', b'\xef\xbf\xbd', b'0.', b'*/ x', b'/*/', b'/**/', b'/* */']


def soup(r, kw, n):
    out = bytearray()
    for _ in range(n):
        k = r.random()
        if k < .7:
            out += r.choice(PIECES)
        elif k < .8:
            w = r.choice(kw)
            out += ''.join(r.choice([a.lower(), a.upper()]) for a in w).encode()
        elif k < .9:
            out += bytes([r.randrange(256)])
        else:
            out += bytes([r.randrange(32, 127)])
    return bytes(out)


def run_lexer(c, jobs, limit=600):
    """jobs: dicts with text, read. In-package, because the scanner is not exported"""
    fin, fout = os.path.join(c.work, 'lexjobs'), os.path.join(c.work, 'lexout')
    ov = os.path.join(c.work, 'overlay.json')
    with open(ov, 'w') as f:
        json.dump({'Replace': {os.path.join(REPO, 'zz_lexer_verif_test.go'): os.path.join(VERIF, 'harness/overlay/lexer_verif_test.go')}}, f)
    exe = os.path.join(c.work, 'lexer.test')
    if not os.path.exists(exe):
        p = subprocess.run(['go', 'test', '-overlay', ov, '-vet=off', '-c', '-o', exe, '.'], cwd=REPO, env=goenv(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            c.log('the scanner can not be run alone: ' + p.stdout.decode(errors='replace')[:500])
            return None
    for i, j in enumerate(jobs):
        j['i'] = i
    results = {}
    todo = list(range(len(jobs)))
    crashes = 0
    while todo:
        with open(fin, 'w') as f:
            for i in todo:
                f.write(json.dumps(jobs[i]) + '\n')
        e = goenv()
        e.update(VH_JOBS=fin, VH_OUT=fout)
        try:
            p = subprocess.run([exe, '-test.run', '^TestVerifLexer$', '-test.timeout', '0'], env=e, cwd=c.scratch, timeout=limit,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = p.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired:
            out = 'does not end'
        complete = False
        for line in open(fout, 'rb').read().split(b'\n'):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if r['i'] < 0:
                complete = True
            else:
                results[r['i']] = r
        todo = [i for i in todo if i not in results]
        if complete:
            break
        crashes += 1
        if not todo:
            raise CheckError('the scanner test went down: ' + out[-2000:])
        # jobs are done one after another: it is the first one unanswered, or
        # what its predecessor left behind
        results[todo[0]] = dict(i=todo[0], toks=[], panic=crash_text(p.returncode, out), hang=False, left=False)
        todo = todo[1:]
        if crashes >= 10:
            for i in todo:
                results[i] = None
            break
    if len(results) != len(jobs):
        raise CheckError('scanner results are missing')
    return [results[i] for i in range(len(jobs))]


def layouts(c, g, sp):
    """The same tokens laid out in several ways"""
    r = c.rnd
    toks = gen.Speller(r, 'random').schema(g.schema(), .15)
    if r.random() < .25 and toks:
        i = r.randrange(len(toks))
        toks[i:i + 1] = r.choice([[], [r.choice([b',', b')', b'x', b';'])]])
    out = [gen.layout(toks)]
    for _ in range(sp):
        out.append(gen.layout(toks, r, comments=r.choice([.1, .5]), tight=r.choice([0, .2, .9])))
    return out


def run_C09(c):
    r = c.rnd
    kw = sorted(gen.KEYWORDS)
    g = gen.Gen(r, odd=.2)
    texts = [b''] + [k.encode() for k in kw] + [k.lower().encode() for k in kw] + [(k + '_').encode() for k in kw] + \
            [(k + ' ').encode()[1:] for k in kw] + PIECES
    # every pair of pieces, and triples of the most delicate ones
    texts += [a + b for a in PIECES for b in PIECES]
    core = [b"'", b'"', b'`', b'\\', b'/', b'*', b'-', b' ', b'\n', b'#', b'a', b'1', b'.', b'e', b'\xe3\x81\x82', b'\xff']
    texts += [a + b + d for a in core for b in core for d in core]
    if not c.quick:
        texts += [a + b + d + f for a in core[:12] for b in core[:12] for d in core[:12] for f in core[:12]]
    for _ in range(c.pick(1500, 20000)):
        texts.append(soup(r, kw, r.randrange(1, r.choice([4, 10, 40]))))
    for _ in range(c.pick(150, 2000)):
        texts.append(text(c, g.schema()) if r.random() < .5 else broken(c, g))
    for _ in range(c.pick(150, 2000)):
        texts.append(stretched(c, soup(r, kw, r.randrange(1, 12)) if r.random() < .5 else text(c, g.schema(1)), r.choice(LONG)))
    for _ in range(c.pick(6, 60)):
        texts.append(stretched(c, text(c, g.schema(1)), r.choice([4096, 5000, 9000])))
    res = run_lexer(c, [dict(text=b64(t), read=-1) for t in texts])
    if res is None:
        # as far as it shows in what is parsed
        frames = [b'CREATE TABLE t (a INT COMMENT %s, b INT)', b'CREATE TABLE t (a INT COMMENT \'%s\', b INT)', b'CREATE TABLE t (a INT) COMMENT="%s"', b'CREATE TABLE `%s` (a INT)',
                  b'CREATE TABLE t (a INT) /* %s */ ;', b'CREATE TABLE t (a INT) -- %s\n;', b'CREATE TABLE t (a INT DEFAULT %s)', b'%s CREATE TABLE t (a INT)', b'%s']
        texts = [r.choice(frames) % t for t in r.sample(texts, min(len(texts), c.pick(3000, 30000)))]
        cases = parse_cases(c, 'parse', texts)
        res = []
    else:
        cases = [dict(kind='C09', text=units(t), toks=x['toks'], panic=x['panic'], hang=x['hang']) for t, x in zip(texts, res) if x is not None]
        texts = [t for t, x in zip(texts, res) if x is not None]
    c.log('%d texts scanned' % len(texts))
    # layouts
    groups = [layouts(c, g, 3) for _ in range(c.pick(150, 3000))]
    jobs = [dict(op='parse', text=b64(t), via='bytes') for ts in groups for t in ts]
    out = c.run_jobs(jobs)
    k = 0
    for ts in groups:
        obs = out[k:k + len(ts)]
        k += len(ts)
        if any(x['panic'] or x['hang'] or x['r'] is None for x in obs):
            continue  # C11
        cases.append(dict(kind='C09layout', texts=[units(t) for t in ts], obs=[dict(ok=x['r']['ok'], stmts=x['r']['stmts']) for x in obs]))
        texts.append(b'\n-----\n'.join(ts))
    judge_texts(c, cases, texts)
    c.cov = dict(evaluations=len(cases), distinct_nontrivial=len(set(texts)), tokens=sum(len(x['toks']) for x in res if x), layouts=len(jobs),
                 rule='every keyword in two cases and with a suffix, all pairs of %d delicate fragments, all triples of %d delicate characters, '
                      'random mixes of fragments and bytes, valid and damaged schemas (tokens in the order the scanner delivers them: kind, '
                      'value, offset, line); groups of four layouts of the same tokens, parsed; nontrivial: distinct texts' % (len(PIECES), len(core)),
                 samples=samples(texts[-3:]))


# --------------------------------------------------------------------------

KF_KEYWORD = b'CREATE TABLE t (a INT) ENGINE=`table`'


def run_C07(c):
    r = c.rnd
    g = gen.Gen(r, odd=.3)
    n = c.pick(900, 12000)
    good, _, p = path_cases(c, False, c.pick(.5, 1.0), 0)
    texts = [text(c, g.schema()) for _ in range(n)] + good + [KF_KEYWORD]
    texts += [gen.spell(r, x, 'random', noise=0, comments=0) for x in g.places()]
    jobs = []
    for t in texts:
        jobs.append(dict(op='format', text=b64(t), indent=[] if r.random() < .3 else [r.choice([' ', '\t', '', '  '])], n=r.randrange(0, 6)))
    res = c.run_jobs(jobs)
    cases, tables = [], 0
    for t, x in zip(texts, res):
        rr = x['r'] or dict(parse=dict(ok=False), outs=[])
        outs = []
        for o in rr['outs']:
            o = dict(o, out=units(unb64(o['out'])), out2=units(unb64(o['out2'])), re=dict(ok=o['re']['ok'], stmts=o['re']['stmts']))
            outs.append(o)
            tables += 1
        cases.append(dict(kind='C07keyword' if t is KF_KEYWORD else 'C07', text=units(t), ok=rr['parse']['ok'], outs=outs, panic=x['panic'], hang=x['hang']))
    c.log('%d tables formatted' % tables)
    keep = [i for i, t in enumerate(texts) if not keyword_value(cases[i])]
    cases, texts = [cases[i] for i in keep], [texts[i] for i in keep]
    verdicts = c.judge(cases)
    d = describe_texts(texts, cases)

    def describe(i):
        x = d(i)
        x['printed'] = [dict(out=dec(''.join(o['out'])).decode('utf-8', 'backslashreplace')) for o in cases[i]['outs']]
        return x
    settle(c, cases, verdicts, describe)
    c.cov = dict(evaluations=tables, distinct_nontrivial=len({t for t, k in zip(texts, cases) if k['outs']}), grammar_moves=len(good),
                 rule='random schemas (names and text with quotes, backquotes, backslashes, non-ASCII characters, comment starters) and the '
                      'moves of the grammar automaton, random indentation: print, parse what is printed, print that; nontrivial: distinct '
                      'texts with a table', samples=samples(texts))


def keyword_value(case):
    return False


def run_C16(c):
    r = c.rnd
    g = gen.Gen(r, odd=.2)
    n = c.pick(800, 10000)
    good, bad, p = path_cases(c, False, c.pick(.3, 1.0), .01)
    texts = [gen.spell(r, g.schema(), 'random', noise=r.choice([.1, .4])) for _ in range(n)]
    texts += [broken(c, g) for _ in range(n // 6)] + good + [t for t, _, _ in bad] + [b'', b';', b'-- x', b'DROP TABLE x', b'CREATE DATABASE d']
    # the smallest texts there are, and what surrounds a text
    texts += [bytes([x]) for x in range(256)]
    short = [b';', b'x', b'(', b')', b',', b'.', b'`', b"'", b'"', b'--', b'#', b'/*', b'*/', b'*', b'1', b'-', b'=', b'\\', b'\0', b'\xff', b'CREATE', b'USE', b'SET', b'DROP', b'TABLE',
             b'\n', b'\t', b'\r', b' ', b'\xef\xbb\xbf', b'\xc3\xa9', b'/**/', b'-- x\n', b'# x']
    texts += [a + b for a in short for b in short if c.quick is False or r.random() < .5]
    texts += [r.choice(short) + gen.spell(r, g.schema(1), 'random') + r.choice(short) for _ in range(n // 10)]
    jobs, indents = [], []
    for t in texts:
        k = r.random()
        if k < .25:
            ind, num = [], 0
            indents.append('')
        else:
            ind, num = [r.choice([' ', '\t', '', '  '])], r.randrange(0, 6) if r.random() < .8 else r.randrange(0, 40)
            indents.append(ind[0] * max(num, 1))
        jobs.append(dict(op='lint', text=b64(t), indent=ind, n=num, new=r.random() < .2, other=r.random() < .1))
    res = c.run_jobs(jobs)
    cases = []
    for t, ind, x in zip(texts, indents, res):
        o = x['r'] or dict(ok=False, out='', ok2=False, out2='')
        cases.append(dict(kind='C16', text=units(t), ok=o['ok'], out=units(unb64(o['out'])), ok2=o['ok2'], out2=units(unb64(o['out2'])),
                          indent=ind, panic=x['panic'], hang=x['hang']))
    c.log('%d texts linted' % len(texts))
    verdicts = c.judge(cases)
    d = describe_texts(texts, cases)
    settle(c, cases, verdicts, lambda i: dict(d(i), printed=dec(''.join(cases[i]['out'])).decode('utf-8', 'backslashreplace')))
    c.cov = dict(evaluations=len(texts), distinct_nontrivial=len({t for t, k in zip(texts, cases) if k['out']}),
                 rule='random schemas with ignored statements between them, moves of the grammar automaton, damaged texts; random indentation; '
                      'nontrivial: distinct texts for which something is printed', samples=samples(texts))


# --------------------------------------------------------------------------
# C08

ATTR = ['uns', 'zf', 'nul', 'def', 'ai', 'uniq', 'prim', 'key', 'com', 'len']
TYPES = ["BIT", "TINYINT", "SMALLINT", "MEDIUMINT", "INT", "INTEGER", "BIGINT", "REAL", "DOUBLE", "FLOAT", "DECIMAL", "NUMERIC", "DATE", "TIME",
         "TIMESTAMP", "DATETIME", "YEAR", "CHAR", "VARCHAR", "BINARY", "VARBINARY", "TINYBLOB", "BLOB", "MEDIUMBLOB", "LONGBLOB", "TINYTEXT",
         "TEXT", "MEDIUMTEXT", "LONGTEXT", "ENUM", "SET", "BOOLEAN", "BOOL", "JSON", "GEOMETRY"]
DEFS = [[], [('NULL', False)], [('0', False)], [('0', True)], [('-1.5', True)], [('1e3', True)], [('1E-3', False)], [('.5', True)], [('+7', True)],
        [('TRUE', False)], [('FALSE', False)], [('TRUE', True)], [('abc', True)], [('', True)], [('CURRENT_TIMESTAMP', False)], [('NOW()', False)],
        [('NULL', True)], [('1.2.3', True)], [('1e', True)], [('007', True)], [(' 1', True)], [('1 ', True)], [('0x1F', True)], [('-', True)], [('.', True)]]


def one_column(name, typ, **kw):
    d = dict(name=name, typ=typ, len=[], dec=[], uns=False, zf=False, bin=False, cs=[], co=[], upd=[], nul='none', **{'def': []})
    d.update(ai=False, uniq=False, prim=False, key=False, com=[], vals=[])
    d.update(kw)
    return d


def run_C08(c):
    r = c.rnd
    tables = []
    cols = []
    # all types, sizes, signs, NULL states and defaults
    for typ in TYPES:
        for ln in ([], ['7'], ['1'], ['7', '2']):
            for uns in (False, True):
                for nul in ('none', 'null', 'notnull'):
                    for d in DEFS:
                        cols.append(one_column('c', typ, len=ln[:1], dec=ln[1:], uns=uns, nul=nul, **{'def': [dict(v=v, q=q) for v, q in d]}))
    total = len(cols)
    cols = r.sample(cols, c.pick(6000, total)) if c.quick else cols
    for x in cols:
        for k in ('zf', 'bin', 'ai', 'uniq', 'prim', 'key'):
            x[k] = r.random() < .15
        if r.random() < .2:
            x['com'] = ['it''s']
        if r.random() < .15:
            x['cs'], x['co'] = ['utf8'], ['utf8_bin']
        if r.random() < .1:
            x['upd'] = ['CURRENT_TIMESTAMP']
        if x['typ'] in ('ENUM', 'SET'):
            x['vals'] = ['a', 'b'][:r.randrange(1, 3)]
    per = 10
    for b in range(0, len(cols), per):
        part = cols[b:b + per]
        for i, x in enumerate(part):
            x['name'] = 'c%d' % i
        tables.append(dict(name='t', temp=False, ine=False, like=[], cols=part, idx=[], opts=[]))
    # tables with keys in any order
    g = gen.Gen(r, odd=.2)
    for _ in range(c.pick(700, 10000)):
        t = g.table('t')
        t['cols'] = copy.deepcopy(t['cols'])
        for x in t['cols']:
            if r.random() < .25:
                x['uniq'] = True
            if r.random() < .15:
                x[r.choice(['prim', 'key'])] = True
        names = [x['name'] for x in t['cols']]
        extra = []
        for _ in range(r.randrange(0, 4)):
            n = r.choice(names)
            kind = r.choice(['NORMAL', 'UNIQUE', 'FOREIGN', 'FOREIGN', 'PRIMARY', 'FULLTEXT'])
            cc = [dict(n=n, len=[], dir=r.choice(['none', 'asc', 'desc']))]
            nm = r.choice(names + ['k', 'k', 'l'])
            x = dict(kind=kind, sym=[], name=[], typ=r.choice(['none', 'none', 'btree', 'hash']), cols=cc, opts=[], ref=[])
            if kind == 'FOREIGN':
                x['sym'] = [nm] if r.random() < .8 else []
                x['name'] = [r.choice(names + ['k', 'l'])] if r.random() < .3 else []
                x['ref'] = [dict(t='r', cols=copy.deepcopy(cc), match='none', upd='none', **{'del': 'cascade'})]
            elif kind != 'PRIMARY':
                x['name'] = [nm] if r.random() < .8 else []
            extra.append(x)
        t['idx'] = t['idx'] + extra
        r.shuffle(t['idx'])
        if r.random() < .04:
            t.update(like=['other'], cols=[], idx=[], opts=[])
        elif r.random() < .04:
            # built in code: a template and columns
            t['like'] = ['other']
        if r.random() < .3:
            t[r.choice(['temp', 'ine'])] = r.random() < .7
        tables.append(t)
    # much of something; odd names and strings everywhere
    for _ in range(c.pick(60, 600)):
        tables += g.wide(r.choice([1, 2, 2, 3]))
    tables += [t for x in g.places() for t in x]
    jobs = [dict(op='norm', raw=t) for t in tables]
    res = c.run_jobs(jobs)
    cases = [dict(kind='C08', raw=t, r=x['r'] or {}, panic=x['panic'], hang=x['hang']) for t, x in zip(tables, res) if not x.get('skipped')]
    c.log('%d tables normalized' % len(cases))
    verdicts = c.judge(cases)
    settle(c, cases, verdicts, lambda i: dict(table=cases[i]['raw'], observed=cases[i]['r'], panic=cases[i]['panic']))
    c.cov = dict(evaluations=sum(1 + len(t['cols']) for t in tables), distinct_nontrivial=len({json.dumps(x, sort_keys=True) for t in tables for x in t['cols']}),
                 tables=len(tables), column_combinations=len(cols), of_combinations=total,
                 rule='columns: every combination of type, size, sign, NULL state and %d kinds of default (a random share of them in the quick tier), '
                      'random other attributes; tables: random columns with inline keys, indexes and foreign keys whose names coincide, in any order; '
                      'each column and table is normalized twice; nontrivial: distinct columns' % len(DEFS), samples=[t for t in tables[:2] + tables[-2:]])

"""Random schemas, their spellings, and their layouts. A table, column or index
is a dict of the same shape as in spec/Canon.tla."""
import copy, os, re
from vlib import enc, dec, SPEC


def _keywords():
    src = open(os.path.join(SPEC, 'Lexer.tla')).read()
    m = re.search(r'^Keywords == \{(.*?)\}', src, re.S | re.M)
    return set(re.findall(r'"(\w+)"', m.group(1)))


KEYWORDS = _keywords()
PLAIN = re.compile(r'^[A-Za-z][A-Za-z0-9_]*$')

INTS = ['TINYINT', 'SMALLINT', 'MEDIUMINT', 'INT', 'INTEGER', 'BIGINT']
DECS = ['REAL', 'DOUBLE', 'FLOAT']
DECOPT = ['DECIMAL', 'NUMERIC']
TIMES = ['TIME', 'TIMESTAMP', 'DATETIME']
CHARS = ['CHAR', 'VARCHAR']
TEXTS = ['TINYTEXT', 'TEXT', 'MEDIUMTEXT', 'LONGTEXT']
BINS = ['BINARY', 'VARBINARY']
BLOBS = ['TINYBLOB', 'BLOB', 'MEDIUMBLOB', 'LONGBLOB']
OTHERS = ['DATE', 'YEAR', 'BOOL', 'BOOLEAN', 'JSON', 'GEOMETRY']
ALL_TYPES = ['BIT'] + INTS + DECS + DECOPT + TIMES + CHARS + TEXTS + BINS + BLOBS + OTHERS + ['ENUM', 'SET']

NAMES = ['a', 'b', 'c', 'd', 'id', 'user_id', 'Name', 'x9', 'created_at']
ODD_NAMES = ['key', 'table', 'order by', 'a`b', '1st', 'a.b', '$x', "it's", 'say "x"', 'back\\slash', '-- no comment',
             '/* x */', 'a;b', '\u00e9t\u00e9', '\u65e5\u672c', ' ', '(', 'primary', '`', '``x', 'end\\', '# x', 'a,b',
             '%s', 'a%db', '\U0001f600', '\U0001f600x', '\ufeffa', 'a\u00a0b', '\u3000', '\u2028', 'e\u0301', '\u0130', '\u212a', '\u017f', '\t', 'new\nline', '0', 'select', 'FIRST']
STRINGS = ['', 'x', 'hello world', "it's", 'say "hi"', '--', '# x', '/* c */', ';', 'a,b', '\u00e9', '\u65e5\u672c\u8a9e',
           'a\\\\b', '\\n', '\\%', "''", '`', '%', 'line\nbreak', '\U0001f600', 'a\U0001f600\u00e9', '\ufeff', '\u2028', '\ufffd', '\\\\', 'x)', '(', '0', '1', 'NULL', 'CURRENT_TIMESTAMP',
           "\\\\'", 'a\\0b', '5.', '.5', '1e5', '-3', '+7', '1e', '00', ' 1', '1 ', 'TRUE', '%d %s', '\t']
NUMS = ['0', '1', '10', '255', '3.14', '-1', '+5', '.5', '1e3', '1.5E-7', '00', '-0.0', '2E', '7.']


def E(s):
    return enc(s.encode('utf-8')) if isinstance(s, str) else enc(s)


class Gen:
    def __init__(self, rnd, odd=0.15):
        self.r = rnd
        self.odd = odd  # how often to use odd names and values

    def p(self, x):
        return self.r.random() < x

    def choice(self, xs):
        return xs[self.r.randrange(len(xs))]

    def name(self, used=()):
        for _ in range(100):
            if self.p(self.odd):
                n = E(self.choice(ODD_NAMES))
            else:
                n = E(self.choice(NAMES) + (str(self.r.randrange(4)) if self.p(.3) else ''))
            if n not in used and not any(n.upper() == u.upper() for u in used):
                return n
        return E('n%d' % self.r.randrange(10 ** 9))

    def string(self):
        if self.p(.15):
            n = self.r.randrange(1, 6)
            return E(b''.join(self.unit() for _ in range(n)))
        return E(self.choice(STRINGS))

    def unit(self):
        c = self.r.randrange(1, 256)
        if c == 0x5c:
            d = self.r.choice([0x5c, ord('n'), ord('%'), ord('0'), ord('`')])
            return bytes([0x5c, d])
        return bytes([c])

    def num(self):
        return self.choice(NUMS) if self.p(.5) else str(self.r.randrange(300))

    def small(self):
        return str(self.r.randrange(1, 65)) if self.p(.93) else self.choice(['100', '255', '256', '767', '1024', '65535'])

    # -- columns
    def column(self, name, typ=None):
        c = dict(name=name, typ=typ or self.choice(ALL_TYPES), len=[], dec=[], uns=False, zf=False, bin=False, cs=[], co=[],
                 upd=[], nul='none', **{'def': []}, ai=False, uniq=False, prim=False, key=False, com=[], vals=[])
        self.attributes(c)
        return c

    def attributes(self, c):
        t = c['typ']
        for k in ('len', 'dec', 'cs', 'co', 'upd', 'def', 'com', 'vals'):
            c[k] = []
        for k in ('uns', 'zf', 'bin'):
            c[k] = False
        c['nul'] = 'none'
        if t in INTS or t == 'BIT' or t in BINS or t in CHARS or t in TEXTS:
            if self.p(.4) or t in ('VARCHAR', 'VARBINARY'):
                c['len'] = [self.small() if self.p(.7) else self.choice(['1', '3', '4', '5', '6', '8', '9', '10', '11', '20'])]
        if t in DECS and self.p(.4):
            c['len'], c['dec'] = [self.small()], [str(self.r.randrange(0, 9))]
        if t in DECOPT and self.p(.6):
            c['len'] = [self.choice(['5', '10', '12'])]
            if self.p(.6):
                c['dec'] = [self.choice(['0', '2'])]
        if t in TIMES and self.p(.4):
            c['len'] = [str(self.r.randrange(0, 7))]
        if t in INTS + DECS + DECOPT:
            c['uns'] = self.p(.3)
            c['zf'] = self.p(.1)
        if t in CHARS + TEXTS:
            c['bin'] = self.p(.1)
            if self.p(.15):
                c['cs'] = [self.choice(['utf8', 'latin1', 'utf8mb4', 'binary'])]
            if self.p(.15):
                c['co'] = [self.choice(['utf8_bin', 'latin1_swedish_ci', 'binary'])]
            if self.p(self.odd * .1):
                c['co'] = [self.name()]
        if t in ('ENUM', 'SET'):
            c['vals'] = [self.string() for _ in range(self.r.randrange(1, 5))]
        if t in ('TIMESTAMP', 'DATETIME') and self.p(.3):
            c['upd'] = ['CURRENT_TIMESTAMP' + self.choice(['', '', '(3)'])]
        c['nul'] = self.choice(['none', 'none', 'null', 'notnull', 'notnull'])
        self.default(c)
        if self.p(.2):
            c['com'] = [self.string()]

    def default(self, c):
        t = c['typ']
        c['def'] = []
        if not self.p(.5):
            return
        k = self.r.randrange(8)
        if k == 0 and c['nul'] != 'notnull':
            d = ('NULL', False)
        elif k == 1:
            d = (self.string(), True)
        elif t in INTS + DECS + DECOPT + ['BOOL', 'BOOLEAN', 'BIT', 'YEAR']:
            d = (self.num(), self.p(.4)) if k < 6 else (self.choice(['TRUE', 'FALSE']), False)
            if not d[1]:
                d = (d[0].upper(), False)
        elif t in TIMES + ['DATE']:
            d = self.choice([('CURRENT_TIMESTAMP', False), ('NOW()', False), ('2020-01-01', True)])
        elif k == 2:
            d = (self.num().upper(), False)
        else:
            d = (self.string(), True)
        c['def'] = [dict(v=d[0], q=d[1])]

    # -- indexes
    def idxcols(self, cols, fk=False):
        n = min(len(cols), self.choice([1, 1, 1, 2, 2, 3]))
        pick = self.r.sample([c['name'] for c in cols], n)
        return [dict(n=x, len=[self.small()] if self.p(.15) and not fk else [],
                     dir=self.choice(['none', 'none', 'none', 'asc', 'desc']) if not fk or self.p(.2) else 'none') for x in pick]

    def index(self, cols, kind=None, used=(), tname=''):
        kind = kind or self.choice(['NORMAL', 'NORMAL', 'UNIQUE', 'UNIQUE', 'FULLTEXT', 'SPATIAL', 'FOREIGN', 'FOREIGN'])
        x = dict(kind=kind, sym=[], name=[], typ='none', cols=self.idxcols(cols, kind == 'FOREIGN'), opts=[], ref=[])
        if kind == 'PRIMARY':
            if self.p(.15):
                x['sym'] = [self.name(used)]
            if self.p(.1):
                x['name'] = [self.name(used)]
        else:
            x['name'] = [self.name(used)]
            if kind == 'UNIQUE':
                if self.p(.2):
                    x['sym'] = [self.name(list(used) + x['name'])]
                    if self.p(.5):
                        x['name'] = []
            if kind == 'FOREIGN':
                if self.p(.75):
                    x['sym'] = x['name']
                    x['name'] = (list(x['sym']) if self.p(.2) else [self.name(list(used) + x['sym'])]) if self.p(.15) else []
        if kind in ('PRIMARY', 'NORMAL', 'UNIQUE') and self.p(.3):
            x['typ'] = self.choice(['btree', 'hash'])
        if kind == 'FULLTEXT' and self.p(.3):
            x['opts'] = [dict(k='WITH PARSER', v=self.choice(['ngram', 'mecab', 'my_parser']) if self.p(.8) else self.name())]
        if kind == 'FOREIGN':
            x['ref'] = [dict(t=self.name(), cols=[dict(n=self.name(), len=[self.small()] if self.p(.05) else [],
                                                       dir=self.choice(['none'] * 8 + ['asc', 'desc'])) for _ in x['cols']],
                             match=self.choice(['none'] * 4 + ['full', 'partial', 'simple']),
                             **{'del': self.choice(['none', 'none', 'restrict', 'cascade', 'setnull', 'noaction'])},
                             upd=self.choice(['none', 'none', 'restrict', 'cascade', 'setnull', 'noaction']))]
        return x

    @staticmethod
    def known(x):
        """All the names an index occupies"""
        return x['name'] + x['sym']

    def option(self):
        k = self.choice(['ENGINE', 'AUTO_INCREMENT', 'AVG_ROW_LENGTH', 'DEFAULT CHARACTER SET', 'DEFAULT COLLATE', 'CHECKSUM',
                         'COMMENT', 'CONNECTION', 'DATA DIRECTORY', 'DELAY_KEY_WRITE', 'INDEX DIRECTORY', 'INSERT_METHOD',
                         'KEY_BLOCK_SIZE', 'MAX_ROWS', 'MIN_ROWS', 'PACK_KEYS', 'PASSWORD', 'ROW_FORMAT',
                         'STATS_AUTO_RECALC', 'STATS_PERSISTENT', 'STATS_SAMPLE_PAGES'])
        q = False
        if k == 'ENGINE':
            v = self.choice(['InnoDB', 'MyISAM', 'MEMORY', 'innodb'])
        elif k == 'DEFAULT CHARACTER SET':
            v = self.choice(['utf8', 'latin1', 'binary', 'utf8mb4'])
        elif k == 'DEFAULT COLLATE':
            v = self.choice(['utf8_bin', 'latin1_swedish_ci', 'binary'])
        elif k in ('COMMENT', 'CONNECTION', 'DATA DIRECTORY', 'INDEX DIRECTORY', 'PASSWORD'):
            v, q = self.string(), True
        elif k == 'INSERT_METHOD':
            v = self.choice(['NONE', 'LASTONE'])
        elif k == 'PACK_KEYS':
            v = self.choice(['0', '1', 'maybe'])
        elif k == 'ROW_FORMAT':
            v = self.choice(['DEFAULT', 'DYNAMIC', 'FIXED', 'COMPRESSED', 'REDUNDANT', 'COMPACT'])
        elif k in ('STATS_AUTO_RECALC', 'STATS_PERSISTENT'):
            v = self.choice(['0', '1', 'DEFAULT'])
        else:
            v = str(self.r.randrange(1, 10 ** self.r.randrange(1, 7)))
        if k in ('ENGINE', 'DEFAULT CHARACTER SET', 'DEFAULT COLLATE') and self.p(self.odd * .3):
            for _ in range(9):
                v = self.name()
                if dec(v).decode('utf-8', 'replace').upper() not in KEYWORDS:
                    break
            else:
                v = 'x'
        return dict(k=k, v=v, q=q)

    # -- tables
    def table(self, name, ncols=None, nidx=None):
        t = dict(name=name, temp=self.p(.05), ine=self.p(.1), like=[], cols=[], idx=[], opts=[])
        n = ncols or self.choice([1, 1, 2, 2, 3, 3, 4, 5, 6])
        for _ in range(n):
            t['cols'].append(self.column(self.name([c['name'] for c in t['cols']])))
        self.keys(t, nidx)
        for _ in range(self.choice([0, 0, 0, 1, 1, 2, 3])):
            t['opts'].append(self.option())
        return t

    def names_of(self, t):
        """The names that are taken by indexes and foreign keys"""
        u = []
        for x in t['idx']:
            u += self.known(x)
        for c in t['cols']:
            if c['uniq']:
                u.append(c['name'])
        return u

    def keys(self, t, nidx=None):
        pk = self.p(.6)
        if pk and self.p(.5):
            c = self.choice(t['cols'])
            c[self.choice(['prim', 'prim', 'key'])] = True
            c['ai'] = self.p(.3)
        elif pk:
            t['idx'].append(self.index(t['cols'], 'PRIMARY'))
        for c in t['cols']:
            if self.p(.1):
                c['uniq'] = True
        for _ in range(self.choice([0, 0, 1, 1, 2, 3]) if nidx is None else nidx):
            t['idx'].append(self.index(t['cols'], used=self.names_of(t)))
        self.r.shuffle(t['idx'])

    big = .04

    def places(self):
        """Every odd name in every place for a name, every odd string in every place for a string: a schema for each"""
        col = lambda n, ty, **kw: dict(dict(name=n, typ=ty, len=[], dec=[], uns=False, zf=False, bin=False, cs=[], co=[], upd=[], nul='none',
                                            ai=False, uniq=False, prim=False, key=False, com=[], vals=[]), **dict({'def': []}, **kw))
        idx = lambda kind, names, **kw: dict(dict(kind=kind, sym=[], name=[], typ='none', opts=[], ref=[],
                                                  cols=[dict(n=n, len=[], dir='none') for n in names]), **kw)
        tab = lambda n, cols, ix=(), opts=(), like=(): dict(name=n, temp=False, ine=False, like=list(like), cols=list(cols), idx=list(ix), opts=list(opts))
        out = []
        letters = ['A', 'z', '_', '_a', 'a_', 'a1', '1a', '1', '12', '1e5', '0x1F', '1.5', 'a-b', 'a$', '$', 'utf8mb4_0900_ai_ci', 'x y', '\u00e9', 'a\u00e9', '-', '-1', '@a', 'a@b']
        for s in ODD_NAMES + letters:
            n = E(s)
            ref = dict(t=n, cols=[dict(n=n, len=[], dir='none')], match='none', upd='none', **{'del': 'none'})
            ix = [idx('NORMAL', [n], name=[n]), idx('FULLTEXT', ['x'], name=['f'], opts=[dict(k='WITH PARSER', v=n)]), idx('FOREIGN', [n, 'y'], sym=[n + n], ref=[
                      dict(ref, cols=ref['cols'] + [dict(n='y', len=[], dir='none')])]), idx('FOREIGN', [n], name=[n + 'k'], ref=[ref]),
                  idx('UNIQUE', ['x'], sym=[n + 's']), idx('PRIMARY', [n], name=[n], sym=[n + 'p'])]
            opts = [dict(k=k, v=n, q=False) for k in ('ENGINE', 'DEFAULT CHARACTER SET', 'DEFAULT COLLATE')] if s.upper() not in KEYWORDS else []
            t = tab(n, [col(n, 'VARCHAR', len=['9'], cs=[n], co=[n]), col('x', 'TEXT', cs=[n]), col('y', 'TEXT', co=[n])], ix, opts)
            out.append([t, tab(n + '2', [], like=[n])])
        for s in STRINGS + ODD_NAMES + letters + NUMS:
            v = E(s if s in STRINGS else s.replace('\\', '\\\\'))
            d = [dict(v=v, q=True)]
            cols = [col('a', 'VARCHAR', len=['9'], com=[v], **{'def': d}), col('b', 'ENUM', vals=[v], **{'def': d}), col('c', 'SET', vals=['x', v, 'y'], com=[v]),
                    col('d', 'INT', **{'def': d}), col('e', 'DECIMAL', nul='notnull', **{'def': d}), col('f', 'DATETIME', **{'def': d}), col('g', 'BOOL', **{'def': d})]
            out.append([tab('t', cols, opts=[dict(k=k, v=v, q=True) for k in ('COMMENT', 'CONNECTION', 'DATA DIRECTORY', 'INDEX DIRECTORY', 'PASSWORD')])])
        return out

    def wide(self, k=None):
        """A schema with much of something"""
        names = lambda k: self.r.sample(['c%d' % i for i in range(1, 140)], k)
        col = lambda n, ty=None: self.column(n, ty or self.choice(['INT', 'INT', 'BIGINT', 'VARCHAR']))
        tab = lambda n, cols: dict(name=n, temp=False, ine=False, like=[], cols=cols, idx=[], opts=[])
        k = self.r.randrange(7) if k is None else k
        if k == 0:
            out = []
            for i, n in enumerate(names(self.r.randrange(9, 15) if self.p(.8) else self.choice([33, 40]))):
                t = tab('t' + n, [col(x) for x in names(self.choice([1, 1, 2]))])
                if self.p(.3):
                    self.keys(t, 1)
                out.append(t)
            return out
        t = tab(self.name(), [col(n) for n in names((self.r.randrange(11, 26) if self.p(.85) else self.choice([33, 66, 130])) if k < 4 else 5)])
        if k == 1:
            for _ in range(self.r.randrange(8, 13) if self.p(.8) else self.choice([17, 33])):
                t['idx'].append(self.index(t['cols'], used=self.names_of(t)))
        elif k == 2:
            for _ in range(2):
                x = self.index(t['cols'], self.choice(['NORMAL', 'UNIQUE', 'FOREIGN']), used=self.names_of(t))
                x['cols'] = [dict(n=c['name'], len=[], dir='none') for c in self.r.sample(t['cols'], min(len(t['cols']), self.choice([4, 6, 8, 9, 11, 16, 17])))]
                if x['ref']:
                    x['ref'][0]['cols'] = copy.deepcopy(x['cols'])
                    self.r.shuffle(x['ref'][0]['cols'])
                t['idx'].append(x)
        elif k == 3:
            self.keys(t, self.r.randrange(0, 4))
        elif k == 4:
            c = t['cols'][0]
            c['typ'] = self.choice(['ENUM', 'SET'])
            self.attributes(c)
            c['vals'] = [E('v%d' % i) if self.p(.8) else self.string() for i in range(self.r.randrange(9, 40) if self.p(.7) else self.choice([64, 65, 128, 257]))]
        elif k == 5:
            long = E(self.choice(['x', 'ab ', "it''s ", '\u00e9', '\\n', '\u65e5\u672c']) * self.choice([64, 255, 256, 300, 1000]))
            c = t['cols'][0]
            c['com'] = [long]
            self.keys(t)
        else:
            t['name'] = E('n' * self.choice([63, 64, 65, 128]))
            t['cols'][0]['name'] = E(self.choice(['\u65e5', 'c']) * 64)
            t['cols'][1]['name'] = t['cols'][0]['name'] + 'x'
            self.keys(t)
            for _ in range(self.r.randrange(0, 12)):
                t['opts'].append(self.option())
        return [t] + ([self.table(self.name([t['name']]))] if self.p(.3) else [])

    def schema(self, n=None):
        if n is None and self.p(self.big):
            return self.wide()
        out = []
        for _ in range(self.choice([1, 1, 2, 2, 3, 4]) if n is None else n):
            out.append(self.table(self.name([t['name'] for t in out])))
        return out

    # -- a schema that is some edits away
    def edit(self, schema, n=None):
        s = copy.deepcopy(schema)
        for _ in range(self.choice([1, 1, 2, 3, 5, 8] if sum(len(t['cols']) for t in s) < 12 else [3, 8, 15, 25]) if n is None else n):
            k = self.r.randrange(20)
            if k == 0 or not s:
                s.insert(self.r.randrange(len(s) + 1), self.table(self.name([t['name'] for t in s])))
            elif k == 1:
                s.pop(self.r.randrange(len(s)))
            elif k == 2:
                self.r.shuffle(s)
            elif k == 3:
                t = self.choice(s)
                t['opts'] = [self.option()]
            else:
                self.edit_table(self.choice(s))
        return s

    # -- values that are easily taken for another
    def near(self, v, name=False, k=None):
        """Something that differs from v in very little"""
        letters = [i for i, ch in enumerate(v) if ch.isalpha() and ch < '\x7f' and (i == 0 or v[i - 1] != '\\')]
        k = self.r.randrange(8) if k is None else k
        if k < 4 and letters:
            i = self.choice(letters)
            return v[:i] + v[i].swapcase() + v[i + 1:]
        if k == 4:
            return self.choice([v.upper(), v.lower()]) if '\\' not in v else v + '.'
        if k == 5 and v and v[-1].isalnum():
            return v[:-1] + chr(ord(v[-1]) ^ 1)
        if k == 6 and not name:
            return self.choice([' ' + v, v + ' ', v + '0', '0' + v])
        return v + self.choice(['1', '_', 'x', '%s', '\ue0c3\ue0a9', '.', '`'])

    def near_number(self, v):
        return self.choice([v + '0', v + '1', '0' + v, str(int(v) + 1)]) if v.isdigit() else v

    def near_all(self):
        """A schema with a value in every place, and the same with each of the values nearly what it was"""
        col = lambda n, ty, **kw: dict(dict(name=n, typ=ty, len=[], dec=[], uns=False, zf=False, bin=False, cs=[], co=[], upd=[], nul='none',
                                            ai=False, uniq=False, prim=False, key=False, com=[], vals=[]), **dict({'def': []}, **kw))
        c = lambda *ns: [dict(n=n, len=[], dir='none') for n in ns]
        d = lambda v: [dict(v=v, q=True)]
        key = lambda n: [dict(n=n, len=['10'], dir='none')]
        ref = dict(t='parent', cols=c('pid', 'qid'), match='none', upd='none', **{'del': 'none'})
        t = dict(name='tab', temp=False, ine=False, like=[], opts=[], cols=[
            col('first', 'VARCHAR', len=['20'], cs=['utf8'], co=['utf8_bin'], com=['some text'], **{'def': d('value')}),
            col('second', 'ENUM', vals=['abc', 'def'], **{'def': d('abc')}), col('third', 'SET', vals=['x', 'why', 'zed'], com=['More']),
            col('fourth', 'DECIMAL', len=['12'], dec=['2'], **{'def': d('1.10')}), col('fifth', 'TEXT', co=['latin1_bin']), col('sixth', 'INT', len=['10'], **{'def': d('7')})],
            idx=[dict(kind='NORMAL', sym=[], name=['idx_a'], typ='none', cols=key('first'), opts=[], ref=[]),
                 dict(kind='FULLTEXT', sym=[], name=['idx_b'], typ='none', cols=c('fifth'), opts=[dict(k='WITH PARSER', v='ngram')], ref=[]),
                 dict(kind='UNIQUE', sym=['sym_c'], name=['idx_c'], typ='none', cols=c('second', 'sixth'), opts=[], ref=[]),
                 dict(kind='FOREIGN', sym=['fk_a'], name=[], typ='none', cols=c('fourth', 'sixth'), opts=[], ref=[ref]),
                 dict(kind='FOREIGN', sym=['fk_b'], name=['idx_d'], typ='none', cols=c('sixth', 'fourth'), opts=[], ref=[copy.deepcopy(ref)])])
        out, at = [], 0
        while True:
            for k in range(8):
                x = self.near_edit([t], at, k)
                if x is None:
                    return out
                if x != [t]:
                    out.append(([copy.deepcopy(t)], x))
            at += 1

    def near_edit(self, schema, at=None, kind=None):
        """The schema with one value, somewhere, that is nearly what it was"""
        s = copy.deepcopy(schema)
        spots = []

        def spot(o, k, name=False, num=False):
            spots.append((o, k, name, num))
        for t in s:
            if t['like']:
                continue
            spot(t, 'name', True)
            for c in t['cols']:
                spot(c, 'name', True)
                for k in ('com', 'cs', 'co'):
                    if c[k]:
                        spot(c[k], 0)
                if c['def'] and c['def'][0]['q']:
                    spot(c['def'][0], 'v')
                for i in range(len(c['vals'])):
                    spot(c['vals'], i)
                for k in ('len', 'dec'):
                    if c[k]:
                        spot(c[k], 0, num=True)
            for x in t['idx']:
                for k in ('name', 'sym'):
                    if x[k]:
                        spot(x[k], 0, True)
                for c in x['cols']:
                    if c['len']:
                        spot(c['len'], 0, num=True)
                for o in x['opts']:
                    spot(o, 'v', True)
                for f in x['ref']:
                    spot(f, 't', True)
                    for c in f['cols']:
                        spot(c, 'n', True)
                        if c['len']:
                            spot(c['len'], 0, num=True)
        for _ in range(self.choice([1, 1, 1, 2]) if at is None else 1):
            if at is not None and at >= len(spots):
                return None
            if not spots:
                return s
            o, k, name, num = self.choice(spots) if at is None else spots[at]
            v = o[k]
            w = self.near_number(v) if num else self.near(v, name, kind)
            if w.upper() in KEYWORDS and k in ('cs', 'co'):
                continue
            if k == 'name' and isinstance(o, dict):
                if any(w == t['name'] for t in s):
                    continue
                for t in s:
                    if any(c is o for c in t['cols']):
                        if any(c['name'] == w for c in t['cols']) or o['uniq'] and w in self.names_of(t):
                            break
                        o[k] = w
                        for x in t['idx']:
                            for c in x['cols']:
                                if c['n'] == v:
                                    c['n'] = w
                    elif t is o:
                        t['name'] = w
            elif name and not isinstance(o, dict):
                if all(w not in self.names_of(t) for t in s):
                    o[k] = w
            else:
                o[k] = w
        return s

    def drop_from_keys(self, t, name):
        keep = []
        for x in t['idx']:
            if any(c['n'] == name for c in x['cols']):
                rest = [c for c in x['cols'] if c['n'] != name]
                if rest and x['kind'] != 'FOREIGN' and self.p(.5):
                    x['cols'] = rest
                    keep.append(x)
            else:
                keep.append(x)
        t['idx'] = keep

    def edit_table(self, t):
        if t['like']:
            return
        k = self.r.randrange(14)
        names = [c['name'] for c in t['cols']]
        if k in (0, 1, 2):
            for _ in range(self.choice([1, 1, 2, 3])):
                names = [c['name'] for c in t['cols']]
                t['cols'].insert(self.r.randrange(len(names) + 1), self.column(self.name(names)))
        elif k in (3, 4) and len(t['cols']) > 1:
            c = t['cols'].pop(self.r.randrange(len(t['cols'])))
            self.drop_from_keys(t, c['name'])
        elif k == 5 and self.p(.4):
            # replace all the columns
            for c in t['cols']:
                self.drop_from_keys(t, c['name'])
            t['idx'] = []
            new = []
            for _ in range(self.choice([1, 2, 3])):
                new.append(self.column(self.name(names + [c['name'] for c in new])))
            t['cols'] = new
        elif k in (6, 7):
            c = self.choice(t['cols'])
            old = copy.deepcopy(c)
            if self.p(.5):
                c['typ'] = self.choice(ALL_TYPES)
                self.attributes(c)
            else:
                f = self.choice(['nul', 'def', 'com', 'len', 'ai', 'uns'])
                if f == 'nul':
                    c['nul'] = self.choice(['none', 'null', 'notnull'])
                    if c['nul'] == 'notnull' and c['def'] and c['def'][0] == dict(v='NULL', q=False):
                        c['def'] = []
                elif f == 'def':
                    self.default(c)
                elif f == 'com':
                    c['com'] = [self.string()] if self.p(.7) else []
                elif f == 'ai':
                    c['ai'] = not c['ai']
                elif f == 'uns' and c['typ'] in INTS + DECS + DECOPT:
                    c['uns'] = not c['uns']
                elif f == 'len' and c['len']:
                    c['len'] = [self.small()]
        elif k in (8, 9):
            if not any(x['kind'] == 'PRIMARY' for x in t['idx']) and not any(c['prim'] or c['key'] for c in t['cols']) and self.p(.4):
                t['idx'].append(self.index(t['cols'], 'PRIMARY'))
            else:
                t['idx'].append(self.index(t['cols'], used=self.names_of(t)))
        elif k in (10, 11) and t['idx']:
            t['idx'].pop(self.r.randrange(len(t['idx'])))
        elif k == 12 and t['idx']:
            x = self.choice(t['idx'])
            f = self.choice(['cols', 'typ', 'ref', 'dir', 'opts', 'kind', 'name', 'sym'])
            if f == 'cols':
                x['cols'] = self.idxcols(t['cols'], x['kind'] == 'FOREIGN')
                if x['ref']:
                    x['ref'][0]['cols'] = [dict(n=self.name(), len=[], dir='none') for _ in x['cols']]
            elif f == 'typ' and x['kind'] in ('PRIMARY', 'NORMAL', 'UNIQUE'):
                x['typ'] = self.choice(['none', 'btree', 'hash'])
            elif f == 'ref' and x['ref']:
                x['ref'][0][self.choice(['del', 'upd'])] = self.choice(['none', 'restrict', 'cascade', 'setnull', 'noaction'])
                if self.p(.3):
                    x['ref'][0]['match'] = self.choice(['none', 'full', 'partial', 'simple'])
                if self.p(.3):
                    x['ref'][0]['t'] = self.name()
            elif f == 'dir' and x['kind'] != 'FOREIGN':
                self.choice(x['cols'])['dir'] = self.choice(['none', 'asc', 'desc'])
            elif f == 'opts' and x['kind'] == 'FULLTEXT':
                x['opts'] = [dict(k='WITH PARSER', v=self.choice(['ngram', 'mecab', 'x']))] if self.p(.7) else []
            elif f == 'kind' and x['kind'] in ('NORMAL', 'UNIQUE') and not x['sym'] and x['name']:
                x['kind'] = 'UNIQUE' if x['kind'] == 'NORMAL' else 'NORMAL'
            elif f == 'name' and x['name'] and x['kind'] != 'PRIMARY':
                x['name'] = [self.name(self.names_of(t))]
            elif f == 'sym' and x['sym'] and x['kind'] == 'FOREIGN':
                x['sym'] = [self.name(self.names_of(t))]
        elif k == 13:
            # a foreign key and an index that supports it
            n = self.name(self.names_of(t))
            x = self.index(t['cols'], 'FOREIGN', used=self.names_of(t))
            x['sym'], x['name'] = [n], []
            for c in x['cols']:
                c['len'], c['dir'] = [], 'none'
            y = dict(kind=self.choice(['NORMAL', 'UNIQUE']), sym=[], name=[n], typ='none',
                     cols=copy.deepcopy(x['cols']), opts=[], ref=[])
            t['idx'] += [x, y] if self.p(.5) else [y, x]

    # -- another spelling of the same table
    def vary_column(self, c):
        c = copy.deepcopy(c)
        syn = {'INT': 'INTEGER', 'INTEGER': 'INT', 'DECIMAL': 'NUMERIC', 'NUMERIC': 'DECIMAL', 'DOUBLE': 'REAL', 'REAL': 'DOUBLE',
               'BOOL': 'BOOLEAN', 'BOOLEAN': 'BOOL'}
        t = c['typ']
        widths = {'BIT': '1', 'CHAR': '1', 'BINARY': '1', 'TINYINT': '3' if c['uns'] else '4', 'SMALLINT': '5' if c['uns'] else '6',
                  'MEDIUMINT': '8' if c['uns'] else '9', 'INT': '10' if c['uns'] else '11', 'INTEGER': '10' if c['uns'] else '11',
                  'BIGINT': '20'}
        if t in widths:
            if not c['len'] and self.p(.5):
                c['len'] = [widths[t]]
            elif c['len'] == [widths[t]] and self.p(.5):
                c['len'] = []
        if t in DECOPT:
            if not c['len'] and self.p(.5):
                c['len'], c['dec'] = ['10'], self.choice([[], ['0']])
            elif c['len'] and not c['dec'] and self.p(.5):
                c['dec'] = ['0']
            elif c['dec'] == ['0'] and self.p(.5):
                c['dec'] = []
        if t in ('BOOL', 'BOOLEAN') and self.p(.3):
            c['typ'], c['len'] = 'TINYINT', ['1']
        elif t == 'TINYINT' and c['len'] == ['1'] and not c['uns'] and not c['zf'] and self.p(.3):
            c['typ'], c['len'] = 'BOOL', []
        elif t in syn and self.p(.5):
            c['typ'] = syn[t]
        numeric = t in INTS + DECS + DECOPT + ['BOOL', 'BOOLEAN']
        d = c['def']
        if c['nul'] == 'none' and self.p(.5):
            c['nul'] = 'null'
        elif c['nul'] == 'null' and self.p(.5):
            c['nul'] = 'none'
        if not d and c['nul'] != 'notnull' and self.p(.5):
            c['def'] = [dict(v='NULL', q=False)]
        elif d == [dict(v='NULL', q=False)] and c['nul'] != 'notnull' and self.p(.5):
            c['def'] = []
        elif numeric and d and not d[0]['q'] and d[0]['v'] in ('0', '1', 'TRUE', 'FALSE') and self.p(.5):
            c['def'] = [dict(v={'0': 'FALSE', '1': 'TRUE', 'TRUE': '1', 'FALSE': '0'}[d[0]['v']], q=False)]
        elif numeric and d and not d[0]['q'] and d[0]['v'] not in ('NULL', 'TRUE', 'FALSE') and d[0]['v'][-1:].isdigit() and self.p(.5):
            c['def'] = [dict(v=d[0]['v'] if self.p(.7) else d[0]['v'].lower(), q=True)]
        elif numeric and d and d[0]['q'] and re.match(r'^[+-]?\d+$', d[0]['v']) and self.p(.5):
            c['def'] = [dict(v=d[0]['v'], q=False)]
        return c

    def vary_table(self, t):
        t = copy.deepcopy(t)
        if t['like']:
            return t
        t['cols'] = [self.vary_column(c) for c in t['cols']]
        bycol = {c['name']: c for c in t['cols']}
        plain = lambda k, n, c: dict(kind=k, sym=[], name=n, typ='none', cols=[dict(n=c, len=[], dir='none')], opts=[], ref=[])
        idx = list(t['idx'])
        for c in t['cols']:
            if (c['prim'] or c['key']) and self.p(.5):
                c['prim'] = c['key'] = False
                idx.append(plain('PRIMARY', [], c['name']))
            elif (c['prim'] or c['key']) and self.p(.5):
                c['prim'], c['key'] = c['key'], c['prim']
            if c['uniq'] and self.p(.5):
                c['uniq'] = False
                idx.append(plain('UNIQUE', [c['name']], c['name']))
        out = []
        for x in idx:
            one = x['cols'][0]['n'] if len(x['cols']) == 1 else None
            c = bycol.get(one)
            if c is not None and x == plain('PRIMARY', [], one) and self.p(.4):
                c[self.choice(['prim', 'key'])] = True
            elif c is not None and x == plain('UNIQUE', [one], one) and self.p(.4):
                c['uniq'] = True
            else:
                out.append(x)
        # the implicit index of a foreign key
        for x in list(out):
            if x['kind'] == 'FOREIGN' and x['sym']:
                same = [y for y in out if y['kind'] == 'NORMAL' and y['name'] == x['sym'] and y['cols'] == x['cols']
                        and y['typ'] == 'none' and not y['sym']]
                taken = any(y['name'] == x['sym'] for y in out if y['kind'] != 'FOREIGN') or \
                    any(c['uniq'] and c['name'] == x['sym'][0] for c in t['cols'])
                if same and self.p(.5):
                    out.remove(same[0])
                elif not taken and self.p(.4):
                    out.append(dict(kind='NORMAL', sym=[], name=list(x['sym']), typ='none', cols=copy.deepcopy(x['cols']),
                                    opts=[], ref=[]))
        for x in out:
            for c in x['cols']:
                if c['dir'] in ('none', 'asc') and self.p(0):
                    c['dir'] = 'asc'
        self.r.shuffle(out)
        t['idx'] = out
        return t

    # -- tables that are declared to be LIKE another one
    def like(self, name, of):
        return dict(name=name, temp=self.p(.05), ine=self.p(.1), like=[of], cols=[], idx=[], opts=[])

    def copy_of(self, schema, t):
        """What a table that is LIKE another is, or None if that has foreign keys"""
        by = {x['name']: x for x in schema}
        o = t
        while o['like']:
            o = by.get(o['like'][0])
            if o is None:
                return None
        if any(x['kind'] == 'FOREIGN' for x in o['idx']):
            return None
        o = copy.deepcopy(o)
        o.update(name=t['name'], temp=t['temp'], ine=t['ine'])
        return o

    def alike(self, old, new):
        """The two schemas with tables that are LIKE another one"""
        old, new = copy.deepcopy(old), copy.deepcopy(new)
        for _ in range(self.choice([1, 1, 2, 3])):
            taken = [t['name'] for t in old + new]
            n = self.name(taken)
            both = [t['name'] for t in old if any(x['name'] == t['name'] for x in new)]
            if not both:
                break
            of = self.choice(both)

            def put(s, of, plain):
                t = self.like(n, of)
                t['temp'] = False
                if plain:
                    t = self.copy_of(s, t) or t
                    if self.p(.5):
                        self.edit_table(t)
                at = 1 + [x['name'] for x in s].index(t['like'][0] if t['like'] else of)
                s.insert(self.r.randrange(at, len(s) + 1), t)
            where = self.choice(['new', 'new', 'both', 'both', 'old', 'to plain', 'from plain', 'other'])
            if where != 'new':
                put(old, of, where == 'from plain')
            if where != 'old':
                put(new, self.choice(both) if where == 'other' else of, where == 'to plain')
        return old, new

    def vary(self, schema):
        s = [self.vary_table(t) for t in schema]
        for i, t in enumerate(s):
            if t['like'] and self.p(.5):
                s[i] = self.copy_of(s[:i], t) or t
        if not any(t['like'] for t in s):
            self.r.shuffle(s)
        return s


# --------------------------------------------------------------------------
# spelling: tables -> tokens (each as bytes) -> text

class Speller:
    """style: 'plain' (upper case, backquotes) or 'random'"""

    def __init__(self, rnd, style='random'):
        self.r = rnd
        self.random = style == 'random'

    def p(self, x):
        return self.random and self.r.random() < x

    def kw(self, s):
        out = []
        for w in s.split():
            if self.p(.4):
                w = self.r.choice([w.lower(), w.capitalize(), ''.join(self.r.choice([a.lower(), a.upper()]) for a in w)])
            out.append(w.encode())
        return out

    def name(self, n):
        b = dec(n)
        s = b.decode('utf-8', 'replace')
        if PLAIN.match(s) and s.upper() not in KEYWORDS and self.p(.5):
            return [b]
        return [b'`' + b.replace(b'`', b'``') + b'`']

    def string(self, v, single=False):
        b = dec(v)
        q = b"'"
        if not single and self.p(.35):
            q = b'"'
        out = bytearray()
        i = 0
        while i < len(b):
            c = b[i:i + 1]
            if c == b'\\' and i + 1 < len(b):
                out += b[i:i + 2]
                i += 2
                continue
            if c == q:
                out += (b'\\' + q) if self.p(.4) else q + q
            elif c in b"'\"" and self.p(.2):
                out += b'\\' + c
            else:
                out += c
            i += 1
        return [q + bytes(out) + q]

    def column(self, c):
        t = self.name(c['name']) + self.kw(c['typ'])
        if c['vals']:
            t.append(b'(')
            for i, v in enumerate(c['vals']):
                if i:
                    t.append(b',')
                t += self.string(v)
            t.append(b')')
        if c['len']:
            t += [b'(', dec(c['len'][0])]
            if c['dec']:
                t += [b',', dec(c['dec'][0])]
            t.append(b')')
        if c['uns']:
            t += self.kw('UNSIGNED')
        if c['zf']:
            t += self.kw('ZEROFILL')
        if c['bin']:
            t += self.kw('BINARY')
        head = []
        rest = []
        if c['cs']:
            head.append(self.kw('CHARACTER SET') + self.csname(c['cs'][0]))
        if c['co']:
            head.append(self.kw('COLLATE') + self.csname(c['co'][0]))
        if c['upd']:
            u = c['upd'][0]
            w = self.kw('ON UPDATE CURRENT_TIMESTAMP')
            if '(' in u:
                w += [b'(', u[u.index('(') + 1:-1].encode(), b')']
            rest.append(w)
        if c['nul'] == 'null':
            rest.append(self.kw('NULL'))
        elif c['nul'] == 'notnull':
            rest.append(self.kw('NOT NULL'))
        if c['def']:
            d = c['def'][0]
            w = self.kw('DEFAULT')
            if d['q']:
                s = dec(d['v']).decode('utf-8', 'replace')
                if PLAIN.match(s) and s.upper() not in KEYWORDS and self.p(.1) and not self.script:
                    w += [dec(d['v'])]
                else:
                    w += self.string(d['v'])
            elif d['v'] == 'NOW()':
                w += self.kw('NOW') + [b'(', b')']
            elif d['v'][0].isalpha():
                w += self.kw(d['v'])
            else:
                w += [dec(d['v'])]
            rest.append(w)
        if c['ai']:
            rest.append(self.kw('AUTO_INCREMENT'))
        if c['uniq']:
            rest.append(self.kw('UNIQUE' if self.p(.5) else 'UNIQUE KEY'))
        if c['prim']:
            rest.append(self.kw('PRIMARY KEY'))
        if c['key']:
            rest.append(self.kw('KEY'))
        if c['com']:
            rest.append(self.kw('COMMENT') + self.string(c['com'][0], single=True))
        if self.random and self.r.random() < .6:
            self.r.shuffle(rest)
        # UNIQUE followed by KEY is one attribute
        for i in range(len(rest) - 1):
            if len(rest[i]) == 1 and rest[i][0].upper() == b'UNIQUE' and rest[i + 1][0].upper() == b'KEY':
                rest[i].append(b'KEY')
        for w in head + rest:
            t += w
        return t

    script = False

    def csname(self, n):
        b = dec(n)
        s = b.decode('utf-8', 'replace')
        if s.upper() == 'BINARY' and self.p(.5):
            return self.kw('BINARY') if s == 'BINARY' else [b]
        if self.p(.2) and s.replace('_', '').isalnum():
            return self.string(n)
        return self.name(n)

    def idxcols(self, cols):
        t = [b'(']
        for i, c in enumerate(cols):
            if i:
                t.append(b',')
            t += self.name(c['n'])
            if c['len']:
                t += [b'(', dec(c['len'][0]), b')']
            if c['dir'] != 'none':
                t += self.kw(c['dir'].upper())
        return t + [b')']

    def index(self, x):
        t = []
        if x['sym']:
            t += self.kw('CONSTRAINT') + self.name(x['sym'][0])
        elif x['kind'] in ('PRIMARY', 'UNIQUE', 'FOREIGN') and self.p(.1):
            t += self.kw('CONSTRAINT')
        k = x['kind']
        if k == 'PRIMARY':
            t += self.kw('PRIMARY KEY')
        elif k == 'NORMAL':
            t += self.kw(self.pick(['INDEX', 'KEY']))
        elif k == 'FOREIGN':
            t += self.kw('FOREIGN KEY')
        else:
            t += self.kw(k) + self.kw(self.pick(['INDEX', 'KEY', '']))
        if x['name']:
            t += self.name(x['name'][0])
        using = self.kw('USING ' + x['typ'].upper()) if x['typ'] != 'none' else []
        late = self.p(.5)
        if not late:
            t += using
        t += self.idxcols(x['cols'])
        if late:
            t += using
        for o in x['opts']:
            t += self.kw('WITH PARSER') + self.name(o['v'])
        for r in x['ref']:
            t += self.kw('REFERENCES') + self.name(r['t']) + self.idxcols(r['cols'])
            if r['match'] != 'none':
                t += self.kw('MATCH ' + r['match'].upper())
            act = {'restrict': 'RESTRICT', 'cascade': 'CASCADE', 'setnull': 'SET NULL', 'noaction': 'NO ACTION'}
            if r['del'] != 'none':
                t += self.kw('ON DELETE ' + act[r['del']])
            if r['upd'] != 'none':
                t += self.kw('ON UPDATE ' + act[r['upd']])
        return t

    def pick(self, xs):
        return self.r.choice(xs) if self.random else xs[0]

    def option(self, o):
        k = o['k']
        if k == 'DEFAULT CHARACTER SET':
            t = self.kw(self.pick(['DEFAULT CHARACTER SET', 'DEFAULT CHARSET', 'CHARACTER SET']))
        elif k == 'DEFAULT COLLATE':
            t = self.kw(self.pick(['DEFAULT COLLATE', 'COLLATE']))
        else:
            t = self.kw(k)
        if not self.p(.4):
            t.append(b'=')
        if o['q']:
            return t + self.string(o['v'])
        s = dec(o['v']).decode('utf-8', 'replace')
        if k in ('ENGINE', 'DEFAULT CHARACTER SET', 'DEFAULT COLLATE'):
            if s.upper() in ('MEMORY', 'BINARY'):
                return t + [dec(o['v'])]
            if PLAIN.match(s) and not self.p(.2):
                return t + [dec(o['v'])]
            return t + self.name(o['v'])
        return t + [dec(o['v'])]

    def table(self, x):
        t = self.kw('CREATE')
        if x['temp']:
            t += self.kw('TEMPORARY')
        t += self.kw('TABLE')
        if x['ine']:
            t += self.kw('IF NOT EXISTS')
        t += self.name(x['name'])
        if x['like']:
            return t + self.kw('LIKE') + self.name(x['like'][0])
        t.append(b'(')
        fields = [self.column(c) for c in x['cols']]
        idx = [self.index(i) for i in x['idx']]
        if self.p(.2):
            # indexes may come anywhere
            for i in idx:
                fields.insert(self.r.randrange(len(fields) + 1), i)
        else:
            fields += idx
        for i, f in enumerate(fields):
            if i:
                t.append(b',')
            t += f
        t.append(b')')
        for i, o in enumerate(x['opts']):
            if i and self.p(.5):
                t.append(b',')
            t += self.option(o)
        return t

    NOISE = [b'DROP TABLE IF EXISTS `x`', b'SET NAMES utf8', b'USE db1', b'', b"SET x = 'a;b'", b'DROP `;`',
             b'CREATE DATABASE d', b'CREATE DATABASE IF NOT EXISTS `d` DEFAULT CHARACTER SET = utf8 COLLATE utf8_bin']

    def schema(self, tables, noise=.1, final=None):
        """Tokens of the whole text. A token may also be one of NOISE."""
        t = []
        for i, x in enumerate(tables):
            while self.p(noise):
                n = self.r.choice(self.NOISE)
                t += ([n] if n else []) + [b';']
            t += self.table(x)
            if i + 1 < len(tables) or not (final if final is not None else self.p(.3)):
                t.append(b';')
        return t


WORDY = re.compile(rb'[A-Za-z0-9_]')
COMMENTS = [b'/* c */', b'-- x\n', b'# x\n', b'/**/', b"/* ' */", b'-- `\n', b'/* \n */', b'#\n', b'/***/', b'--\n', b'/* -- */',
            b'-- /*\n', b'/* ; */', b'/*! x */', b'--\t"\n', b"# it's\n", b'/* \xff */', b'/* \xf0\x9f\x98\x80 */', b'-- \xf0\x9f\x98\x80\xe2\x80\xa8\n', b'# \xe3\x80\x80\n']
SPACES = [b' ', b' ', b' ', b'\n', b'\t', b'  ', b'\r\n', b'\n\n  ']


def need_space(a, b):
    if not a or not b:
        return False
    x, y = a[-1:], b[:1]
    if WORDY.match(x) and (WORDY.match(y) or y == b'.'):
        return True
    if x in b"'\"`" and y == x:
        return True
    if x in b'.+-/*' or y in b'/*':
        return True
    if WORDY.match(x) and y in b'.+-' and b'e' in a.lower():
        return True
    if x == b'.' or y == b'.':
        return True
    return False


def layout(tokens, rnd=None, comments=.15, tight=.2):
    """Joins tokens with white space and comments"""
    if rnd is None:
        return b' '.join(tokens)
    out = bytearray()
    if rnd.random() < .3:
        out += rnd.choice(SPACES + COMMENTS)
    for i, t in enumerate(tokens):
        if i:
            gap = b''
            if need_space(tokens[i - 1], t) or rnd.random() >= tight:
                gap = rnd.choice(SPACES)
            while rnd.random() < comments:
                gap += rnd.choice(COMMENTS) + (rnd.choice(SPACES) if rnd.random() < .5 else b'')
            if gap[:2] == b'--' or (gap[:1] in b'/*' and tokens[i - 1][-1:] in b'/*-'):
                gap = b' ' + gap
            if gap[:1] == b'-' and tokens[i - 1][-1:] == b'-':
                gap = b' ' + gap
            out += gap
        out += t
    if rnd.random() < .3:
        out += rnd.choice(SPACES + COMMENTS)
    return bytes(out)


def spell(rnd, schema, style='random', noise=.1, comments=.1):
    sp = Speller(rnd, style)
    toks = sp.schema(schema, noise)
    if style == 'plain':
        return layout(toks)
    return layout(toks, rnd, comments)

"""Random Go types, reproducible from a seed."""
import random

SCALARS = ['bool', 'string', 'int', 'int8', 'int16', 'int32', 'int64', 'uint', 'uint8',
           'uint16', 'uint32', 'uint64', 'float32', 'float64']
KEYS = ['string', 'string', 'string', 'int', 'int8', 'uint16', 'int64', 'TUK', 'TUS', 'NStr', 'uint',
        'JUS', 'JTU', 'TUI', 'TB', 'TU8', 'ZT', 'int16', 'int32', 'uint8', 'uint32', 'uint64', 'NInt', 'jd.Number']

ODD = ['JU', 'TU', 'struct{}', 'JUS', 'TUS', 'jd.Number', 'TUI', 'NStr', 'NSl', 'RS', '*RP', 'JN', 'ZJ', 'TSL',
       'TMP', 'JB', 'JSL', 'JVM', 'JAR', 'TAR', 'TB', 'TU8', 'TF', 'JF', 'JMP', 'ZT', 'ZA', 'JTU', 'TUK', 'JUI',
       'NArr', 'NMap', 'NF32', 'NBool', 'NInt', 'RTree', 'RMI', 'RAny', 'RM', '*RAll', 'RMut', 'RIn', 'RArr',
       '[0]int', '[2]struct{}', 'struct{ A struct{} }', '[3][0]string', 'struct{ A ZT; B [0]any }', '[]byte',
       '[]jd.Number', '**int', '*any', '*struct{}', '[]struct{}', 'map[string]struct{}']
BAD = ['chan int', 'func()', 'complex64', 'complex128', 'uintptr', 'unsafe.Pointer', 'error', 'fmt.Stringer',
       'InfS', 'InfM', 'InfP', '*chan bool', '[]func()', 'QP', 'QS', 'QM']
BADKEYS = ['bool', 'float32', 'float64', 'any', '[2]int', 'struct{A int}', '*int', 'complex64', 'chan int', 'uintptr', 'error']


class Gen:
    def __init__(self, seed, what, bad=0.):
        self.bad = bad  # probability of unsupported leaves, keys and tags
        self.r = random.Random('%s/%s' % (seed, what))
        self.n = 0
        self.what = what

    def leaf(self):
        if self.bad and self.r.random() < self.bad:
            return self.r.choice(BAD)
        x = self.r.random()
        if x < .66:
            return self.r.choice(SCALARS)
        if x < .78:
            return 'any'
        return self.r.choice(ODD)

    def typ(self, d, names):
        r = self.r
        if d <= 0 or r.random() < .22:
            return self.leaf()
        if names and r.random() < .3:
            return r.choice(['*%s', '[]%s', 'map[string]%s', '[]*%s', 'map[string][]%s', '*[]%s',
                             'map[int]*%s', '[2]*%s', '**%s', '[][]%s', 'map[string]map[int]%s',
                             '[2][]%s', 'struct{ X *%s; Y int }']) % r.choice(names)
        k = r.randrange(10)
        if k <= 1:
            return '[]' + self.typ(d - 1, names)
        if k <= 3:
            keys = BADKEYS if self.bad and r.random() < self.bad else KEYS
            return 'map[%s]%s' % (r.choice(keys), self.typ(d - 1, names))
        if k == 4:
            return '*' + self.typ(d - 1, names)
        if k == 5:
            return '[%d]%s' % (r.choice([0, 1, 2, 3, 4]), self.typ(d - 1, names))
        return self.struct(d - 1, names)

    def name(self, used):
        r = self.r
        while True:
            n = r.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZÉΣ') + r.choice(['', '', '', 'b', 'key', 'Zz', 'k', 's', '1', 'B', 'éa', '_x'])
            if n not in used:
                used.add(n)
                return n

    def struct(self, d, names):
        r = self.r
        used, tags, fs = set(), set(), []
        for _ in range(r.choice([0, 1, 2, 2, 3, 4, 5, 6, 9])):
            t = self.typ(d, names)
            nm = self.name(used)
            tag, opt = '', ''
            if r.random() < .3:
                tag = r.choice([nm.lower(), nm.upper(), nm.swapcase(), nm + '_x', nm + 'é', 'k', 's', 'K', 'id', 'a b', '-,', '日本'])
            if t in SCALARS and r.random() < .15 or r.random() < .02 + self.bad / 2:
                opt = ',string'
            if r.random() < .05:
                opt += ',omitempty'
            if tag.rstrip(',') in tags or tag.rstrip(',') in used:
                tag = ''
            if tag:
                tags.add(tag.rstrip(','))
                tag = tag.rstrip(',') + opt if tag != '-,' else '-,' + opt.lstrip(',')
            elif opt:
                tag = opt
            if r.random() < .03:
                tag = '-'
            fs.append((nm, t, tag))
        # A field without a tag must not collide with the tag of another one.
        out = []
        for nm, t, tag in fs:
            if nm in tags and (not tag or tag.startswith(',')):
                continue
            if r.random() < .03:
                nm = nm[0].lower() + nm[1:] + 'u'
            out.append('%s %s%s' % (nm, t, (' `json:"%s"`' % tag) if tag else ''))
        return 'struct{ ' + '; '.join(out) + ' }'

    def types(self, n):
        """Returns declarations and n types."""
        decls, out = [], []
        while len(out) < n:
            self.n += 1
            g = self.r.randrange(3)
            names = ['G%s%d_%d' % (self.what, self.n, j) for j in range(g)]
            for nm in names:
                s = self.struct(3, names)
                while s == 'struct{  }':
                    s = self.struct(3, names)
                decls.append('type %s %s' % (nm, s))
            out.append(names[0] if names and self.r.random() < .6 else self.typ(3, names))
        return decls, out

"""Small-scope enumerations: TLC generates documents and histories from the specification
(modules Scope, Hist and Syntax), the harness executes them, TLC checks what happened."""
import concurrent.futures as cf
import json
import os
import random
import re


class EnumError(Exception):
    pass


def outputs(run, tag, module, inputs, env, timeout, cfg=None):
    """Has TLC enumerate; returns what the specification printed."""
    ip = os.path.join(run.dir, tag + '.in')
    json.dump(inputs, open(ip, 'w'))
    e = dict(HDR=os.path.join(run.dir, 'targets.json'), INPUT=ip)
    e.update(env)
    rc, out = run.tlc(tag, module=module, cfg=cfg or module + '.cfg', extra_env=e, timeout=timeout)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, 0 states left', out)
    if rc != 0 or not m:
        raise EnumError('TLC failed on %s: %s' % (module, out[-3000:]))
    res = []
    for line in out.splitlines():
        if line.startswith('"OUT '):
            res.append(json.loads(json.loads(line)[4:]))
        elif line.startswith('OUT '):
            res.append(json.loads(line[4:]))
    return res, int(m.group(1)), int(m.group(2))


def targets(run):
    if not hasattr(run, 'targets'):
        p = os.path.join(run.dir, 'targets.json')
        rc, _, errs = run.generate('targets', 0, 0, 1, 120, extra=['-targets', p])
        if rc != 0:
            raise EnumError('harness: ' + errs[-1000:])
        run.targets = json.load(open(p))
    return run.targets


def execute(run, name, shards):
    """Executes lists of scripts, one process each, and checks the traces."""
    def one(a):
        k, scripts = a
        tag = '%s%d' % (name, k)
        p = os.path.join(run.dir, tag + '.scripts')
        with open(p, 'w') as f:
            for s in scripts:
                f.write(json.dumps(s) + '\n')
        return tag, p, scripts, run.generate(tag, 0, len(scripts), 1, run.timeout(), extra=['-scripts', p])
    todo = [(k, s) for k, s in enumerate(shards) if s]
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, todo))
    tags = []
    for tag, p, scripts, (rc, out, errs) in res:
        run.scripts[tag] = scripts
        if rc == 0:
            tags.append(tag)
            m = re.search(r'calls=(\d+)', out)
            run.extra['calls'] = run.extra.get('calls', 0) + int(m.group(1))
        else:
            run.script_crash(tag, p, scripts, rc, errs)
    run.check(tags)


def split(items, n=8):
    return [items[i::n] for i in range(n)]


def documents(run, ts, budget):
    """The documents of small scope for types ts: {type: [(text, fits)]}."""
    key = (tuple(ts), budget)
    if getattr(run, 'docs', {}).get(key):
        return run.docs[key]

    def one(a):
        k, part = a
        return outputs(run, 'scope%d' % k, 'Scope', dict(targets=part), dict(BUDGET=str(budget)), run.timeout())
    parts = [(k, p) for k, p in enumerate(split(ts)) if p]
    docs, st = {}, 0
    with cf.ThreadPoolExecutor(8) as ex:
        for res, gen, dist in ex.map(one, parts):
            st += dist
            for o in res:
                docs.setdefault(o['t'], {})[bytes(o['s'])] = o['ok']
    docs = {t: list(d.items()) for t, d in docs.items()}
    run.extra['scope_states'] = run.extra.get('scope_states', 0) + st
    run.docs = dict(getattr(run, 'docs', {}))
    run.docs[key] = docs
    return docs


def scope(run, quick=150, thorough=4000, only=None):
    """Every document with few symbols."""
    tg = targets(run)
    n = len(tg['targets'])
    budget = thorough if run.tier == 'thorough' else quick
    docs = documents(run, tg['targets'], budget)
    shards = []
    total = 0
    for part in split(tg['targets']):
        sc = []
        for t in part:
            ds = [list(s) for s, ok in docs.get(t, []) if only is None or ok == only]
            total += len(ds)
            for i in range(0, len(ds), 12):
                sc.append(dict(t=t, d=ds[i:i + 12]))
        shards.append(sc)
    run.extra['scope_documents'] = total
    run.extra['scope_types'] = n
    execute(run, 'scope', shards)
    run.log('small scope:', total, 'documents for', n, 'types')


def hist(run, quick=25, thorough=400, ndocs=(5, 8)):
    """Every call on every value that is reachable with a few documents."""
    tg = targets(run)
    th = run.tier == 'thorough'
    docs = documents(run, tg['targets'], 150)
    rnd = random.Random(run.seed)
    items = []
    for t in tg['targets']:
        fit = [s for s, ok in docs.get(t, []) if ok]
        bad = [s for s, ok in docs.get(t, []) if not ok]
        if not fit:
            continue
        # Some of the shortest, others from anywhere.
        k = ndocs[th]
        short = fit[:14]
        pick = rnd.sample(short, min(k // 2, len(short)))
        rest = [s for s in fit if s not in pick]
        pick += rnd.sample(rest, min(k - len(pick), len(rest)))
        if bad:
            pick.append(rnd.choice(bad))
        rnd.shuffle(pick)
        items.append(dict(t=t, d=[list(s) for s in pick]))
    budget = thorough if th else quick

    def one(a):
        k, part = a
        return outputs(run, 'hist%d' % k, 'Hist', dict(docs=part), dict(BUDGET=str(budget)), run.timeout())
    parts = [(k, p) for k, p in enumerate(split(items)) if p]
    shards, st, edges = [], 0, 0
    with cf.ThreadPoolExecutor(8) as ex:
        for res, gen, dist in ex.map(one, parts):
            st += dist
            edges += len(res)
            shards.append(res)
    run.extra['history_states'] = st
    run.extra['histories'] = edges
    execute(run, 'hist', shards)
    run.log('histories:', edges, 'over', st, 'values of', len(items), 'types')


INTERESTING = sorted(set(b'{}[],:"\\/ \t\n\r\x0b\x0c\x00\x01\x1f\x7f\'+-.0159abcefgGlnrstuxEFNTU_') | {0x80, 0xa0, 0xbf, 0xc2, 0xef, 0xff})


def syntax(run):
    """All transitions of the grammar's automaton."""
    tg = targets(run)
    th = run.tier == 'thorough'
    res, gen, st = outputs(run, 'syntax', 'Syntax', dict(bytes=list(range(256)) if th else INTERESTING),
                           dict(DEPTH='4' if th else '2'), run.timeout())
    texts = sorted({bytes(o['s']) for o in res})
    rnd = random.Random(run.seed)
    rnd.shuffle(texts)
    ts = tg['targets']
    sc = []
    for i in range(0, len(texts), 6):
        sc.append(dict(t=ts[i // 6 % len(ts)], d=[list(s) for s in texts[i:i + 6]]))
    run.extra['syntax_configurations'] = st
    run.extra['syntax_texts'] = len(texts)
    execute(run, 'syntax', split(sc))
    run.log('syntax:', len(texts), 'texts for', st, 'configurations')


LAWS = {
    'C01': 'C01_RoundTrip', 'C02': 'C02_Fits C02_PriorIndependent', 'C03': 'C03_FirstError C03_FirstErrorStrict',
    'C08': 'C08_InPlace C08_Unmentioned', 'C13': 'C13_Depth', 'C14': 'C14_WhiteSpace', 'C16': 'C16_Members', 'C18': 'C18_Generic',
    'C19': 'C19_Refused C19_Skipped', 'C23': 'C23_Elements', 'C24': 'C24_Null C24_Pointee',
}


def laws(run, quick=30, thorough=600):
    """Properties of the specification itself: each stated independently of the decoding
    function, as an invariant over all types and documents of small scope."""
    tg = targets(run)
    budget = thorough if run.tier == 'thorough' else quick
    cfg = os.path.join(run.dir, 'Laws.cfg')
    with open(cfg, 'w') as f:
        f.write('SPECIFICATION Spec\nCONSTANTS\n  Types <- HdrTypes\n  FoldTab <- HdrFold\n  Sharing = FALSE\nCONSTRAINT Bounded\n'
                'CHECK_DEADLOCK FALSE\nINVARIANTS %s\n' % LAWS[run.prop])

    def one(a):
        k, part = a
        return outputs(run, 'laws%d' % k, 'Laws', dict(targets=part), dict(BUDGET=str(budget)), run.timeout(), cfg=cfg)
    parts = [(k, p) for k, p in enumerate(split(tg['targets'])) if p]
    with cf.ThreadPoolExecutor(8) as ex:
        st = sum(r[2] for r in ex.map(one, parts))
    run.extra['law_invariants'] = LAWS[run.prop].split()
    run.extra['law_states'] = st
    run.log('laws:', LAWS[run.prop], 'in', st, 'states')


def laws_text(run):
    """The same for the lexical level."""
    _, _, st = outputs(run, 'lawstext', 'LawsText', dict(bytes=INTERESTING),
                       dict(DEPTH='3' if run.tier == 'thorough' else '2'), run.timeout())
    run.extra['law_configurations'] = st
    run.log('laws of texts:', st, 'configurations')

"""The checks: builds the harness, records traces of the real decoder, has TLC compare them
with the specification and reports."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

import build
import enum_stages as es
from build import VERIF

SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = 8

# Sessions per tier; random types per tier; extra build flags and environment.
DEFAULT = dict(quick=6400, thorough=64000, rnd=(40, 160), both=False, flags=[], env={})
CONF = {
    'C04': dict(both=True), 'C05': dict(both=True), 'C06': dict(both=True),
    'C27': dict(quick=2400, thorough=24000),
    'C07': dict(quick=4800), 'C09': dict(quick=4800), 'C19': dict(quick=4800),
    'C10': dict(quick=3200, thorough=24000),
    'C11': dict(both=True, quick=3200, thorough=24000),
    'C13': dict(quick=4800, thorough=40000, env={'GODEBUG': 'clobberfree=1'}),
    'C14': dict(both=True),
    'C15': dict(both=True), 'C16': dict(both=True), 'C17': dict(both=True), 'C18': dict(both=True),
    'C20': dict(quick=3200, thorough=24000, flags=['-race', '-gcflags=all=-d=checkptr=0'],
                env={'GORACE': 'halt_on_error=1 exitcode=66', 'GOMAXPROCS': '8'}),
    'C22': dict(quick=1600, thorough=8000),
    'C23': dict(both=True), 'C24': dict(both=True), 'C25': dict(both=True),
}


CORRUPT = r'fatal error: (?!runtime: out of memory)|SIGSEGV|unexpected fault address|DATA RACE'


class CheckError(Exception):
    pass


def fams_of(prop):
    src = open(os.path.join(VERIF, 'harness/core/prof.go'), encoding='utf-8').read()
    allf = re.search(r'allFams = "([^"]*)"', src).group(1)
    m = re.search(r'\{Prop: "%s",(?: Big: \d+,)?(?: (Huge): true,)? Fams: ([^\n]*?), (?:P|Also)' % prop, src)
    if not m:
        raise CheckError('no workload for ' + prop)
    def parse(e):
        out = []
        for part in e.split('+'):
            part = part.strip()
            out += (allf if part == 'allFams' else part.strip('"')).split()
        if not set(out) <= set(allf.split() + ['bad']):
            raise CheckError('families of %s: %s' % (prop, out))
        return out
    a = re.search(r'\{Prop: "%s",(?: Big: \d+,)?(?: (Huge): true,)? Fams: [^\n]*?, Also: ("[^"]*")' % prop, src)
    return parse(m.group(2)), (parse(a.group(2)) if a else []) + (['huge'] if m.group(1) else [])


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.conf = dict(DEFAULT)
        self.conf.update(CONF.get(prop, {}))
        self.t0 = time.time()
        base = os.path.join(VERIF, 'build')
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + '-', dir=base)
        self.found = {}     # violations by key
        self.known = load_known(prop)
        self.printed = set()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.extra = {}
        self.scripts = {}

    def log(self, *a):
        print('[%s %5.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- building ----
    def build(self):
        main, also = fams_of(self.prop)
        rnd = self.conf['rnd'][self.tier == 'thorough'] if 'rnd' in main + also else 0
        decls, types = build.select(main + also, self.seed, rnd, main if self.conf['both'] or self.tier == 'thorough' else [])
        self.bin = build.build(self.dir, decls, types, self.conf['flags'])
        self.ntypes = len(types)
        self.log('harness built,', self.ntypes, 'types')

    # ---- recording ----
    def env(self):
        e = dict(os.environ)
        e['GOMAXPROCS'] = '4'
        e['GOTRACEBACK'] = 'single'
        e.update(self.conf['env'])
        return e

    def timeout(self):
        return 300 if self.tier == 'quick' else 6000

    def generate(self, tag, frm, to, step, timeout, extra=()):
        f = lambda ext: os.path.join(self.dir, tag + ext)
        args = [self.bin, '-prop', self.prop, '-seed', str(self.seed), '-from', str(frm), '-to', str(to),
                '-step', str(step), '-out', f('.nd'), '-hdr', f('.hdr'), '-progress', f('.pr')] + list(extra)
        err = open(f('.err'), 'wb')
        try:
            r = subprocess.run(args, env=self.env(), stdout=subprocess.PIPE, stderr=err, timeout=timeout)
            rc, out = r.returncode, r.stdout.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired:
            rc, out = 'timeout', ''
        err.close()
        errs = open(f('.err'), 'rb').read()[-20000:].decode('utf-8', 'replace')
        return rc, out, errs

    def record(self, n):
        shards = NPROC
        to = 300 if self.tier == 'quick' else 3000

        def one(k):
            return self.generate('s%d' % k, k, n, shards, to)
        with cf.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        good = []
        for k, (rc, out, errs) in enumerate(res):
            if rc == 0:
                good.append('s%d' % k)
                m = re.search(r'calls=(\d+)', out)
                self.extra['calls'] = self.extra.get('calls', 0) + int(m.group(1))
                continue
            self.crash(k, n, shards, rc, errs)
        return good

    def crash(self, k, n, shards, rc, errs):
        """A process died: find out whether it's the decoder's doing."""
        if rc in (3, 4):
            raise CheckError('harness: ' + errs[-1000:])
        try:
            at = int(open(os.path.join(self.dir, 's%d.pr' % k)).read().split()[0])
        except Exception:
            at = k
        self.log('process of shard', k, 'ended with', rc, 'in session', at)
        # Alone, then with what came before it.
        span = shards * (16 if self.prop == 'C20' else 1)
        for frm in (at, at, max(k, at - 40 * shards), k):
            rc2, _, errs2 = self.generate('crash%d' % k, frm, at + span, shards, 200)
            if rc2 not in (0, 3, 4):
                why = 'hang' if rc2 == 7 or rc2 == 'timeout' else 'crash'
                self.violation(why, dict(kind='process', prop=self.prop, seed=self.seed, tier=self.tier,
                                         **{'from': frm, 'to': at + span, 'step': shards},
                                         exit=rc2, stderr=errs2[:6000]), key='process')
                return
        if re.search(CORRUPT, errs):
            # Memory corruption needn't strike twice in the same place.
            self.violation('crash', dict(kind='process', prop=self.prop, seed=self.seed, tier=self.tier,
                                         **{'from': k, 'to': at + span, 'step': shards},
                                         exit=rc, stderr=errs[:6000], reproduced=False), key='process')
            return
        raise CheckError('a harness process ended with %s and did not do so again: %s' % (rc, errs[-500:]))

    def script_crash(self, tag, path, scripts, rc, errs):
        if rc in (3, 4):
            raise CheckError('harness: ' + errs[-1000:])
        try:
            at = int(open(os.path.join(self.dir, tag + '.pr')).read().split()[0])
        except Exception:
            at = 0
        self.log('process of', tag, 'ended with', rc, 'in session', at)
        for frm in (at, at, max(0, at - 40), 0):
            rc2, _, errs2 = self.generate('crash', frm, at + 1, 1, 200, extra=['-scripts', path])
            if rc2 not in (0, 3, 4):
                break
        else:
            if not re.search(CORRUPT, errs):
                raise CheckError('a harness process ended with %s and did not do so again: %s' % (rc, errs[-500:]))
            frm, rc2, errs2 = 0, rc, errs
        self.violation('hang' if rc2 in (7, 'timeout') else 'crash', dict(
            kind='process', prop=self.prop, seed=self.seed, tier=self.tier, **{'from': frm, 'to': at + 1, 'step': 1},
            scripts=scripts[:at + 1], exit=rc2, stderr=errs2[:6000]), key='process')

    # ---- checking ----
    def tlc(self, tag, module='Trace', cfg='Trace.cfg', extra_env=None, workers=1, timeout=None, mem='2500m'):
        env = dict(os.environ, TRACE=os.path.join(self.dir, tag + '.nd'), HDR=os.path.join(self.dir, tag + '.hdr'))
        env.update(extra_env or {})
        meta = os.path.join(self.dir, tag + '.meta')
        cmd = ['java', '-XX:+UseSerialGC', '-Xss768m', '-Xmx' + mem, '-cp', JARS, 'tlc2.TLC', '-noTE', '-nowarning',
               '-workers', str(workers), '-metadir', meta, '-config', cfg, module + '.tla']
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout or (400 if self.tier == 'quick' else 6000))
        except subprocess.TimeoutExpired:
            raise CheckError('TLC did not finish on ' + tag)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout.decode('utf-8', 'replace')

    def validate(self, tag):
        """Has TLC check one trace file. Returns the sessions, events and discrepancies."""
        path = os.path.join(self.dir, tag + '.nd')
        want = sessions = 0
        sample = None
        for line in open(path, encoding='utf-8'):
            s = json.loads(line)
            sessions += 1
            want += len(s['ev'])
            if sample is None and len(line) < 6000:
                sample = s
        if sessions == 0:
            return 0, 0, [], None
        rc, out = self.tlc(tag, cfg='Sharing.cfg' if self.prop == 'C25' else 'Trace.cfg')
        m = re.search(r'(\d+) states generated, (\d+) distinct states found, 0 states left', out)
        if rc != 0 or not m:
            raise CheckError('TLC failed on %s: %s' % (tag, out[-3000:]))
        if int(m.group(2)) != want + sessions:
            raise CheckError('TLC consumed %s of %d events' % (m.group(2), want))
        bads = []
        for line in out.splitlines():
            if line.startswith('"BAD ') or line.startswith('BAD '):
                t = line.strip()
                t = json.loads(t) if t[0] == '"' else t
                bads.append(json.loads(t[4:]))
        return sessions, want, bads, sample

    def check(self, tags):
        with cf.ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(self.validate, tags))
        for tag, (n, ev, bads, sample) in zip(tags, res):
            self.cov['traces_validated_against_impl'] += n
            self.cov['states'] += ev + n
            self.cov['transitions'] += ev
            if sample and len(self.cov['samples']) < 2:
                self.cov['samples'].append(abbreviate(sample))
            if bads:
                self.report(tag, bads)

    def report(self, tag, bads):
        want = {b['n'] for b in bads}
        sess = {}
        for line in open(os.path.join(self.dir, tag + '.nd'), encoding='utf-8'):
            s = json.loads(line)
            if s['n'] in want:
                sess[s['n']] = s
        seen = set()
        for b in bads:
            if b['n'] in seen:
                continue            # what follows a discrepancy may be its consequence
            s = sess[b['n']]
            e = s['ev'][b['l'] - 1]
            text = bytes(e.get('s', []))
            key = '%s|%s|%s|%s' % (s['name'], e.get('via', e['e']), text.hex(), b['why'])
            if self.is_known(key, s, e, b):
                continue
            seen.add(b['n'])
            self.violation(b['why'], dict(
                kind='trace', prop=self.prop, seed=self.seed, tier=self.tier, session=b['n'], event=b['l'], why=b['why'],
                scripts=self.scripts[tag][:b['n'] + 1] if tag in self.scripts else None,
                type=s['name'], text=text.decode('utf-8', 'backslashreplace'), entry=e.get('via', ''), observed={
                    k: v for k, v in e.items() if k not in ('s', 'fl')}, expected=b['exp'], session_events=s['ev'][:b['l']]),
                key=hashlib.sha1(key.encode()).hexdigest()[:12])

    def is_known(self, key, s, e, b):
        for k in self.known:
            if k['key'] == key:
                if key not in self.printed:
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']), flush=True)
                self.printed.add(key)
                return True
        return False

    def violation(self, why, info, key):
        self.found.setdefault(key, (why, info))

    # ---- all of it ----
    def run(self):
        self.build()
        tags = self.record(self.conf[self.tier])
        self.log('recorded', self.extra.get('calls'), 'calls')
        self.check(tags)
        for stage, kw in STAGES.get(self.prop, []):
            stage(self, **kw)
        self.log('checked', self.cov['traces_validated_against_impl'], 'traces,', self.cov['transitions'], 'events')

    def finish(self):
        rdir = os.path.join(VERIF, 'build', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for i, (key, (why, info)) in enumerate(self.found.items()):
            if i >= 5:
                self.log('%d more' % (len(self.found) - i))
                break
            p = os.path.join(rdir, '%s-%s.json' % (self.prop, key))
            json.dump(info, open(p, 'w'), indent=1)
            if info['kind'] == 'trace':
                self.log(why + ':', 'type', info['type'][:200], 'text', repr(info['text'][:200]))
            else:
                self.log(why + ':', str(info.get('stderr', ''))[:400])
            print('VIOLATION property=%s replay=%s' % (self.prop, p), flush=True)
        cov = dict(self.cov)
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                  assumptions=ASSUMPTIONS, wall_s=round(time.time() - self.t0, 1), violations=len(self.found))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        return 1 if self.found else 0


ASSUMPTIONS = [
    'The specification spec/Decode.tla says what decoding means; where encoding/json and this decoder are known to differ, DESIGN.md lists the difference.',
    'IEEE values of number literals are computed with math/big by the harness, Unicode simple folding comes from the unicode package.',
    'Values are read through package reflect after every call.',
]

STAGES = {
    'C01': [(es.scope, dict(only=True))], 'C02': [(es.scope, {})], 'C03': [(es.scope, dict(only=False))],
    'C04': [(es.scope, {})], 'C05': [(es.scope, {})], 'C06': [(es.scope, {})], 'C07': [(es.scope, {})],
    'C08': [(es.hist, {})], 'C09': [(es.scope, {}), (es.hist, {})], 'C10': [(es.hist, {})],
    'C11': [(es.hist, {})], 'C12': [(es.syntax, {})],
    'C13': [(es.scope, {}), (es.hist, {})], 'C14': [(es.scope, dict(quick=60, thorough=1000))],
    'C15': [(es.scope, {}), (es.hist, {})], 'C16': [(es.scope, {}), (es.hist, {})],
    'C17': [(es.scope, {})], 'C18': [(es.scope, {}), (es.hist, {})], 'C19': [(es.scope, {})],
    'C25': [(es.scope, {})], 'C26': [(es.scope, dict(only=False)), (es.hist, {})],
    'C23': [(es.scope, {}), (es.hist, {})], 'C24': [(es.scope, {}), (es.hist, {})],
}

for _p in es.LAWS:
    STAGES[_p].append((es.laws, {}))
for _p in ('C04', 'C05', 'C06', 'C12', 'C17'):
    STAGES[_p].append((es.laws_text, {}))


def abbreviate(s):
    out = dict(n=s['n'], type=s['name'], events=[])
    for e in s['ev'][:4]:
        e = dict(e)
        if 's' in e:
            e['s'] = bytes(e['s']).decode('utf-8', 'backslashreplace')
        for k in ('pre', 'post', 'fl'):
            if k in e and len(json.dumps(e[k])) > 300:
                e[k] = json.dumps(e[k])[:300] + '...'
        out['events'].append(e)
    return out


def load_known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append(dict(key=bytes.fromhex(m.group(2)).decode(), what=m.group(3)))
    return out


def replay(path):
    """Runs again what a replay file describes."""
    info = json.load(open(path))
    r = Run(info['prop'], info['tier'], info['seed'])
    try:
        r.build()
        extra = []
        if info.get('scripts'):
            p = os.path.join(r.dir, 'r.scripts')
            open(p, 'w').write(''.join(json.dumps(x) + '\n' for x in info['scripts']))
            extra = ['-scripts', p]
            r.scripts['r'] = info['scripts']
        if info['kind'] == 'process':
            rc, _, errs = r.generate('r', info['from'], info['to'], info['step'], 300, extra=extra)
            print('exit', rc, errs[:3000])
            return 1 if rc else 0
        rc, _, errs = r.generate('r', info['session'], info['session'] + 1, 1, 300, extra=extra)
        r.check(['r'])
        return r.finish()
    finally:
        shutil.rmtree(r.dir, ignore_errors=True)


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    r = Run(prop, tier, seed)
    try:
        r.run()
        return r.finish()
    except (CheckError, es.EnumError, RuntimeError, OSError) as e:
        if r.found:
            return r.finish()
        print('ERROR: %s' % e, file=sys.stderr, flush=True)
        return 2
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(r.dir, ignore_errors=True)

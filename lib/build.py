"""Builds the harness against the working tree of /repo by means of an overlay."""
import json
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
GOROOT = '/usr/lib/go-1.21'
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import rtypes  # noqa: E402

MODULE = 'github.com/romshark/jscan-experimental-decoder'


def go_env(extra=None):
    env = dict(os.environ)
    env.update(HOME='/root', GOPATH='/root/go', GOTOOLCHAIN='local', GOPROXY='off',
               GOFLAGS='-mod=readonly', GONOSUMDB='*', GOMAXPROCS='8')
    env['GOCACHE'] = '/root/.cache/go-build'
    env['PATH'] = GOROOT + '/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    if extra:
        env.update(extra)
    return env


def catalogue():
    out = []
    for line in open(os.path.join(VERIF, 'harness/types.txt'), encoding='utf-8'):
        line = line.rstrip('\n')
        if line and not line.startswith('#'):
            out.append(tuple(line.split(' ', 1)))
    return out


def select(fams, seed, nrandom, both):
    """The types to build: (decls, [(family, type, kinds)]). The types of the families in both
    are built for both kinds of input, the others for one, which depends on the seed."""
    types = []
    for i, (f, t) in enumerate(catalogue()):
        if f in fams:
            types.append((f, t, 'SB' if f in both or f == 'bad' else 'SB'[(i + seed) % 2]))
    decls = []
    if nrandom:
        d, ts = rtypes.Gen(seed, 'r').types(nrandom)
        decls += d
        types += [('rnd', t, 'SB' if 'rnd' in both else 'SB'[i % 2]) for i, t in enumerate(ts)]
        if 'bad' in fams:
            d, ts = rtypes.Gen(seed, 'b', .06).types(nrandom)
            decls += d
            types += [('bad', t, 'SB') for t in ts]
    return decls, types


def build(workdir, decls, types, flags=(), packages=8):
    """Generates the catalogue and builds the harness, returns the path of the binary."""
    os.makedirs(workdir, exist_ok=True)
    repl = {}
    base = REPO + '/verifharness/'
    core = os.path.join(VERIF, 'harness/core')
    for f in os.listdir(core):
        if f.endswith('.go'):
            repl[base + 'core/' + f] = os.path.join(core, f)
    npk = min(packages, max(1, len(types) // 4))
    chunks = [types[i::npk] for i in range(npk)]
    declfile = ''
    if decls:
        declfile = 'package rnd\n\nimport (\n\t"fmt"\n\t"unsafe"\n\n\t. "%s/verifharness/core"\n\tjd "%s"\n)\n\nvar _ RP\nvar _ jd.Number\nvar _ fmt.Stringer\nvar _ unsafe.Pointer\n\n' % (MODULE, MODULE) + '\n'.join(decls) + '\n'
        p = os.path.join(workdir, 'rnd.go')
        open(p, 'w', encoding='utf-8').write(declfile)
        repl[base + 'rnd/rnd.go'] = p
    for i, ch in enumerate(chunks):
        body, uses = [], set()
        for f, t, kinds in ch:
            g = t
            if f in ('rnd', 'bad'):
                g2 = re.sub(r'\bG([rb]\d+_\d+)\b', r'rnd.G\1', t)
                if g2 != t:
                    uses.add('rnd')
                g = g2
            for pk in ('jd', 'fmt', 'unsafe'):
                if re.search(r'\b%s\.' % pk, re.sub(r'`[^`]*`', '', g)):
                    uses.add(pk)
            fn = {'SB': 'Reg', 'S': 'RegS', 'B': 'RegB'}[kinds]
            body.append('\t%s[%s](%s, %s)' % (fn, g, json.dumps(f), json.dumps(t, ensure_ascii=False)))
        imps = ['. "%s/verifharness/core"' % MODULE]
        if 'jd' in uses:
            imps.append('jd "%s"' % MODULE)
        if 'rnd' in uses:
            imps.append('"%s/verifharness/rnd"' % MODULE)
        imps += ['"%s"' % x for x in ('fmt', 'unsafe') if x in uses]
        src = 'package p%d\n\nimport (\n\t%s\n)\n\nfunc init() {\n%s\n}\n' % (i, '\n\t'.join(imps), '\n'.join(body))
        p = os.path.join(workdir, 'p%d.go' % i)
        open(p, 'w', encoding='utf-8').write(src)
        repl[base + 'p%d/p.go' % i] = p
    src = 'package main\n\nimport (\n\t"%s/verifharness/core"\n%s\n)\n\nfunc main() { core.Main() }\n' % (
        MODULE, '\n'.join('\t_ "%s/verifharness/p%d"' % (MODULE, i) for i in range(npk)))
    p = os.path.join(workdir, 'main.go')
    open(p, 'w').write(src)
    repl[base + 'main.go'] = p
    ov = os.path.join(workdir, 'overlay.json')
    json.dump({'Replace': repl}, open(ov, 'w'))
    out = os.path.join(workdir, 'h')
    r = subprocess.run(['go', 'build', '-overlay', ov, '-ldflags=-s -w', '-o', out] + list(flags) + ['./verifharness'],
                       cwd=REPO, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError('the harness does not build:\n' + r.stdout[-4000:])
    return out

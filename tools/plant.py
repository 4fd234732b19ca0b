#!/usr/bin/env python3
"""Development aid: turn a bug spec into seeded/<id>/ after confirming it in a scratch copy of /repo.
usage: tools/plant.py SPEC…   (spec: sections '@@id', '@@property', '@@file', '@@old', '@@new' (file/old/new may repeat), '@@needs', '@@breaks', '@@demo')
       tools/plant.py --check ID…   re-run the property's quick check against an existing one (all with no ID)
"""
import sys, os, re, json, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRELUDE = '''import sys, os, tempfile, types, logging
logging.disable(logging.CRITICAL)
sys.argv = sys.argv[:1]
OUT = os.dup(1)
from BibleOrgSys import BibleOrgSysGlobals as G
G.preloadCommonData()
G.verbosityLevel = 0; G.maxProcesses = 1; G.alreadyMultiprocessing = True
G.commandLineArguments = types.SimpleNamespace(export=False)


def usfm_bible(**books):
    """A USFM Bible from texts (| for a new line, ¦ for |), e.g. usfm_bible(MAT='\\\\id MAT|\\\\c 1|…')"""
    from BibleOrgSys.Formats.USFMBible import USFMBible
    d = tempfile.mkdtemp()
    nr = {'GEN': '01', 'EXO': '02', 'PSA': '19', 'MAT': '41', 'MRK': '42', 'LUK': '43', 'REV': '67'}
    for b, t in books.items():
        open(os.path.join(d, nr[b] + b + 'xyz.usfm'), 'w', encoding='utf-8').write(t.replace('|', '\\n').replace('¦', '|') + '\\n')
    bible = USFMBible(d, 'xyz')
    bible.loadBooks()
    return bible


def rows(book): return [(e.getMarker(), e.getCleanText()) for e in book]
'''
DEMO_SH = '''#!/bin/bash
set -u
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export HOME="$W" TMPDIR="$W" PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
"$PY" "$(dirname "$(realpath "$0")")/demo.py" >"$W/out" 2>&1 </dev/null; rc=$?
tail -n 5 "$W/out"
exit $rc
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def parse(path):
    d = {'edits': []}
    for part in re.split(r'(?m)^@@', open(path, encoding='utf-8').read())[1:]:
        name, _, body = part.partition('\n')
        name, _, inline = name.strip().partition(' ')
        if name == 'file': d['edits'].append([inline.strip() or body.strip(), None, None])
        elif name == 'old': d['edits'][-1][1] = body
        elif name == 'new':
            d['edits'][-1][2] = body
            d['edits'].append([d['edits'][-1][0], None, None])
        else: d[name] = (inline + '\n' + body).strip()
    d['edits'] = [e for e in d['edits'] if e[1] is not None]
    return d


def copy_repo(name):
    c = os.path.join('/tmp/sb', name)
    shutil.rmtree(c, ignore_errors=True); os.makedirs('/tmp/sb', exist_ok=True)
    sh(['cp', '-a', '/repo', c])
    return c


def stable(c):
    t = open('/opt/vp/test.sh').read().replace('/repo', c)
    s = c + '.test.sh'; open(s, 'w').write(t)
    o = c + '.json'
    sh(['bash', s, o])
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    got = json.load(open(o))
    os.remove(s); os.remove(o)
    passed = set(got['passed'] if 'passed' in got else got.get('stable', []))
    return sorted(base - passed)


def run_check(prop, c, seed='1'):
    r = sh([os.path.join(V, 'run_check.sh'), prop, 'quick'], env={'VERIF_REPO': c, 'VERIF_SEED': seed}, timeout=1200)
    caught = r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout
    return caught, r


def plant(path, keep_copy=False):
    d = parse(path)
    name = d['id']
    c = copy_repo(name)
    try:
        for f, old, new in d['edits']:
            p = os.path.join(c, f)
            s = open(p, encoding='utf-8').read()
            if s.count(old) != 1: print(name, 'BAD: text found', s.count(old), 'times in', f, repr(old[:80])); return
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        patch = sh(['git', 'diff'], cwd=c).stdout
        dest = os.path.join(V, 'seeded', name)
        os.makedirs(dest, exist_ok=True)
        open(os.path.join(dest, 'demo.py'), 'w', encoding='utf-8').write(PRELUDE + '\n\n' + d['demo'] + '\n')
        open(os.path.join(dest, 'demo.sh'), 'w').write(DEMO_SH); os.chmod(os.path.join(dest, 'demo.sh'), 0o755)
        good = sh(['bash', os.path.join(dest, 'demo.sh')], cwd='/repo')
        bad = sh(['bash', os.path.join(dest, 'demo.sh')], cwd=c)
        lost = stable(c)
        ok = good.returncode == 0 and bad.returncode != 0 and not lost
        print('%-28s demo clean=%d patched=%d, tests lost=%s' % (name, good.returncode, bad.returncode, lost[:3]))
        if good.returncode: print(good.stdout)
        print('   ', bad.stdout.strip().splitlines()[-1:] )
        if not ok:
            shutil.rmtree(dest); return
        open(os.path.join(dest, 'patch.diff'), 'w', encoding='utf-8').write(patch)
        json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(os.path.join(dest, 'meta.json'), 'w'), indent=1, ensure_ascii=False)
        caught, r = run_check(d['property'], c)
        print('    %s %s' % ('CAUGHT' if caught else '*** MISSED ***', [l[:300] for l in r.stdout.splitlines() if l.startswith('---')][:2] if caught else r.stdout.strip().splitlines()[-2:]))
    finally:
        shutil.rmtree(c, ignore_errors=True)


def check(name):
    meta = json.load(open(os.path.join(V, 'seeded', name, 'meta.json')))
    c = copy_repo(name)
    try:
        r = sh(['git', 'apply', os.path.join(V, 'seeded', name, 'patch.diff')], cwd=c)
        if r.returncode: print(name, 'PATCH DOES NOT APPLY', r.stdout); return
        demo = sh(['bash', os.path.join(V, 'seeded', name, 'demo.sh')], cwd=c).returncode, sh(['bash', os.path.join(V, 'seeded', name, 'demo.sh')], cwd='/repo').returncode
        caught, r = run_check(meta['property'], c)
        print('%-28s %s demo=%s %s' % (name, meta['property'], demo, 'CAUGHT' if caught else '*** MISSED *** %s' % r.stdout.strip().splitlines()[-1:]), flush=True)
    finally:
        shutil.rmtree(c, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == '--check':
        for n in sys.argv[2:] or sorted(os.listdir(os.path.join(V, 'seeded'))): check(n)
    else:
        for p in sys.argv[1:]: plant(p)

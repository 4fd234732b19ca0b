#!/usr/bin/env python3
"""Development aid: run many cases of one sub-check without stopping and tally the failures by message.
usage: python3-vt tools/survey.py Cnn sub n [seed]"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness'))
import core
core.ensure_environment()
import glob, importlib.util, json, re, traceback
p = glob.glob(os.path.join(core.VERIF, 'harness', 'checks', sys.argv[1].lower() + '_*.py'))[0]
spec = importlib.util.spec_from_file_location('chk', p); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
core.sut()
with core.quiet():
    if hasattr(mod, 'setup'): mod.setup()
sub = [s for s in mod.SUBS if s.name == sys.argv[2]][0]
if sub.sut_setup: sub.sut_setup()
import hypothesis
from hypothesis import given, settings, HealthCheck, Phase
rec = core.Recorder(); tally = {}
def one(case):
    try: core.run_one(sub, case, rec)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ''
        if not isinstance(e, core.Violation): where = '%s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno)
        k = type(e).__name__ + ' ' + where + ' ' + re.sub(r"[0-9]+|'[^']*'", '#', str(e))[:70]
        t = tally.setdefault(k, [0, None, None]); t[0] += 1
        s = json.dumps(case, ensure_ascii=False)
        if t[1] is None or len(s) < len(t[1]): t[1] = s; t[2] = str(e); open('/tmp/w/survey_%s.json' % re.sub(r'\W+', '_', k)[:60], 'w').write(json.dumps(dict(property=sys.argv[1], sub=sub.name, case=case)))
if sub.exhaustive is not None:
    for c in sub.exhaustive(): one(c)
else:
    @hypothesis.seed(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    @settings(max_examples=int(sys.argv[3]), database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate])
    @given(sub.strategy())
    def t(case): one(case)
    with core.quiet(): t()
print(rec.evaluations, 'cases', len(rec.nontrivial), 'nontrivial', rec.classes)
import gen_usfm as g
def show(s):
    c = json.loads(s)
    books = c if isinstance(c, list) else c.get('books', [c]) if isinstance(c, dict) else []
    if books and all(isinstance(b, dict) and 'lines' in b for b in books):
        rest = {k: v for k, v in c.items() if k not in ('books', 'lines', 'BBB')} if isinstance(c, dict) else ''
        return '\n'.join(g.render(b)[-1500:] for b in books) + (json.dumps(rest, ensure_ascii=False)[:1500] if rest else '')
    return s[:1500]
for k, v in sorted(tally.items(), key=lambda kv: -kv[1][0]):
    print('%5d  %s\n       %s\n%s' % (v[0], k, (v[2] or '')[:900], show(v[1])))

"""Writes seeded/<id>/ from edits made in a scratch copy of /repo (see the bug() calls that use it)."""
import json, os, shutil, subprocess
WT = '/tmp/plant-repo'
FROM = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = "import { describe, it, expect, vi, beforeEach, afterEach } from 'vitest';\n"

def sh(*a, cwd=WT):
    return subprocess.run(a, cwd=cwd, check=True, capture_output=True, text=True).stdout

def sync():
    if not os.path.exists(WT):
        subprocess.run(['node', os.path.join(ROOT, 'tools/plant.mjs')], check=True)
    sh('git', 'fetch', '-q', FROM, 'HEAD'); sh('git', 'reset', '-q', '--hard', 'FETCH_HEAD')

def bug(id, prop, edits, needs, breaks, test, mcp=False):
    sync()
    for f, old, new in edits:
        p = os.path.join(WT, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    d = os.path.join(ROOT, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    diff = sh('git', 'diff')
    sh('git', 'checkout', '-q', '--', '.')
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    t = os.path.join(ROOT, 'tools', 'demo-template')
    shutil.copy(t + ('/demo-mcp.sh' if mcp else '/demo.sh'), d + '/demo.sh')
    if mcp:
        open(d + '/demo.mjs', 'w').write(test)
    else:
        shutil.copy(t + '/vitest.config.mjs', d)
        open(d + '/demo.test.ts', 'w').write(PRE + test)

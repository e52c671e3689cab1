"""Helpers to write seeded/<id>/ folders: tools/seeds_*.py describe the changes, this lays them out.

seed(id, prop, [(file, old, new[, nth])], needs=, breaks=, cpp= or sh=, flags=, cxx=, std=)
"""
import json, os, shutil, subprocess, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
OUT = os.path.join(VERIF, 'seeded')

DEMO = '''#!/bin/bash
# run with cwd = the repository (already built); exit 0: the property holds, nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/cthash-demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
%s
'''

BODY = '''{cxx} -std={std} {flags} -I "$PWD/include" "$here/demo.cpp" -o "$work/demo" {libs}|| exit 3
timeout 250 "$work/demo"
'''

def seed(id, prop, edits, needs, breaks, cpp=None, sh=None, flags='-O1', cxx='g++-14', std='c++23', libs='', files=None):
	d = os.path.join(OUT, id)
	if os.path.isdir(d):
		shutil.rmtree(d)
	os.makedirs(d)
	with tempfile.TemporaryDirectory(prefix='seedgen.', dir='/tmp') as t:
		for base in sorted({e[0] for e in edits}):
			src = os.path.join(REPO, base)
			for side in 'ab':
				os.makedirs(os.path.dirname(os.path.join(t, side, base)), exist_ok=True)
				shutil.copy(src, os.path.join(t, side, base))
		for e in edits:
			file, old, new = e[:3]
			nth = e[3] if len(e) > 3 else None
			p = os.path.join(t, 'b', file)
			s = open(p).read()
			n = s.count(old)
			if nth is None:
				assert n == 1, (id, file, n, old)
				s = s.replace(old, new)
			else:
				parts = s.split(old)
				assert len(parts) > nth + 1, (id, n)
				s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
			open(p, 'w').write(s)
		r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=t, capture_output=True, text=True)
		diff = r.stdout
		assert diff, id
		# paths a/a/x -> a/x
	lines = []
	for l in diff.splitlines(keepends=True):
		if l.startswith('diff --git '):
			_, _, a, b = l.split()
			l = 'diff --git a/%s b/%s\n' % (a[2:], b[2:])
		elif l.startswith('--- a/'):
			l = '--- a/' + l[6:]
		elif l.startswith('+++ b/'):
			l = '+++ b/' + l[6:]
		lines.append(l)
	open(os.path.join(d, 'patch.diff'), 'w').write(''.join(lines))
	if cpp is not None:
		open(os.path.join(d, 'demo.cpp'), 'w').write(cpp)
		body = BODY.format(cxx=cxx, std=std, flags=flags, libs=libs + ' ' if libs else '')
	else:
		body = sh
	for name, text in (files or {}).items():
		open(os.path.join(d, name), 'w').write(text)
	open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % body)
	os.chmod(os.path.join(d, 'demo.sh'), 0o755)
	json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
	open(os.path.join(d, 'meta.json'), 'a').write('\n')

#!/usr/bin/env python3
"""Validate seeded/<id>: applies to /repo, builds, passes tests, demo 0/nonzero; then run checks against it.

seedtest.py [--demo-only] [--checks C01,C02|own] ID...
The check runs use VERIF_REPO on a scratch copy (copies of /repo under /tmp/seedtest.*), so /repo itself is changed
only while the build and the tests run."""
import json, os, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'

def sh(cmd, cwd=REPO, timeout=900, env=None):
	e = dict(os.environ); e.update(env or {})
	try:
		r = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout, env=e)
		return r.returncode, r.stdout + r.stderr
	except subprocess.TimeoutExpired:
		return 124, 'timeout'

def demo(id, repo=REPO):
	with tempfile.TemporaryDirectory(prefix='seeddemo.', dir='/tmp') as t:
		d = os.path.join(t, 'x')
		shutil.copytree(os.path.join(VERIF, 'seeded', id), d, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
		return sh(['bash', os.path.join(d, 'demo.sh')], cwd=repo, timeout=300)

def main():
	args = sys.argv[1:]
	checks = None; demo_only = False; no_repo = False
	while args and args[0].startswith('--'):
		a = args.pop(0)
		if a == '--demo-only': demo_only = True
		elif a == '--no-repo': no_repo = True
		elif a == '--checks': checks = args.pop(0)
	ids = args or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
	for id in ids:
		d = os.path.join(VERIF, 'seeded', id)
		meta = json.load(open(os.path.join(d, 'meta.json')))
		patch = os.path.join(d, 'patch.diff')
		res = []
		if not no_repo:
			rc, out = demo(id)
			res.append('clean demo %d' % rc)
			if rc: print(id, 'CLEAN DEMO FAILS\n', out[-1500:])
			rc, out = sh(['git', 'apply', patch])
			if rc:
				print(id, 'DOES NOT APPLY', out); continue
			try:
				if not demo_only:
					rc, out = sh('bash /opt/vp/build.sh')
					res.append('build %d' % rc)
					if rc: print(out[-2500:])
					tj = '/tmp/seedtest.json'
					rc, out = sh('bash /opt/vp/test.sh ' + tj)
					j = json.load(open(tj))
					res.append('tests %d/%d' % (len(j['passed']), len(j['passed']) + len(j['failed'])))
					if j['failed']: res.append(str(j['failed'])[:200])
				rc, out = demo(id)
				res.append('patched demo %d' % rc)
				if rc == 0 or rc == 3: print(id, 'PATCHED DEMO', rc, out[-1500:])
				else: res.append(out.strip().splitlines()[-1][:100] if out.strip() else '')
			finally:
				sh('git checkout -- .')
				if not demo_only: sh('bash /opt/vp/build.sh')
		if checks:
			with tempfile.TemporaryDirectory(prefix='seedtest.', dir='/tmp') as t:
				r = os.path.join(t, 'repo')
				shutil.copytree(REPO, r, ignore=shutil.ignore_patterns('_build', '.git'))
				rc, out = sh(['git', 'apply', patch], cwd=r)
				if rc: rc, out = sh('patch -p1 < ' + patch, cwd=r)
				assert rc == 0, out
				for c in ([meta['property']] if checks == 'own' else checks.split(',')):
					t0 = time.time()
					rc, out = sh([sys.executable, 'check.py', c], cwd=VERIF, timeout=1800, env={'VERIF_REPO': r, 'VERIF_TIER': 'quick', 'VERIF_SEED': '1'})
					v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
					res.append('%s rc=%d %.0fs %s' % (c, rc, time.time() - t0, v[0] if v else out[-300:]))
		print(id, meta['property'], '|', ' | '.join(res), flush=True)
main()

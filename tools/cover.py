"""Line coverage of the Python code under test by the inputs of the checks
(development only; no check reads this).

usage: cover.py OUT.json [CHECK..]; then cover.py --show OUT.json [FILE..]"""
import ast
import json
import os
import shutil
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import vf

RUN = r'''
import sys, json, os, time
sys.path.insert(0, %(lib)r)
import vf
sys.setrecursionlimit(5000)
pid, scratch, out = sys.argv[1:4]
hit = {}
mon = sys.monitoring
mon.use_tool_id(3, 'cov')
def line(code, no):
	if '/discodop/' in code.co_filename:
		hit.setdefault(os.path.basename(code.co_filename), set()).add(no)
	return mon.DISABLE
mon.register_callback(3, mon.events.LINE, line)
mon.set_events(3, mon.events.LINE)
mod = vf.loadcheck(pid)
for s in range(3):
	seen = set()
	t0 = time.time()
	for inp in mod.inputs(vf.Ctx(pid, 'quick', 1, s, 8, scratch)):
		if time.time() - t0 > 30: break
		inp = vf.flat(inp)
		vf.safeexecute(mod, inp)
json.dump({a: sorted(b) for a, b in hit.items()}, open(out, 'w'))
'''


def main():
	out, *checks = sys.argv[1:]
	checks = checks or [a['property'] if 'property' in a else a['id'] for a in json.load(
			open(os.path.join(vf.VERIF, 'MANIFEST.json')))['checks']]
	top = tempfile.mkdtemp(prefix='cov_')
	lib = dict(lib=os.path.join(vf.VERIF, 'lib'))

	def one(c):
		mod = vf.loadcheck(c)
		scratch = os.path.join(top, c)
		os.makedirs(scratch)
		vf.build(os.path.join(scratch, 'src'), mod.MODULES)
		vf.generate(mod, scratch)
		work = os.path.join(scratch, 'work')
		os.makedirs(work)
		o = os.path.join(scratch, 'cov')
		code, msg, _ = vf.run([vf.VENVPY, '-c', RUN % lib, c, scratch, o], 600,
				env=vf.driverenv(scratch), cwd=work)
		if code:
			print(c, msg[-500:])
			return c, {}
		return c, json.load(open(o))
	res = json.load(open(out)) if os.path.exists(out) else {}
	with ThreadPoolExecutor(4) as pool:
		res.update(pool.map(one, checks))
	json.dump(res, open(out, 'w'))
	shutil.rmtree(top)


def show():
	res = json.load(open(sys.argv[2]))
	files = sys.argv[3:] or sorted({f for r in res.values() for f in r})
	for f in files:
		hit = {n for r in res.values() for n in r.get(f, ())}
		tree = ast.parse(open(os.path.join(vf.REPO, 'discodop', f)).read())
		print('==', f)
		for fun in ast.walk(tree):
			if not isinstance(fun, ast.FunctionDef):
				continue
			lines = {s.lineno for s in ast.walk(fun) if isinstance(s, ast.stmt)
					and s is not fun and not (isinstance(s, ast.Expr)
						and isinstance(s.value, ast.Constant))
					and not isinstance(s, (ast.FunctionDef, ast.Global,
						ast.Nonlocal))}
			miss = sorted(lines - hit)
			if miss:
				print('  %s %d/%d %s' % (fun.name, len(miss), len(lines),
						'' if len(miss) == len(lines) else miss))


if __name__ == '__main__':
	if sys.argv[1] == '--show':
		show()
	else:
		main()

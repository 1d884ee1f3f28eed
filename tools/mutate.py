"""Mutation analysis of the checks (development only; no check reads this).

usage: mutate.py FILE NMUTANTS SEED CHECK[,CHECK..] [FUNCTION_REGEX]

Applies small changes to a Python file of the code under test in scratch
copies, replays the inputs of the given checks, and prints the changes for
which no record differs (SAME), or for which records differ but the
specification accepts the differing records (ACCEPTED)."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
		os.path.abspath(__file__))), 'lib'))
import vf

NSH = 16  # only NUSE of these shards are used
NUSE = int(os.environ.get('NUSE', 4))
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
		ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
		ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}

DRIVER = r'''
import sys, json, os
sys.path.insert(0, %(lib)r)
import vf
sys.setrecursionlimit(5000)
pid, scratch, base, out = sys.argv[1:5]
mod = vf.loadcheck(pid)
diffs = 0
with open(out, 'w') as o:
	for line in open(base):
		rec = json.loads(line)
		new = vf.flat(vf.safeexecute(mod, rec['inp']))
		if new != rec:
			o.write(json.dumps(new) + '\n'); o.flush()
			diffs += 1
			if diffs >= 6:
				break
'''
BASE = r'''
import sys, json, os
sys.path.insert(0, %(lib)r)
import vf
sys.setrecursionlimit(5000)
pid, scratch, out, nsh, nuse = sys.argv[1:6]
mod = vf.loadcheck(pid)
with open(out, 'w') as o:
	for s in range(int(nuse)):
		seen = set()
		import time
		t0 = time.time()
		for inp in mod.inputs(vf.Ctx(pid, 'quick', 1, s, int(nsh), scratch)):
			if time.time() - t0 > 25: break
			inp = vf.flat(inp)
			k = json.dumps(inp, sort_keys=True)
			if k in seen: continue
			seen.add(k)
			o.write(json.dumps(vf.flat(vf.safeexecute(mod, inp))) + '\n')
'''


def mutants(src, funre):
	tree = ast.parse(src)
	lines = src.split('\n')
	offs = [0]
	for a in lines:
		offs.append(offs[-1] + len(a.encode()) + 1)
	bsrc = src.encode()

	def pos(node):
		return (offs[node.lineno - 1] + node.col_offset,
				offs[node.end_lineno - 1] + node.end_col_offset)
	res = []

	def add(node, new, what, fun):
		a, b = pos(node)
		res.append((fun, node.lineno, what, bsrc[:a], new.encode(), bsrc[b:]))

	def visit(node, fun):
		if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
			fun = (fun + '.' if fun else '') + node.name
		if fun in ('main', 'test') or fun.endswith('.test'):
			return
		if isinstance(node, ast.Compare) and len(node.ops) == 1:
			new = ast.Compare(node.left, [CMP[type(node.ops[0])]()],
					node.comparators)
			add(node, '(' + ast.unparse(new) + ')', 'cmp', fun)
		elif isinstance(node, ast.BoolOp):
			new = ast.BoolOp(ast.Or() if isinstance(node.op, ast.And)
					else ast.And(), node.values)
			add(node, '(' + ast.unparse(new) + ')', 'bool', fun)
			for n in range(len(node.values)):
				rest = node.values[:n] + node.values[n + 1:]
				new = rest[0] if len(rest) == 1 else ast.BoolOp(node.op, rest)
				add(node, '(' + ast.unparse(new) + ')', 'dropcond', fun)
		elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
			add(node, '(' + ast.unparse(node.operand) + ')', 'not', fun)
		elif isinstance(node, ast.BinOp) and isinstance(
				node.op, (ast.Add, ast.Sub)):
			new = ast.BinOp(node.left, ast.Sub() if isinstance(node.op, ast.Add)
					else ast.Add(), node.right)
			add(node, '(' + ast.unparse(new) + ')', 'arith', fun)
		elif isinstance(node, ast.Constant):
			if node.value is True or node.value is False:
				add(node, str(not node.value), 'flip', fun)
			elif isinstance(node.value, int):
				add(node, str(node.value + 1), 'const', fun)
				if node.value:
					add(node, str(node.value - 1), 'const', fun)
		elif isinstance(node, (ast.If, ast.IfExp, ast.While)):
			if not isinstance(node, ast.While):
				add(node.test, 'True', 'iftrue', fun)
			add(node.test, 'False', 'iffalse', fun)
		elif isinstance(node, ast.Slice):
			if node.step is not None:
				new = ast.Slice(node.lower, node.upper, None)
				add(node, ast.unparse(new) or ':', 'nostep', fun)
			elif node.lower is not None or node.upper is not None:
				add(node, ':', 'noslice', fun)
		elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
			swap = dict(min='max', max='min', sorted='list', any='all',
					all='any', reversed='list').get(node.func.id)
			if swap:
				if node.func.id in ('sorted', ):
					new = 'list(%s)' % ast.unparse(node.args[0])
				else:
					new = ast.unparse(ast.Call(ast.Name(swap), node.args,
							node.keywords))
				add(node, new, 'call', fun)
			if node.keywords:
				for n in range(len(node.keywords)):
					new = ast.Call(node.func, node.args, node.keywords[:n]
							+ node.keywords[n + 1:])
					add(node, ast.unparse(new), 'dropkw', fun)
		if isinstance(node, (ast.Continue, ast.Break)):
			add(node, 'pass', 'dropjump', fun)
		elif isinstance(node, ast.AugAssign) or (isinstance(node, ast.Expr)
				and isinstance(node.value, ast.Call)):
			add(node, 'pass', 'drop', fun)
		elif isinstance(node, ast.Assign) and not isinstance(
				node.targets[0], ast.Name) and fun:
			add(node, 'pass', 'drop', fun)
		for child in ast.iter_child_nodes(node):
			if (isinstance(child, ast.Expr) and isinstance(child.value,
					ast.Constant)):
				continue
			visit(child, fun)
	visit(tree, '')
	return [a for a in res if re.search(funre, a[0])]


def main():
	fn, num, seed, checks = sys.argv[1:5]
	funre = sys.argv[5] if len(sys.argv) > 5 else '.'
	checks = checks.split(',')
	src = open(os.path.join(vf.REPO, fn)).read()
	muts = mutants(src, funre)
	rng = random.Random(seed)
	rng.shuffle(muts)
	print('%d mutants possible' % len(muts))
	muts = muts[:int(num)]
	top = tempfile.mkdtemp(prefix='mut_')
	lib = dict(lib=os.path.join(vf.VERIF, 'lib'))
	mods = {c: vf.loadcheck(c) for c in checks}

	def prep(c):
		scratch = os.path.join(top, c)
		os.makedirs(scratch)
		vf.build(os.path.join(scratch, 'src'), mods[c].MODULES)
		vf.generate(mods[c], scratch)
		env = vf.driverenv(scratch)
		work = os.path.join(scratch, 'work')
		os.makedirs(work)
		code, out, _ = vf.run([vf.VENVPY, '-c', BASE % lib, c, scratch,
				os.path.join(scratch, 'base'), str(NSH), str(NUSE)], 600,
				env=env, cwd=work)
		assert code == 0, out
		return sum(1 for _ in open(os.path.join(scratch, 'base')))
	with ThreadPoolExecutor(4) as pool:
		for c, n in zip(checks, pool.map(prep, checks)):
			print(c, n, 'records', flush=True)

	def one(arg):
		num, (fun, lineno, what, pre, new, post) = arg
		text = pre + new + post
		result = 'SAME'
		try:
			compile(text, fn, 'exec')
		except SyntaxError:
			return 'INVALID', ''
		for c in checks:
			d = os.path.join(top, 'm%d_%s' % (num, c))
			os.makedirs(d)
			scratch = os.path.join(top, c)
			try:
				shutil.copytree(os.path.join(scratch, 'src'),
						os.path.join(d, 'src'))
				with open(os.path.join(d, 'src', fn), 'wb') as o:
					o.write(text)
				work = os.path.join(d, 'work')
				os.makedirs(work)
				env = vf.driverenv(scratch)
				env['PYTHONPATH'] = os.path.join(d, 'src')
				env['VF_SCRATCH'] = d
				diff = os.path.join(d, 'diff')
				code, out, timedout = vf.run([vf.VENVPY, '-c', DRIVER % lib, c,
						d, os.path.join(scratch, 'base'), diff], 150,
						env=env, cwd=work)
				if timedout or code:
					return 'CRASH', c
				recs = [json.loads(a) for a in open(diff)]
				if not recs:
					continue
				result = 'ACCEPTED'
				byspec = {}
				for rec in recs:
					spec = (mods[c].SPEC if isinstance(mods[c].SPEC, str)
							else mods[c].SPEC[rec['inp']['op']])
					byspec.setdefault(spec, []).append(rec)
				for spec, rs in byspec.items():
					f = os.path.join(d, spec + '.ndjson')
					with open(f, 'w') as o:
						o.writelines(json.dumps(r) + '\n' for r in rs)
					meta = os.path.join(d, 'tlc' + spec)
					os.makedirs(meta)
					try:
						bad, _, _ = vf.tracecheck(spec, getattr(mods[c],
								'TRACECFG', 'Trace.cfg'), f, len(rs), meta, 200)
					except vf.HarnessError as err:
						return 'HARNESS', str(err)[-300:]
					if bad:
						return 'KILLED', c
			finally:
				shutil.rmtree(d, ignore_errors=True)
		return result, ''
	tally = {}
	try:
		with ThreadPoolExecutor(int(os.environ.get('MW', 6))) as pool:
			for (fun, lineno, what, pre, new, post), (res, info) in zip(
					muts, pool.map(one, enumerate(muts))):
				tally[res] = tally.get(res, 0) + 1
				if res in ('SAME', 'ACCEPTED', 'HARNESS'):
					old = src.encode()[len(pre):len(src.encode()) - len(post)]
					print('%s %s:%d %s [%s]\n   - %s\n   + %s %s' % (res, fn,
							lineno, fun, what, old.decode()[:300],
							new.decode()[:300], info), flush=True)
	finally:
		shutil.rmtree(top, ignore_errors=True)
	print(tally)


if __name__ == '__main__':
	main()

"""Verification harness: build disco-dop from /repo, run the specification
(TLC) and conformance-check the real code against it.

A check module (/verif/checks/<ID>.py) defines

  MODULES   list of Cython modules to build ('bit', 'containers', ...)
  SPEC      name of the trace specification in /verif/spec (without .tla),
            or a dict op -> spec name
  MODELS    list of (spec, cfg) model-checked with TLC on every run
  GEN       optional list of (spec, cfg, outfile): TLC writes inputs enumerated
            from the specification as ndjson to IOEnv.OUT
  inputs(ctx)      yields JSON-serialisable inputs (dicts with an 'op' field)
  execute(inp)     runs the real code on one input, returns a dict of outputs
  nontrivial(inp, out)  optional, for the vacuity statistics

Everything the code under test does happens in driver subprocesses
(this module with --drive), in a scratch directory that is removed again.
"""
import argparse
import glob
import hashlib
import importlib.util
import io
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')  # variable: development only
VENVPY = '/opt/venv/bin/python'
SPECDIR = os.path.join(VERIF, 'spec')
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
		'/opt/veriftools/tla/CommunityModules-deps.jar')
ALLMODS = ['bit', 'containers', 'pcfg', 'plcfrs', 'kbest', 'coarsetofine',
		'estimates', 'disambiguation', '_fragments']
NPROC = min(8, os.cpu_count() or 1)

BUILDPY = '''
import sys, os
mod, opt = sys.argv[1:3]
sys.path.insert(0, os.getcwd())
from setuptools import Extension, setup
from Cython.Build import cythonize
from Cython.Compiler import Options
Options.fast_fail = True
import setup as S
directives = dict(S.directives)
ext = cythonize([Extension('discodop.%s' % mod, ['discodop/%s.pyx' % mod],
	extra_compile_args=['-Isparsepp/', '-w', opt, '-DNDEBUG'],
	language='c++')], compiler_directives=directives, language_level=3,
	quiet=True)
setup(name='x', ext_modules=ext, script_args=['-q', 'build_ext', '--inplace',
	'--force', '--build-temp', 'build/' + mod])
'''


class HarnessError(Exception):
	pass


def kill(proc):
	try:
		os.killpg(proc.pid, signal.SIGKILL)
	except ProcessLookupError:
		pass


def run(cmd, timeout, **kw):
	"""Run in its own process group; kill the group on timeout."""
	proc = subprocess.Popen(cmd, stdout=subprocess.PIPE,
			stderr=subprocess.STDOUT, start_new_session=True, **kw)
	try:
		out, _ = proc.communicate(timeout=timeout)
		timedout = False
	except subprocess.TimeoutExpired:
		kill(proc)
		out, _ = proc.communicate()
		timedout = True
	return proc.returncode, out.decode('utf8', 'replace'), timedout


def build(dest, modules):
	"""Copy the working tree's sources to dest and build modules in place."""
	os.makedirs(os.path.join(dest, 'discodop'))
	for pat in ('*.py', '*.pyx', '*.pxd', '*.pxi', '*.h'):
		for fn in glob.glob(os.path.join(REPO, 'discodop', pat)):
			shutil.copy(fn, os.path.join(dest, 'discodop'))
	for fn in ('setup.py', 'README.rst', 'alpinosample.export'):
		if os.path.exists(os.path.join(REPO, fn)):
			shutil.copy(os.path.join(REPO, fn), dest)
	for fn in glob.glob(os.path.join(REPO, '*.headrules')) + glob.glob(
			os.path.join(REPO, '*.modifierrules')):
		shutil.copy(fn, dest)
	for sub in ('sparsepp', 'cpp-btree', 'gheap'):
		# genuine third-party headers when present, otherwise stand-ins
		real = os.path.join(REPO, sub)
		if os.path.isdir(real) and os.listdir(real):
			shutil.copytree(real, os.path.join(dest, sub))
		else:
			shutil.copytree(os.path.join(VERIF, 'shims', sub),
					os.path.join(dest, sub))
	for fn in glob.glob(os.path.join(VERIF, 'shims', 'pyx', '*.pyx')):
		shutil.copy(fn, os.path.join(dest, 'discodop'))
	with open(os.path.join(dest, 'b.py'), 'w') as out:
		out.write(BUILDPY)
	cache = os.environ.get('VF_CACHE')  # development only
	key = None
	if cache:
		h = hashlib.sha1()
		for fn in sorted(glob.glob(os.path.join(dest, 'discodop', '*.p[yx]*'))
				+ glob.glob(os.path.join(dest, 'discodop', '*.h'))
				+ glob.glob(os.path.join(VERIF, 'shims', '**', '*'),
				recursive=True)):
			if os.path.isfile(fn) and not fn.endswith('.py'):
				h.update(open(fn, 'rb').read())
		key = h.hexdigest()

	def one(mod):
		if key:
			hit = glob.glob(os.path.join(cache, key, mod + '.*.so'))
			if hit:
				shutil.copy(hit[0], os.path.join(dest, 'discodop'))
				return 0, ''
		code, out, _ = run([VENVPY, 'b.py', mod, '-O1'], 800, cwd=dest)
		if code == 0 and key:
			os.makedirs(os.path.join(cache, key), exist_ok=True)
			for fn in glob.glob(os.path.join(
					dest, 'discodop', mod + '.*.so')):
				shutil.copy(fn, os.path.join(cache, key))
		return code, out
	order = sorted(modules, key=lambda m: -os.path.getsize(
			os.path.join(dest, 'discodop', m + '.pyx')))
	with ThreadPoolExecutor(NPROC) as pool:
		for mod, (code, out) in zip(order, pool.map(one, order)):
			if code != 0:
				raise HarnessError('build of %s failed:\n%s' % (mod, out[-3000:]))
	for fn in glob.glob(os.path.join(dest, 'discodop', '*.cpp')):
		os.remove(fn)


def tlc(spec, cfg, meta, env=None, workers=1, timeout=600, extra=(),
		heap='2g'):
	"""Run TLC on spec (a module in SPECDIR) with cfg."""
	e = dict(os.environ)
	e.update(env or {})
	e.pop('JAVA_TOOL_OPTIONS', None)
	gc = '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC'
	cmd = ['java', gc, '-Xmx' + heap, '-Xss512m', '-Djava.io.tmpdir=' + meta,
			'-cp', JARS, 'tlc2.TLC', '-workers', str(workers),
			'-metadir', meta, '-noGenerateSpecTE', '-config',
			os.path.join(SPECDIR, cfg)] + list(extra) + [
			os.path.join(SPECDIR, spec + '.tla')]
	# TLC can take forever reconstructing where an evaluation error occurred;
	# so stop it soon after the first error is reported.
	log = os.path.join(meta, 'tlc.log')
	with open(log, 'wb') as out:
		proc = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT,
				start_new_session=True, env=e, cwd=meta)
		t0 = time.time()
		errat = None
		timedout = False
		while True:
			try:
				proc.wait(0.25 if time.time() - t0 < 10 else 1)
				break
			except subprocess.TimeoutExpired:
				pass
			now = time.time()
			if errat is None:
				with open(log, 'rb') as inp:
					if re.search(rb'^Error: ', inp.read(), re.M):
						errat = now
			elif now - errat > 5:
				kill(proc)
				proc.wait()
				break
			if now - t0 > timeout:
				timedout = True
				kill(proc)
				proc.wait()
				break
	with open(log, 'rb') as inp:
		return (proc.returncode, inp.read().decode('utf8', 'replace'),
				timedout)


STATES = re.compile(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct')


def tlcstates(out):
	m = None
	for m in STATES.finditer(out):
		pass
	if m is None:
		return 0, 0
	return int(m.group(2).replace(',', '')), int(m.group(1).replace(',', ''))


BAD = re.compile(r'<<\s*"BAD",\s*(\d+),\s*(.*?)\s*>>\s*$', re.S | re.M)


def unwrap(out):
	"""Join TLC's wrapped PrintT output: lines of one <<"BAD"...>> value."""
	res, buf = [], None
	for line in out.splitlines():
		if buf is None:
			if re.match(r'<<\s*"BAD"', line):
				buf = line
			else:
				continue
		else:
			buf += ' ' + line.strip()
		if buf.count('<<') == buf.count('>>'):
			res.append(buf)
			buf = None
	return res


def parsebad(out):
	res = []
	for line in unwrap(out):
		m = re.match(r'<<\s*"BAD",\s*(\d+),\s*(.*?)\s*>>$', line)
		if m:
			clauses = re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(2))
			res.append((int(m.group(1)), clauses or [m.group(2)]))
	return res


def tracecheck(spec, cfg, fn, n, meta, timeout):
	"""Check the records in ndjson file fn against a trace specification.

	Returns (bad, states, transitions); bad is a list of (index, clauses)."""
	bad, states, trans = [], 0, 0
	start = 1
	restarts = 0
	while start <= n:
		m = os.path.join(meta, 'r%d' % restarts)
		os.makedirs(m)
		code, out, timedout = tlc(spec, cfg, m,
				env={'TRACE': fn, 'START': str(start)}, timeout=timeout)
		b = parsebad(out)
		bad.extend(b)
		s, t = tlcstates(out)
		states += s
		trans += t
		if timedout:
			raise HarnessError('TLC timed out on %s' % spec)
		if code == 0:
			break
		# an evaluation error: find the record at which it occurred
		idx = [int(a) for a in re.findall(r'^(?:/\\ )?i = (\d+)', out, re.M)]
		if not idx:
			raise HarnessError('TLC failed on %s:\n%s' % (spec, out[-4000:]))
		err = re.findall(r'^Error: (.*(?:\n(?!Error:|State|The behavior).*)*)',
				out, re.M)
		msg = ' '.join(' '.join(err).split())[:300]
		at = max(idx)
		if at not in [a for a, _ in bad]:
			bad.append((at, ['malformed: ' + msg]))
		states += at - start
		restarts += 1
		if restarts > 6:
			break  # plenty of evidence already
		start = at + 1
	return bad, states, trans


def loadcheck(pid):
	path = os.path.join(VERIF, 'checks', pid + '.py')
	spec = importlib.util.spec_from_file_location('check_' + pid, path)
	mod = importlib.util.module_from_spec(spec)
	spec.loader.exec_module(mod)
	return mod


class Ctx:
	"""What inputs() gets: tier, shard, random source, generated files."""
	def __init__(self, pid, tier, seed, shard, nshards, scratch):
		self.tier, self.seed = tier, seed
		self.shard, self.nshards = shard, nshards
		self.scratch = scratch
		self.rng = random.Random('%s/%s/%d' % (pid, seed, shard))
		self.thorough = tier == 'thorough'

	def n(self, quick, thorough=None):
		"""Number of random samples for this shard."""
		total = quick if not self.thorough else (thorough or 8 * quick)
		return max(1, total // self.nshards)

	def mine(self, seq):
		"""This shard's part of an enumeration."""
		for m, a in enumerate(seq):
			if m % self.nshards == self.shard:
				yield a

	def gen(self, name):
		"""Records written by the specification (see GEN)."""
		with open(os.path.join(self.scratch, 'gen', name)) as inp:
			return [json.loads(line) for line in inp]


class CallTimeout(BaseException):
	pass


def _alarm(*_):
	raise CallTimeout()


def safeexecute(mod, inp):
	"""Run execute; exceptions become part of the record."""
	signal.signal(signal.SIGALRM, _alarm)
	signal.alarm(getattr(mod, 'CALLTIMEOUT', 60))
	try:
		out = mod.execute(json.loads(json.dumps(inp)))
		err = ''
	except CallTimeout:
		out, err = {}, 'timeout'
	except RecursionError:
		out, err = {}, 'RecursionError'
	except (Exception, SystemExit) as exc:
		if os.environ.get('VF_DEBUG'):
			import traceback
			traceback.print_exc()
		out, err = {}, '%s: %s' % (exc.__class__.__name__, str(exc)[:200])
	finally:
		signal.alarm(0)
	return dict(inp=inp, out=out, err=err)


def flat(obj):
	"""Make obj acceptable to the JSON reader of TLC (no null, no floats)."""
	if obj is None:
		return 'None'
	elif isinstance(obj, bool) or isinstance(obj, str):
		return obj
	elif isinstance(obj, int):
		if -2**31 < obj < 2**31:
			return obj
		return 'BIGINT'
	elif isinstance(obj, float):
		return 'FLOAT:%r' % obj
	elif isinstance(obj, dict):
		return {str(k): flat(v) for k, v in obj.items()}
	elif isinstance(obj, (list, tuple)):
		return [flat(v) for v in obj]
	elif isinstance(obj, (set, frozenset)):
		return [flat(v) for v in sorted(obj)]
	return 'OBJ:' + repr(obj)


def perturb(obj, rng):
	"""Change one leaf or drop one element of a JSON value, or None."""
	places = []

	def walk(parent, key, val):
		if isinstance(val, dict):
			for k in val:
				walk(val, k, val[k])
		elif isinstance(val, list):
			if val:
				places.append((parent, key, 'drop'))
			for k, v in enumerate(val):
				walk(val, k, v)
		else:
			places.append((parent, key, 'leaf'))
	top = [obj]
	walk(top, 0, obj)
	if not places:
		return None
	parent, key, kind = rng.choice(places)
	val = parent[key]
	if kind == 'drop':
		del val[rng.randrange(len(val))]
	elif isinstance(val, bool):
		parent[key] = not val
	elif isinstance(val, int):
		parent[key] = val + rng.choice([1, -1, 2])
	else:
		parent[key] = str(val) + 'X'
	return top[0]


def drive(pid, tier, seed, shard, nshards, scratch):
	"""Driver subprocess: generate inputs, run the real code, write traces."""
	sys.setrecursionlimit(5000)
	mod = loadcheck(pid)
	ctx = Ctx(pid, tier, seed, shard, nshards, scratch)
	base = os.path.join(scratch, 'trace%d' % shard)
	work = os.path.join(scratch, 'work%d' % shard)
	os.makedirs(work, exist_ok=True)
	os.chdir(work)
	files, counts = {}, {}
	seen, nontrivial, total = set(), 0, 0
	ops, samples = {}, []
	corrupted = []
	crng = random.Random('corrupt/%s/%d' % (seed, shard))
	budget = getattr(mod, 'BUDGET', {}).get(tier,
			60 if tier == 'quick' else 300)
	t0 = time.time()
	truncated = False
	progress = open(base + '.last', 'w')
	for inp in mod.inputs(ctx):
		if time.time() - t0 > budget:
			truncated = True
			break
		inp = flat(inp)
		key = json.dumps(inp, sort_keys=True)
		h = hash(key)
		if h in seen:
			continue
		seen.add(h)
		progress.seek(0)
		progress.truncate()
		progress.write(key)
		progress.flush()
		rec = flat(safeexecute(mod, inp))
		line = json.dumps(rec)
		spec = mod.SPEC if isinstance(mod.SPEC, str) else mod.SPEC[inp['op']]
		if spec not in files:
			files[spec] = open('%s.%s.ndjson' % (base, spec), 'w')
			counts[spec] = 0
		files[spec].write(line + '\n')
		counts[spec] += 1
		total += 1
		op = str(inp.get('op', ''))
		ops[op] = ops.get(op, 0) + 1
		if not hasattr(mod, 'nontrivial') or mod.nontrivial(
				rec['inp'], rec['out']):
			nontrivial += 1
		if len(samples) < 3 and len(line) < 1500 and crng.random() < 0.2:
			samples.append(rec)
		if (not rec['err'] and rec['out'] and len(corrupted) < 60
				and crng.random() < 0.3):
			rec2 = json.loads(line)
			out = perturb(rec2['out'], crng)
			if out is not None and out != rec['out']:
				rec2['out'] = out
				corrupted.append((spec, rec2))
	for fh in files.values():
		fh.close()
	for spec, rec in corrupted:
		with open('%s.%s.corrupt' % (base, spec), 'a') as out:
			out.write(json.dumps(rec) + '\n')
	with open(base + '.stats', 'w') as out:
		json.dump(dict(counts=counts, total=total, nontrivial=nontrivial,
				ops=ops, samples=samples, truncated=truncated,
				seconds=time.time() - t0), out)
	progress.seek(0)
	progress.truncate()
	progress.close()


def knownfindings(pid):
	"""Findings recorded for property: list of dicts (see known_findings)."""
	fn = os.path.join(VERIF, 'known_findings.jsonl')
	res = []
	if os.path.exists(fn):
		with open(fn) as inp:
			for line in inp:
				line = line.strip()
				if line and not line.startswith('#'):
					rec = json.loads(line)
					if rec.get('property') == pid and rec.get(
							'status') == 'known':
						res.append(rec)
	return res


def main(argv=None):
	ap = argparse.ArgumentParser()
	ap.add_argument('pid')
	ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
	ap.add_argument('--replay')
	ap.add_argument('--keep', action='store_true')
	ap.add_argument('--nocorrupt', action='store_true')
	ap.add_argument('--drive', nargs=3)
	args = ap.parse_args(argv)
	seed = int(os.environ.get('VERIF_SEED', '1') or 1)
	if args.drive:
		shard, nshards, scratch = args.drive
		drive(args.pid, args.tier, seed, int(shard), int(nshards), scratch)
		return 0
	t0 = time.time()
	mod = loadcheck(args.pid)
	scratch = tempfile.mkdtemp(prefix='vf_%s_' % args.pid)
	try:
		return check(args, mod, seed, scratch, t0)
	except HarnessError as err:
		print('ERROR', args.pid, err)
		return 2
	finally:
		if not args.keep:
			shutil.rmtree(scratch, ignore_errors=True)
		else:
			print('kept', scratch)


def modelcheck(mod, scratch, tier):
	"""Model-check the specification itself."""
	models = list(getattr(mod, 'MODELS', []))
	if tier == 'thorough':
		models += list(getattr(mod, 'MODELS_THOROUGH', []))

	def one(arg):
		m, (spec, cfg) = arg
		meta = os.path.join(scratch, 'mc%d' % m)
		os.makedirs(meta)
		code, out, timedout = tlc(spec, cfg, meta,
				workers=max(1, NPROC // max(1, len(models))),
				timeout=800, heap='4g')
		if code != 0 or timedout:
			raise HarnessError('model %s/%s: TLC exit %s%s\n%s' % (spec, cfg,
					code, ' (timeout)' if timedout else '', out[-4000:]))
		s, t = tlcstates(out)
		return dict(spec=spec, cfg=cfg, states=s, transitions=t)
	with ThreadPoolExecutor(4) as pool:
		return list(pool.map(one, enumerate(models)))


def generate(mod, scratch):
	os.makedirs(os.path.join(scratch, 'gen'), exist_ok=True)

	def one(arg):
		m, (spec, cfg, name) = arg
		meta = os.path.join(scratch, 'gen%d' % m)
		os.makedirs(meta)
		code, out, timedout = tlc(spec, cfg, meta, timeout=600, heap='4g',
				env={'OUT': os.path.join(scratch, 'gen', name)})
		if code != 0 or timedout:
			raise HarnessError('generation %s/%s: TLC exit %s\n%s' % (
					spec, cfg, code, out[-4000:]))
		s, t = tlcstates(out)
		return dict(spec=spec, cfg=cfg, states=s, transitions=t)
	with ThreadPoolExecutor(4) as pool:
		return list(pool.map(one, enumerate(getattr(mod, 'GEN', []))))


def driverenv(scratch):
	env = dict(os.environ)
	env['PYTHONPATH'] = os.path.join(scratch, 'src')
	env['PYTHONHASHSEED'] = '0'
	env['PYTHONDONTWRITEBYTECODE'] = '1'
	env['OMP_NUM_THREADS'] = '1'
	env['OPENBLAS_NUM_THREADS'] = '1'
	env['VF_SCRATCH'] = scratch
	return env


def writereplay(pid, rec, clauses, spec):
	os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
	h = hashlib.sha1(json.dumps(rec['inp'], sort_keys=True).encode()
			).hexdigest()[:10]
	path = os.path.join(VERIF, 'replay', '%s-%s.json' % (pid, h))
	with open(path, 'w') as out:
		json.dump(dict(property=pid, spec=spec, clauses=clauses,
				record=rec), out, indent=1)
	return path


def ismatch(finding, rec, clauses):
	"""Does a recorded finding explain exactly this failure?"""
	if 'inp' in finding:
		if finding['inp'] != rec['inp']:
			return False
	elif 'inputs' in finding:
		if rec['inp'] not in finding['inputs']:
			return False
	else:
		return False
	return ('clauses' not in finding
			or set(clauses) <= set(finding['clauses']))


def check(args, mod, seed, scratch, t0):
	pid, tier = args.pid, args.tier
	pool = ThreadPoolExecutor(3)
	fmc = pool.submit(modelcheck, mod, scratch, tier)
	fgen = pool.submit(generate, mod, scratch)
	build(os.path.join(scratch, 'src'), mod.MODULES)
	gens = fgen.result()
	env = driverenv(scratch)
	me = os.path.abspath(__file__)
	violations = []  # (rec, clauses, spec)
	nshards = getattr(mod, 'SHARDS', NPROC)
	if args.replay:
		with open(args.replay) as inp:
			old = json.load(inp)
		code = ('import sys, json; sys.path.insert(0, %r); import vf;'
				'mod = vf.loadcheck(%r);'
				'print("RECORD " + json.dumps(vf.flat(vf.safeexecute(mod,'
				'json.load(open(%r))["record"]["inp"]))))' % (
				os.path.dirname(me), pid, args.replay))
		work = os.path.join(scratch, 'work')
		os.makedirs(work)
		rc, out, _ = run([VENVPY, '-c', code], 300, env=env, cwd=work)
		m = re.search(r'^RECORD (.*)$', out, re.M)
		if not m:
			print(out)
			print('VIOLATION property=%s replay=%s' % (pid, args.replay))
			return 1
		fn = os.path.join(scratch, 'replay.ndjson')
		with open(fn, 'w') as o:
			o.write(m.group(1) + '\n')
		meta = os.path.join(scratch, 'rt')
		os.makedirs(meta)
		bad, _, _ = tracecheck(old['spec'], 'Trace.cfg', fn, 1, meta, 300)
		print(m.group(1))
		print(bad)
		if bad:
			print('VIOLATION property=%s replay=%s' % (pid, args.replay))
			return 1
		return 0

	limit = 400 if tier == 'quick' else 780

	def shard(s):
		return run([VENVPY, me, pid, '--tier', tier, '--drive', str(s),
				str(nshards), scratch], limit, env=env)
	with ThreadPoolExecutor(NPROC) as p2:
		results = list(p2.map(shard, range(nshards)))
	stats = []
	for s, (code, out, timedout) in enumerate(results):
		base = os.path.join(scratch, 'trace%d' % s)
		if code == 0:
			with open(base + '.stats') as inp:
				stats.append(json.load(inp))
			continue
		last = ''
		if os.path.exists(base + '.last'):
			with open(base + '.last') as inp:
				last = inp.read()
		if last and (timedout or (code is not None and code < 0)):
			what = ('no answer within %ds' % limit if timedout
					else 'killed by signal %d' % -code)
			violations.append((dict(inp=json.loads(last), out={}, err=what),
					['crash: ' + what], 'driver'))
		else:
			# e.g. the package cannot be imported
			raise HarnessError('driver shard %d exit %s\n%s' % (
					s, code, out[-4000:]))
	jobs = []
	for s, fnstats in enumerate(stats):
		pass
	for s in range(nshards):
		for fn in sorted(glob.glob(os.path.join(
				scratch, 'trace%d.*.ndjson' % s))):
			spec = os.path.basename(fn).split('.')[1]
			with open(fn) as inp:
				n = sum(1 for _ in inp)
			jobs.append((spec, fn, n, False))
		if not args.nocorrupt:
			for fn in sorted(glob.glob(os.path.join(
					scratch, 'trace%d.*.corrupt' % s)))[:1 if s else 2]:
				spec = os.path.basename(fn).split('.')[1]
				with open(fn) as inp:
					n = sum(1 for _ in inp)
				jobs.append((spec, fn, n, True))
	tcfg = getattr(mod, 'TRACECFG', 'Trace.cfg')

	def trace(arg):
		m, (spec, fn, n, corrupt) = arg
		meta = os.path.join(scratch, 'tr%d' % m)
		os.makedirs(meta)
		if corrupt:
			# one TLC evaluation per record is unnecessary: errors restart
			try:
				return tracecheck(spec, tcfg, fn, n, meta, 300)
			except HarnessError:
				return [], 0, 0
		return tracecheck(spec, tcfg, fn, n, meta,
				400 if tier == 'quick' else 780)
	tstates = ttrans = nchecked = 0
	ncorrupt = ndetected = 0
	with ThreadPoolExecutor(NPROC) as p2:
		for (spec, fn, n, corrupt), (bad, s, t) in zip(jobs,
				p2.map(trace, enumerate(jobs))):
			if corrupt:
				hits = {a for a, _ in bad}
				if hits and len(bad) > 6 and any(
						'malformed' in c[0] for _, c in bad):
					n = max(hits)
				ncorrupt += n
				ndetected += len(hits)
				continue
			tstates += s
			ttrans += t
			nchecked += n
			if bad:
				with open(fn) as inp:
					recs = inp.read().split('\n')
				for idx, clauses in bad:
					violations.append((json.loads(recs[idx - 1]), clauses,
							spec))
			if s < n and not bad:
				raise HarnessError('%s: %d of %d records checked' % (
						spec, s, n))
	mcs = fmc.result()
	total = sum(a['total'] for a in stats)
	ops = {}
	for a in stats:
		for k, v in a['ops'].items():
			ops[k] = ops.get(k, 0) + v
	known = knownfindings(pid)
	new, hit = [], {}
	for rec, clauses, spec in violations:
		for m, f in enumerate(known):
			if ismatch(f, rec, clauses):
				hit[m] = hit.get(m, 0) + 1
				break
		else:
			new.append((rec, clauses, spec))
	for m, f in enumerate(known):
		print('KNOWN-FINDING: property=%s %s%s' % (pid, f['what'],
				'' if m in hit else ' (input not reached in this run)'))
	evidence = dict(property=pid, tier=tier, seed=seed,
			level=getattr(mod, 'LEVEL', 'model_checking'),
			coverage=dict(
				states=sum(a['states'] for a in mcs + gens) + tstates,
				transitions=sum(a['transitions'] for a in mcs + gens) + ttrans,
				traces_validated_against_impl=nchecked,
				model_runs=mcs, generation_runs=gens,
				trace_states=tstates,
				records_by_operation=ops,
				nontrivial_records=sum(a['nontrivial'] for a in stats),
				corrupted_records=ncorrupt,
				corrupted_records_rejected=ndetected,
				shards_stopped_by_budget=sum(
					1 for a in stats if a['truncated']),
				samples=[r for a in stats for r in a['samples']][:4]),
			assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
			wall_s=round(time.time() - t0, 2),
			violations=len(new))
	os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
	with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as out:
		json.dump(evidence, out, indent=1)
	summary = {}
	for rec, clauses, spec in new:
		for c in clauses:
			summary.setdefault((str(rec['inp'].get('op', '')), c), []).append(
					(rec, clauses, spec))
	shown = set()
	for (op, c), lst in sorted(summary.items())[:8]:
		rec, clauses, spec = min(lst, key=lambda a: len(json.dumps(a[0])))
		path = writereplay(pid, rec, clauses, spec)
		print('  %dx op=%s clause=%s err=%s' % (len(lst), op, c, rec['err']))
		if path not in shown:
			shown.add(path)
			print('VIOLATION property=%s replay=%s' % (pid, path))
	print('%s %s: %d records, %d model states, %d trace states, '
			'%d/%d corruptions rejected, %d violations, %.1fs' % (
			pid, tier, nchecked, sum(a['states'] for a in mcs + gens),
			tstates, ndetected, ncorrupt, len(new), time.time() - t0))
	return 1 if new else 0


if __name__ == '__main__':
	sys.exit(main())

"""Placeholders for compiled modules which code under test imports but does
not call, so that they need not be built."""
import importlib
import sys
import types


class Placeholder(types.ModuleType):
	def __getattr__(self, name):
		if name.startswith('__'):
			raise AttributeError(name)

		class Missing(object):
			def __init__(self, *_args, **_kwargs):
				raise ImportError('%s.%s was not built' % (
						self.__module__, name))
		return Missing


def install(names=('containers', 'pcfg', 'plcfrs', 'kbest', 'coarsetofine',
		'disambiguation', 'estimates', '_fragments')):
	import discodop
	for name in names:
		full = 'discodop.' + name
		if full in sys.modules:
			continue
		try:
			importlib.import_module(full)
		except ImportError:
			sys.modules[full] = Placeholder(full)
			setattr(discodop, name, sys.modules[full])

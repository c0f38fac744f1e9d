"""Translator validation: the repository's own tests over the rewritten package."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import pytest
from symex import rewrite, sxetree, sxre, load
from symex.engine import E
top, et = sxetree.make_module()
rewrite.OVERRIDES['lxml'] = top
rewrite.OVERRIDES['re'] = sxre.make_module()
if '--dt' in sys.argv:
    sys.argv.remove('--dt')
    load._symbolic_datetime()
sys.modules['lxml'] = top; sys.modules['lxml.etree'] = et
rewrite.install({'ezodf': ('/repo', True)})
E.start_path(())
os.chdir('/repo')
sys.exit(pytest.main(['-q', '-p', 'no:cacheprovider', '-x' if 0 else '-q', 'tests'] + sys.argv[1:]))

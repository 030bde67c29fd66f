"""Run /repo's own tests with the stand-ins (development aid)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
env.setup(optimize=True)
import pytest
os.chdir(env.REPO)
sys.exit(pytest.main(['-q', '-p', 'no:cacheprovider'] + sys.argv[1:]))

"""Checks that the tools the checks use are there.  Everything else is built by
each check from /repo's working tree in a scratch directory."""
import subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common
for cmd in (['java', '-version'], ['gcc', '--version'], [common.PY, '--version']):
    subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
for jar in common.JARS.split(':'):
    assert os.path.exists(jar), jar
common.build()
print('ready')

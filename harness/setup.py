"""Nothing has to be built (the checks import /repo's Python sources); only verifies that the tools are there"""
import subprocess
import sys

from run import HERE, PY, env_for

code = ("import sys; sys.path[:0]=[%r]; import harness.core, hypothesis, pyvis; print('python', sys.version.split()[0], "
        "'hypothesis', hypothesis.__version__)" % HERE.rsplit('/', 1)[0])
sys.exit(subprocess.run([PY, "-c", code], env=env_for(0, "quick")).returncode)

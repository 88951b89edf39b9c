import os
import subprocess
import sys
import tempfile

from mc import harness


def preload_shim():
    """compile the file-system shim and start over with it loaded"""
    d = tempfile.mkdtemp(prefix='gemverif-shim-')
    so = os.path.join(d, 'fsshim.so')
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'native', 'fsshim.c')
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-w', '-o', so, src, '-ldl'], check=True)
    env = dict(os.environ, LD_PRELOAD=so, GEMVERIF_SHIM=so)
    rc = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'mc.entry'] + sys.argv[1:], env=env).returncode
    os.unlink(so)
    os.rmdir(d)
    sys.exit(rc)


if __name__ == '__main__':
    mod = 'mc.checks.' + sys.argv[1].lower()
    src = open(os.path.join(harness.VERIF, 'mc', 'checks', sys.argv[1].lower() + '.py')).read()
    if 'NEEDS_SHIM = True' in src and not os.environ.get('GEMVERIF_SHIM'):
        preload_shim()
    sys.exit(harness.main(mod, sys.argv[2:]))

# Build what the checks run from /repo's current working tree, in a scratch
# directory: a copy of the package la with cflabel built from its .pyx.
import os, shutil, subprocess, tempfile

REPO = os.environ.get('LA_REPO', '/repo')


class BuildError(Exception):
    pass


def env27():
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0; printf "PYBIN=%s\\0" "$PY"'], stdout=subprocess.PIPE, check=True).stdout
    e = dict(z.split('=', 1) for z in out.decode().split('\0') if '=' in z)
    py = e.get('PYBIN') or '/opt/py27/usr/bin/python2.7'
    e.pop('PYBIN', None)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONHASHSEED'] = '0'
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
        e[k] = '1'
    return py, e


SETUP = '''
from distutils.core import setup
from distutils.extension import Extension
import numpy
setup(name='x', ext_modules=[Extension('cflabel', ['cflabel.c'], include_dirs=[numpy.get_include()])], script_args=['build_ext', '--inplace'])
'''


def build(need_c=True):
    "-> (scratch dir holding la, python2.7, environment)"
    py, env = env27()
    d = tempfile.mkdtemp(prefix='laverif_build')
    shutil.copytree(os.path.join(REPO, 'la'), os.path.join(d, 'la'),
                    ignore=shutil.ignore_patterns('*.so', '*.pyc', '__pycache__', 'tests'))
    # some modules import la.*.tests: keep the packages that exist importable
    pyx = os.path.join(d, 'la', 'src', 'cflabel.pyx')
    built = False
    if need_c and os.path.exists(pyx):
        b = os.path.join(d, 'build')
        os.mkdir(b)
        shutil.copy(pyx, b)
        open(os.path.join(b, 'setup.py'), 'w').write(SETUP)
        r = subprocess.run([py, '-m', 'cython', 'cflabel.pyx', '-o', 'cflabel.c'], cwd=b, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 0:
            r = subprocess.run([py, 'setup.py'], cwd=b, env=dict(env, CFLAGS=env.get('CFLAGS', '') + ' -w'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            shutil.rmtree(d)
            raise BuildError('cflabel does not build:\n' + r.stdout.decode(errors='replace')[-3000:])
        for f in os.listdir(b):
            if f.endswith('.so'):
                shutil.copy(os.path.join(b, f), os.path.join(d, 'la', 'cflabel.so'))
                built = True
    return d, py, env, built


def clean(d):
    shutil.rmtree(d, ignore_errors=True)

"""helpers for demonstrations; run with cwd = the repository after its build"""
import os, re, subprocess, sys, tempfile, atexit, shutil
REPO = os.getcwd()
T = tempfile.mkdtemp(prefix='demo')
atexit.register(shutil.rmtree, T, True)
BT = REPO + '/_build/btyacc/yacc'
Y = REPO + '/_build/yacc/yacc'
LEMON = REPO + '/_build/lemon/lemon'
LEMPAR = REPO + '/lemon/lempar.c'


def sh(cmd, cwd=T, inp=None, timeout=60, env=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        return subprocess.run(cmd, cwd=cwd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e,
                              encoding='latin-1')
    except subprocess.TimeoutExpired:
        bad('timeout: %s' % cmd)


def write(name, text):
    with open(os.path.join(T, name), 'w', encoding='latin-1') as f:
        f.write(text)


def read(name):
    with open(os.path.join(T, name), encoding='latin-1') as f:
        return f.read()


def bad(msg):
    print('BROKEN:', msg)
    sys.exit(1)


def ok():
    sys.exit(0)


def yacc(text, *opts, tool=None, name='g.y'):
    write(name, text)
    return sh([tool or BT] + list(opts) + [name])


def lemon(text, *opts, name='g.y', tool=None):
    write(name, text)
    return sh([tool or LEMON, '-T' + LEMPAR] + list(opts) + [name])


def cc(src, exe='p', *flags):
    p = sh(['gcc', '-w', '-O0'] + list(flags) + [src, '-o', exe])
    if p.returncode:
        bad('compile: ' + p.stderr[:500])
    return os.path.join(T, exe)


def asan(variant='byacc'):
    """a sanitized build of byacc or lemon in the scratch directory"""
    if variant == 'lemon':
        p = sh(['gcc', '-w', '-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-o', T + '/lemon-asan', 'lemon.c'] +
               [x for x in os.listdir(REPO + '/lemon') if x.endswith('.c') and x not in ('lemon.c', 'lempar.c') and False], cwd=REPO + '/lemon', timeout=200)
        if p.returncode:
            bad('compile: ' + p.stderr[:500])
        return T + '/lemon-asan'
    shutil.copytree(REPO + '/_build/btyacc', T + '/src')
    for f in os.listdir(T + '/src'):
        if f.endswith('.o') or f == 'yacc':
            os.remove(T + '/src/' + f)
    p = sh(['make', '-j8', 'yacc', 'EXTRA_CFLAGS=-w -g -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined', 'CC=gcc',
            'LDFLAGS=-fsanitize=address,undefined'], cwd=T + '/src', timeout=200)
    if p.returncode:
        bad('build: ' + p.stderr[:500])
    return T + '/src/yacc'


ASAN = {'ASAN_OPTIONS': 'detect_leaks=0'}

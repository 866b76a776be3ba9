"""Builds the tools under test from /repo's working tree into /verif/build (git-ignored)."""
import fcntl, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

BY_EXCL = {'yacc', '.configured', 'config.log', 'config.status', 'config.cache'}
ASAN = '-g -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer'


def _files(d, excl=()):
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        if os.path.isfile(p) and n not in excl and not n.endswith(('.o', '.skel')):
            yield n, p


def _hash(paths, extra):
    h = hashlib.blake2b(digest_size=10)
    h.update(extra.encode())
    for n, p in paths:
        h.update(n.encode() + b'\0')
        h.update(open(p, 'rb').read())
        h.update(b'\0')
    return h.hexdigest()


def _run(cmd, cwd):
    e = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'LC_ALL': 'C', 'HOME': '/nonexistent'}
    p = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stderr.write('build of %s failed:\n%s\n' % (cwd, p.stdout.decode('latin-1')[-3000:]))
        sys.exit(3)


def _cached(kind, key, make):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock.' + kind), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(BUILD, '%s-%s' % (kind, key))
        if not os.path.exists(os.path.join(d, '.done')):
            now = time.time()
            for n in os.listdir(BUILD):          # keep a few recent trees only
                p = os.path.join(BUILD, n)
                if re.fullmatch(re.escape(kind) + r'-[0-9a-f]{20}', n) and now - os.path.getmtime(p) > 7200:
                    shutil.rmtree(p, ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            make(d)
            open(os.path.join(d, '.done'), 'w').close()
        return d


def byacc(variant, asan=False):
    """path of the yacc binary; variant is 'btyacc' or 'yacc'"""
    kind = variant + ('-asan' if asan else '')
    flags = ASAN if asan else '-g -O1'
    src = list(_files(REPO + '/byacc', BY_EXCL))
    key = _hash(src, kind + flags)

    def make(d):
        for n, p in src:
            shutil.copy(p, d)
        cmd = ['make', '-j8', 'yacc', 'EXTRA_CFLAGS=' + flags, 'CC=gcc']
        if variant == 'yacc':
            p = os.path.join(d, 'config.h')
            s = open(p, encoding='latin-1').read()
            s, n = re.subn(r'(?m)^#define YYBTYACC .*$', '/* #undef YYBTYACC */', s)
            open(p, 'w', encoding='latin-1').write(s)
            cmd.append('SKELETON=yaccpar')
        _run(cmd, d)
    return os.path.join(_cached(kind, key, make), 'yacc')


def lemon(asan=False):
    """(lemon binary, template)"""
    kind = 'lemon' + ('-asan' if asan else '')
    flags = ASAN if asan else '-g -O1'
    src = [(n, p) for n, p in _files(REPO + '/lemon', {'lemon'})]
    key = _hash(src, kind + flags)

    def make(d):
        for n, p in src:
            shutil.copy(p, d)
        _run(['gcc', '-w'] + flags.split() + ['-o', 'lemon', 'lemon.c'], d)
    d = _cached(kind, key, make)
    return os.path.join(d, 'lemon'), os.path.join(d, 'lempar.c')


def csource(kind, sources, flags, inputs=()):
    """build a C program of ours (kept in /verif) that may include /repo sources"""
    src = [(os.path.basename(p), p) for p in list(sources) + list(inputs)]
    key = _hash(src, kind + flags)

    def make(d):
        _run(flags.split() + ['-o', kind] + list(sources), d)
    return os.path.join(_cached(kind, key, make), kind)


if __name__ == '__main__':
    for v in ('btyacc', 'yacc'):
        for a in (False, True):
            print(byacc(v, a))
    for a in (False, True):
        print(lemon(a))

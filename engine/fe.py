"""Front-end driver: runs cxxdump on translation units of /repo and caches the export by content hash."""
import hashlib, json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
from ev import TU

BASE = ['-std=c++17', '-w', '-fno-access-control', '-DTFLITE_WITH_RUY', '-I' + REPO, '-I' + VERIF + '/stubs/tfl']
XSYS = ['-isystem', VERIF + '/stubs/xarch', '-isystem', '/usr/include/c++/13',
        '-isystem', '/usr/include/x86_64-linux-gnu/c++/13', '-isystem', '/usr/lib/llvm-18/lib/clang/18/include',
        '-isystem', '/usr/include/x86_64-linux-gnu', '-isystem', '/usr/include', '-nostdinc']


class FrontEndError(Exception):
    pass


def ensure_tool():
    exe = VERIF + '/build/cxxdump'
    src = HERE + '/cxxdump.cc'
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        os.makedirs(VERIF + '/build', exist_ok=True)
        tmp = exe + '.tmp%d' % os.getpid()
        subprocess.check_call(['clang++', '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                               '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18', '-Wl,-rpath,/usr/lib/llvm-18/lib'])
        os.replace(tmp, exe)
    return exe


_gen = None


def gendir():
    """tablegen-derived dialect stand-ins, regenerated from the current lce_ops.td"""
    global _gen
    if _gen is None:
        import tempfile, atexit, shutil
        _gen = tempfile.mkdtemp(prefix='lqgen')
        atexit.register(shutil.rmtree, _gen, True)
        r = subprocess.run([sys.executable, HERE + '/gen_lq.py', REPO, VERIF + '/stubs', _gen], capture_output=True, text=True)
        if r.returncode:
            raise FrontEndError('lce_ops.td: ' + r.stderr[-600:])
    return _gen


def flags(mode):
    if mode == 'host':
        return BASE
    if mode == 'aarch64':
        return BASE + ['-target', 'aarch64-linux-gnu'] + XSYS
    if mode == 'arm32':
        return BASE + ['-target', 'armv7-linux-gnueabihf', '-mfpu=neon'] + XSYS
    if mode == 'thumb':
        return BASE + ['-target', 'thumbv7-linux-gnueabihf', '-mfpu=neon', '-mthumb'] + XSYS
    if mode == 'mlir':
        return ['-std=c++17', '-w', '-fno-access-control', '-DTFLITE_WITH_RUY', '-I' + REPO, '-I' + gendir(), '-I' + VERIF + '/stubs/mlir', '-I' + VERIF + '/stubs/tfl',
                '-isystem', '/usr/lib/llvm-18/include', '-fno-rtti', '-fexceptions']
    raise Exception(mode)


def dump(path, mode='host', extra=(), roots=None):
    exe = ensure_tool()
    roots = (roots or (REPO + ':' + VERIF + '/stubs/tfl')) + (':' + gendir() if mode == 'mlir' else '')
    p = path if path.startswith('/') else REPO + '/' + path
    if not os.path.exists(p):
        raise FrontEndError('missing source file ' + path)
    r = subprocess.run([exe, roots, p, '--'] + flags(mode) + list(extra), capture_output=True, text=True)
    try:
        d = json.loads(r.stdout)
    except Exception:
        raise FrontEndError('cannot analyse %s: %s' % (path, r.stderr[-800:]))
    if d['errors']:
        raise FrontEndError('%s does not compile: %s' % (path, r.stderr[:800]))
    return TU(d)


def snippet(code, mode='host', **k):
    """dump a small driver file that instantiates templates of the repo"""
    import tempfile
    fd, p = tempfile.mkstemp(suffix='.cc', prefix='lqdrv')
    os.write(fd, code.encode())
    os.close(fd)
    try:
        return dump(p, mode, roots=REPO + ':' + VERIF + '/stubs/tfl:' + p, **k)
    finally:
        os.unlink(p)


if __name__ == '__main__':
    ensure_tool()
    print('built', VERIF + '/build/cxxdump')

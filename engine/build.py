"""Compile the current /repo sources to LLVM IR and load them (no code of /repo is run)."""
import os, sys, glob, json, subprocess, tempfile, shutil, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('SHR_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
IRDUMP = os.path.join(BUILD, 'irdump')
LIBLP = os.path.join(BUILD, 'liblp.so')

class BuildError(Exception): pass

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode: raise BuildError('%s failed:\n%s' % (' '.join(cmd), r.stderr.decode(errors='replace')[:4000]))
    return r.stdout

def tools():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(ROOT, 'ir', 'irdump.cpp')
    if not os.path.exists(IRDUMP) or os.path.getmtime(IRDUMP) < os.path.getmtime(src):
        fl = subprocess.check_output(['llvm-config-18', '--cxxflags', '--ldflags', '--libs']).decode().split()
        run(['clang++', '-O1', src, '-o', IRDUMP + '.tmp%d' % os.getpid()] + fl + ['-lLLVM-18'])
        os.rename(IRDUMP + '.tmp%d' % os.getpid(), IRDUMP)
    src = os.path.join(HERE, 'lp.cpp')
    if not os.path.exists(LIBLP) or os.path.getmtime(LIBLP) < os.path.getmtime(src):
        run(['g++', '-O2', '-shared', '-fPIC', '-o', LIBLP + '.tmp%d' % os.getpid(), src, '-lgmpxx', '-lgmp'])
        os.rename(LIBLP + '.tmp%d' % os.getpid(), LIBLP)
    import lin
    lin.load_lp(LIBLP)

CFLAGS = ['-g', '-O0', '-fno-discard-value-names', '-c', '-emit-llvm', '-Xclang', '-disable-O0-optnone',
          '-Wno-everything', '-std=gnu11']

def load(which):
    """which: 'lib' (src + lib without programs), or a program name such as 'shr-tool', 'bw-tool'"""
    tools()
    from core import Module
    tmp = tempfile.mkdtemp(prefix='shr-ir-')
    try:
        inc = ['-I%s/src' % REPO, '-I%s/lib' % REPO, '-I%s/util' % REPO]
        lib = []; progs = {}
        dirs = ['src', 'lib'] + (['util'] if which != 'lib' else [])
        for d in dirs:
            for c in sorted(glob.glob('%s/%s/*.c' % (REPO, d))):
                bc = os.path.join(tmp, '%s_%s.bc' % (d, os.path.basename(c)))
                run(['clang'] + CFLAGS + inc + [c, '-o', bc])
                js = json.loads(run([IRDUMP, bc, '/dev/stdout']))
                if 'main' in js['funcs']: progs[os.path.basename(c)[:-2]] = (bc, d)
                else: lib.append((bc, d))
        if which == 'lib':
            files = [b for b, _ in lib]
        else:
            if which not in progs: raise BuildError('no program ' + which)
            files = [progs[which][0]] + [b for b, d in lib if d == progs[which][1]]
        out = os.path.join(tmp, 'all.bc')
        run(['llvm-link-18' if shutil.which('llvm-link-18') else 'llvm-link'] + files + ['-o', out])
        m = Module(json.loads(run([IRDUMP, out, '/dev/stdout'])))
        m.files = [os.path.basename(f) for f in files]
        return m
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    sys.path.insert(0, HERE)
    tools()
    print('tools ready')

"""Compile real /repo sources (current working tree) to LLVM IR and load them for the VC generator.
Also: native build of contract harnesses for counterexample replay."""
import os, re, json, subprocess, hashlib, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VC_REPO', '/repo')
PKGS = {'TimBase':'TimBase/src','DMI':'DMI/src','OCTOPUSSY':'OCTOPUSSY/src','OCTOPython':'OCTOPython/src','MEQ':'MEQ/src',
        'MeqNodes':'MeqNodes/src','MeqServer':'MeqServer/src','VisCube':'VisCube/src','MeqMPI':'MeqMPI/src',
        'AppAgent':'AppAgent/AppAgent/src','AppUtils':'AppAgent/AppUtils/src'}
DEFS = ['-DHAVE_AIPSPP','-DHAVE_QDBM','-DMAKE_LOFAR_SYMBOLS_GLOBAL','-DSTRIP_CUDA','-DUSE_STD_COMPLEX','-DUSE_THREADS','-D_GNU_SOURCE',
        '-DIMPLICIT_CTDS_32BIT','-DNDEBUG']
USES = {'TimBase': [], 'DMI': ['TimBase'], 'OCTOPUSSY': ['TimBase','DMI'], 'VisCube': ['TimBase','DMI'], 'OCTOPython': ['TimBase','DMI','OCTOPUSSY'],
        'MEQ': ['OCTOPUSSY','DMI','TimBase','OCTOPython'], 'MeqNodes': ['TimBase','DMI','VisCube','MEQ','OCTOPython','OCTOPUSSY'],
        'AppAgent': ['TimBase','DMI','OCTOPUSSY','VisCube'], 'AppUtils': ['TimBase','DMI','OCTOPUSSY','VisCube','AppAgent'],
        'MeqMPI': ['TimBase','DMI','OCTOPUSSY','OCTOPython','VisCube','MEQ','MeqNodes','AppAgent','AppUtils'],
        'MeqServer': ['TimBase','DMI','OCTOPython','OCTOPUSSY','VisCube','MeqNodes','MEQ','MeqMPI','AppUtils','AppAgent']}
def package_of(path):
    for p, d in PKGS.items():
        if path.startswith(os.path.join(REPO, d) + os.sep): return p
def package_for(sources):
    """the package a contract unit belongs to: the one built on all the others"""
    ps = [p for p in (package_of(os.path.join(REPO, s)) for s in sources) if p]
    return max(ps, key=lambda p: len(USES[p])) if ps else 'DMI'
RX = re.compile(r'^(\s*)((?:[A-Z][A-Za-z]*(?:<[A-Za-z,]+>)?::)(?:[A-Za-z_]+::)*(?:operator *(?:\*|->)|[a-zA-Z_]+) *;)', re.M)

class BuildError(Exception): pass

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)

def ensure_irdump():
    out = os.path.join(VERIF, 'build', 'irdump')
    src = os.path.join(HERE, 'irdump.cc')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    fl = [f for f in run(['llvm-config-18','--cxxflags']).stdout.split() if f not in ('-fno-exceptions',)]
    tmp = out + '.%d' % os.getpid()
    r = run(['clang++-18','-O1'] + fl + [src,'-o',tmp,'-L/usr/lib/llvm-18/lib','-lLLVM-18'])
    if r.returncode: raise BuildError('irdump: ' + r.stderr[-2000:])
    os.rename(tmp, out)
    return out

class Workspace:
    """scratch dir with include forwarding and the clang header overlay; removed at exit"""
    def __init__(self, keep=False):
        self.dir = tempfile.mkdtemp(prefix='vc.')
        self.keep = keep
        inc = os.path.join(self.dir, 'include'); os.makedirs(inc)
        roots = []
        for p, d in PKGS.items():
            os.symlink(os.path.join(REPO, d), os.path.join(inc, p))
            base = os.path.join(REPO, d)
            for r, _, fs in os.walk(base):
                for f in fs:
                    if not f.endswith('.h'): continue
                    path = os.path.join(r, f)
                    s = open(path, errors='surrogateescape').read()
                    n = RX.sub(r'\1using \2', s)
                    if n != s:
                        o = os.path.join(self.dir, 'vh_' + path.replace('/', '_'))
                        open(o, 'w', errors='surrogateescape').write(n)
                        roots.append({'type':'file','name':path,'external-contents':o})
                        # the same file is reached through the include symlink
                        roots.append({'type':'file','name':os.path.join(inc, p, os.path.relpath(path, base)),'external-contents':o})
        cfg = os.path.join(REPO, 'build/release/include/config.h')
        shutil.copy(cfg if os.path.exists(cfg) else os.path.join(HERE, 'config.h'), os.path.join(inc, 'config.h'))
        # lofar_config.h says which packages a package is built on (CMakeLists of each package)
        for p in PKGS:
            d = os.path.join(self.dir, 'cfg', p); os.makedirs(d)
            open(os.path.join(d, 'lofar_config.h'), 'w').write('#include <config.h>\n' + ''.join('#define HAVE_LOFAR_%s 1\n' % x.upper() for x in [p] + USES[p]))
        os.makedirs(os.path.join(self.dir, 'shim/blitz/llvm'))
        open(os.path.join(self.dir, 'shim/blitz/llvm/bzconfig.h'), 'w').write('#include <blitz/gnu/bzconfig.h>\n')
        self.vfs = os.path.join(self.dir, 'vfs.yaml')
        json.dump({'version':0,'case-sensitive':'true','use-external-names':'false','roots':roots}, open(self.vfs, 'w'))
        self.inc = ['-I'+inc, '-I/usr/include/casacore', '-I/usr/lib/python3/dist-packages/numpy/core/include', '-I/usr/include/python3.12']
        self.compat = ['-include', os.path.join(HERE, 'compat.h')]
        self.irdump = ensure_irdump()
    def cleanup(self):
        if not self.keep: shutil.rmtree(self.dir, ignore_errors=True)
    def clang_flags(self):
        return ['-x','c++','-w','-std=c++17','-fpermissive','-fPIC','-fdelayed-template-parsing','-Wno-c++11-narrowing','-ferror-limit=3',
                '-I'+os.path.join(self.dir,'shim'),'-ivfsoverlay',self.vfs] + DEFS + self.inc + self.compat
    PASSES = 'function(sroa),always-inline,function(sroa,early-cse,simplifycfg,instsimplify,dce)'
    def compile_ir(self, src, prefix=None, extra=(), pkg=None, passes=None):
        """src (absolute) -> parsed json module"""
        prefix = prefix or os.path.basename(src)
        b = os.path.join(self.dir, 'ir_' + re.sub(r'\W', '_', src))
        extra = list(extra) + ['-I' + os.path.join(self.dir, 'cfg', pkg or package_of(src) or 'DMI')]
        r = run(['clang++-18'] + self.clang_flags() + extra + ['-O1','-Xclang','-disable-llvm-passes','-fno-strict-aliasing','-ffp-contract=off','-c','-emit-llvm',src,'-o',b+'.0.bc'])
        if r.returncode: raise BuildError('clang failed on %s:\n%s' % (src, r.stderr[-3000:]))
        r = run([self.irdump, '--prep', b+'.0.bc', b+'.1.bc'])
        if r.returncode: raise BuildError('irdump --prep failed on %s:\n%s' % (src, r.stderr[-3000:]))
        r = run(['opt-18' if shutil.which('opt-18') else '/usr/lib/llvm-18/bin/opt','-passes='+(passes or self.PASSES),b+'.1.bc','-o',b+'.bc'])
        if r.returncode: raise BuildError('opt failed on %s:\n%s' % (src, r.stderr[-3000:]))
        r = run([self.irdump, b+'.bc', prefix])
        if r.returncode: raise BuildError('irdump failed on %s:\n%s' % (src, r.stderr[-3000:]))
        return json.loads(r.stdout)
    def compile_many(self, jobs):
        """jobs: list of (src, prefix, extra)"""
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda j: self.compile_ir(*j), jobs))

def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    return dict(zip(names, r.stdout.split('\n')))

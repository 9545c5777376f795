#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--proof NAME] [--debug] [--mode proof|bounded]
Decides one property: compiles its contract TU together with the real sources of /repo's working tree, generates and
discharges the proof obligations, replays counterexamples on the natively compiled code, writes the evidence file."""
import os, sys, re, json, time, subprocess, argparse, pickle, select, signal, traceback, shutil, glob, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
from build import Workspace, package_for, BuildError, REPO, VERIF, PKGS, DEFS

class Contract:
    def __init__(self, path):
        self.path = path; self.sources = []; self.libs = []; self.opts = {}; self.stubs = {}; self.funcs = {}; self.prop = None
        self.flags = []; self.assumptions = []; self.defines = []; self.rt = []
        for l in open(path):
            m = re.match(r'//\s*@(\w+)\s+(.*?)\s*$', l)
            if not m: continue
            k, v = m.groups()
            if k == 'property': self.prop = v
            elif k == 'sources': self.sources += v.split()
            elif k == 'libs': self.libs += v.split()
            elif k == 'flags': self.flags += v.split()
            elif k == 'runtime': self.rt += v.split()
            elif k == 'option':          # @option <proof|*> key=value ...
                p = v.split(); self.opts.setdefault(p[0], {}).update(x.split('=', 1) for x in p[1:])
            elif k == 'stub':            # @stub <proof-regex|*> <mangled> <function>
                p = v.split(); self.stubs.setdefault(p[0], {})[p[1]] = p[2]
            elif k == 'verifies':        # @verifies <proof> function list
                p = v.split(None, 1); self.funcs[p[0]] = [x.strip() for x in p[1].split(';')]
            elif k == 'assume': self.assumptions.append(v)
    def stubs_of(self, proof):
        out = dict(self.stubs.get('*', {}))
        for k, v in self.stubs.items():
            if k != '*' and re.fullmatch(k, proof): out.update(v)
        return out
    def opt(self, proof, key, default, tier):
        for p in (proof, '*'):
            o = self.opts.get(p, {})
            if tier + '.' + key in o: return type(default)(o[tier + '.' + key])
            if key in o: return type(default)(o[key])
        return default

def contracts_of(prop):
    out = [Contract(p) for p in sorted(glob.glob(os.path.join(VERIF, 'contracts', '*.cc')))]
    return [c for c in out if c.prop == prop]

# ------------------------------------------------------------------------------------------------ symbolic runs
def run_proof(prog, name, mode, bound, timeout_ms, deadline, options, max_unroll=40):
    from interp import Interp, State
    e = Interp(prog, mode=mode, bound=bound, timeout_ms=timeout_ms, deadline=time.time() + deadline, options=options, max_unroll=max_unroll)
    t0 = time.time()
    try:
        fn = prog.funcs['PROOF__' + name]; fn.analyse()
        s = State(); e.enter(s, None, None, fn, [])
        e.run([s], None)
    except TimeoutError: e.res.timeout = True
    except RecursionError: e.res.unsupported.append(('recursion limit of the verifier', name))
    except MemoryError: e.res.unsupported.append(('memory limit', name))
    except Exception as ex:
        if options.get('debug'): traceback.print_exc()
        e.res.unsupported.append(('verifier: %s: %s' % (type(ex).__name__, ex), name))
    e.res.wall = time.time() - t0
    return e.res

def pool(tasks, nproc=8, hard=900):
    """tasks: list of (key, thunk); forks; returns {key: result}"""
    res = {}; running = {}; queue = list(tasks); t0 = time.time()
    while queue or running:
        while queue and len(running) < nproc:
            key, th = queue.pop(0)
            r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    v = th()
                except BaseException as ex:
                    v = ('EXC', repr(ex) + traceback.format_exc())
                try: data = pickle.dumps(v)
                except Exception as ex: data = pickle.dumps(('EXC', repr(ex)))
                with os.fdopen(w, 'wb') as f: f.write(data)
                os._exit(0)
            os.close(w); running[r] = (key, pid, [], time.time())
        rd, _, _ = select.select(list(running), [], [], 1.0)
        for r in rd:
            d = os.read(r, 1 << 20)
            if d: running[r][2].append(d); continue
            key, pid, buf, _ = running.pop(r); os.close(r); os.waitpid(pid, 0)
            try: res[key] = pickle.loads(b''.join(buf))
            except Exception: res[key] = ('EXC', 'verifier process died')
        now = time.time()
        for r in list(running):
            key, pid, buf, st = running[r]
            if now - st > hard:
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(r); running.pop(r); res[key] = ('EXC', 'hard timeout')
    return res

def status(r):
    """proved | refuted | undecided"""
    if isinstance(r, tuple): return 'undecided'
    if any(o[1] == 'refuted' for o in r.obl): return 'refuted'
    if r.unsupported or r.timeout or r.incomplete or any(o[1] != 'discharged' for o in r.obl): return 'undecided'
    if not r.obl or any(not v for v in r.covers.values()): return 'vacuous'
    return 'proved'

# ------------------------------------------------------------------------------------------------ native replay
class Native:
    def __init__(self, ws):
        self.ws = ws; self.bins = {}; self.err = {}; self.built = False
        self.dir = os.path.join(REPO, 'build/release')
    LIBS = {'timbase': 'TimBase/libtimbase.so', 'dmi': 'DMI/libdmi.so', 'octopussy': 'OCTOPUSSY/liboctopussy.so', 'viscube': 'VisCube/libviscube.so',
            'meq': 'MEQ/libmeq.so', 'meqnodes': 'MeqNodes/libmeqnodes.so', 'meqserver': 'MeqServer/libmeqserver.so', 'appagent': 'AppAgent/AppAgent/libappagent.so', 'octopython': 'OCTOPython/octopython.so'}
    CLOSURE = {'timbase': [], 'dmi': ['timbase'], 'octopussy': ['dmi', 'timbase'], 'viscube': ['dmi', 'timbase'], 'meq': ['octopussy', 'dmi', 'timbase', 'viscube'],
               'meqnodes': ['meq', 'octopussy', 'dmi', 'timbase', 'viscube'], 'meqserver': ['appagent', 'meq', 'octopussy', 'octopython', 'dmi', 'timbase', 'viscube'], 'appagent': ['octopussy', 'viscube', 'dmi', 'timbase']}
    # libmeqnodes.so leaves the symbols of these to the executable
    CASA = ['-Wl,--no-as-needed'] + ['-lcasa_' + x for x in 'casa tables measures scimath scimath_f coordinates fits lattices images ms'.split()]
    def build_libs(self, libs):
        """bring the real libraries up to date with the working tree (git-ignored build folder, or a scratch build)"""
        if self.built: return
        targets = [self.LIBS[l] for l in libs]
        env = dict(os.environ, CC='gcc', CXX='g++', HOME=os.environ.get('HOME', '/root'))
        def ninja(d):
            return subprocess.run(['ninja', '-C', d, '-j8'] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env, timeout=600)
        ok = False
        if os.path.exists(os.path.join(self.dir, 'build.ninja')):
            r = ninja(self.dir); ok = r.returncode == 0
            if not ok: self.msg = r.stdout[-1500:]
        if not ok:
            d = os.path.join(self.ws.dir, 'native')
            r = subprocess.run(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Release', '-DPYTHON_EXECUTABLE=/usr/bin/python3',
                '-DCMAKE_CXX_FLAGS=-include %s -DIMPLICIT_CTDS_32BIT' % os.path.join(HERE, 'compat.h'), '-DCASACORE_LIBRARY_casa_components=', '-DCASACORE_LIBRARY_casa_calibration=',
                '-DCASACORE_LIBRARY_casa_msvis=', '-DCASACORE_LIBRARY_casa_synthesis=', '-Wno-dev'] +
                (['-DCMAKE_PROJECT_meqtrees_INCLUDE=/opt/vp/cmake/hook.cmake'] if os.path.exists('/opt/vp/cmake/hook.cmake') else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env)
            if r.returncode: raise BuildError('cmake: ' + r.stdout[-1500:])
            self.dir = d
            r = ninja(d)
            if r.returncode: raise BuildError('ninja: ' + r.stdout[-2500:])
        self.built = True
    def binary(self, c):
        if c.path in self.bins: return self.bins[c.path]
        if c.path in self.err: raise BuildError(self.err[c.path])
        try:
            libs = []
            for l in c.libs:
                for x in [l] + self.CLOSURE[l]:
                    if x not in libs: libs.append(x)
            self.build_libs(libs)
            out = os.path.join(self.ws.dir, 'replay_' + os.path.basename(c.path)[:-3])
            so = [os.path.join(self.dir, self.LIBS[l]) for l in libs]
            rp = ':'.join(sorted({os.path.dirname(s) for s in so}))
            cmd = ['g++', '-O0', '-g', '-std=c++17', '-fpermissive', '-w', '-fno-access-control', '-rdynamic', '-DVC_NATIVE'] + DEFS + c.flags + \
                  ['-I' + HERE, '-I' + os.path.join(self.ws.dir, 'cfg', package_for(c.sources))] + self.ws.inc + self.ws.compat + [c.path, os.path.join(HERE, 'vc_native.cc'), '-o', out] + so + ['-Wl,-rpath,' + rp, '-Wl,-rpath-link,' + rp, '-Wl,--allow-shlib-undefined', '-ldl', '-lpthread'] + (self.CASA if 'meqnodes' in libs else [])
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=300)
            if r.returncode: raise BuildError('native harness: ' + r.stdout[-2500:])
        except (BuildError, subprocess.TimeoutExpired) as ex:
            self.err[c.path] = str(ex); raise BuildError(str(ex))
        self.bins[c.path] = out
        return out
    def replay(self, c, proof, path, safety=False):
        """True: the real code fails on this input; False: it does not; None: precondition not met / cannot tell"""
        b = self.binary(c)
        def go(pre):
            try: r = subprocess.run(pre + [b, proof, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=60, cwd=self.ws.dir)
            except subprocess.TimeoutExpired: return None, 'timeout'
            return r.returncode, r.stdout[-2000:]
        rc, out = go([])
        if rc == 0 and safety:
            rc2, out2 = go(['valgrind', '-q', '--error-exitcode=9'])
            if rc2 == 9: return True, out2
        if rc is None: return True, 'the real code does not terminate on this input (60 s)'
        if rc == 0: return False, out
        if rc == 77: return None, out
        if rc in (1,) or rc < 0: return True, out + ('' if rc == 1 else '\nkilled by signal %d' % -rc)
        return None, out

# ------------------------------------------------------------------------------------------------
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--proof'); ap.add_argument('--mode')
    ap.add_argument('--debug', action='store_true'); ap.add_argument('--keep', action='store_true'); ap.add_argument('--bound', type=int); ap.add_argument('--noreplay', action='store_true')
    ap.add_argument('--list', action='store_true'); ap.add_argument('--smoke', type=int, help='self test: run the contracts on the real code with random inputs')
    a = ap.parse_args()
    t0 = time.time(); prop = a.property; tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cs = contracts_of(prop)
    if not cs: print('no contracts for', prop); sys.exit(2)
    ws = Workspace(keep=a.keep)
    if a.smoke:
        try:
            nat = Native(ws)
            for c in cs:
                b = nat.binary(c)
                for n in re.findall(r'PROOF__(\w+)$', subprocess.run(['nm', '-D', b], stdout=subprocess.PIPE, text=True).stdout, re.M):
                    if a.proof and not re.fullmatch(a.proof, n): continue
                    ok = skip = 0; bad = {}
                    def one(k):
                        try: return k, subprocess.run([b, n], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=dict(os.environ, VC_FUZZ=str(k)), timeout=60)
                        except subprocess.TimeoutExpired: return k, None
                    import concurrent.futures
                    with concurrent.futures.ThreadPoolExecutor(8) as ex:
                        for k, r in ex.map(one, range(1, a.smoke + 1)):
                            if r is None: bad.setdefault('timeout', k)
                            elif r.returncode == 0: ok += 1
                            elif r.returncode == 77: skip += 1
                            else: bad.setdefault('%d %s' % (r.returncode, r.stdout.strip().split('\n')[-1][:150]), k)
                    print('%-28s ok %d skipped %d %s' % (n, ok, skip, 'BAD %s' % bad if bad else ''))
        finally: ws.cleanup()
        return
    try:
        rc = check(prop, cs, ws, tier, seed, a, t0)
    finally:
        ws.cleanup()
    sys.exit(rc)

def load(ws, cs):
    """compile every contract TU and every source once"""
    from engine import Program
    jobs = []; seen = {}
    for c in cs:
        jobs.append((c.path, os.path.basename(c.path), ['-fno-access-control', '-I' + HERE] + c.flags, package_for(c.sources)))
        for s in c.sources:
            p = os.path.join(REPO, s) if not s.startswith('@') else os.path.join(HERE, s[1:])
            if p not in seen:
                seen[p] = len(jobs); jobs.append((p, s, ['-I' + HERE]))
    mods = ws.compile_many(jobs)
    out = []; i = 0
    for c in cs:
        while jobs[i][0] != c.path: i += 1
        pr = Program(); pr.add(mods[i], os.path.basename(c.path))
        for s in c.sources:
            p = os.path.join(REPO, s) if not s.startswith('@') else os.path.join(HERE, s[1:])
            pr.add(mods[seen[p]], s)
        pr.finalize()
        out.append(pr); i += 1
    return out

def check(prop, cs, ws, tier, seed, a, t0):
    try: progs = load(ws, cs)
    except BuildError as ex:
        # the tree does not compile the way the contracts need: nothing can be decided
        print('%s: cannot generate obligations: %s' % (prop, str(ex)[-1500:]))
        evidence(prop, tier, seed, t0, dict(error='sources or contracts do not compile: ' + str(ex)[-600:]), [], [], [], cs, ws)
        return 0
    tasks = []; info = {}
    for c, prog in zip(cs, progs):
        for f in prog.funcs:
            if not f.startswith('PROOF__'): continue
            n = f[7:]
            if a.proof and not re.fullmatch(a.proof, n): continue
            info[(c.path, n)] = (c, prog)
    if a.list: print('\n'.join(n for _, n in info)); return 0
    def thunk(c, prog, n, mode):
        o = {'stubs': c.stubs_of(n), 'debug': a.debug}
        if c.opt(n, 'nosummary', 0, tier): o['no_summary'] = True
        if c.opt(n, 'expand_quant', 0, tier): o['expand_quant'] = True
        if c.opt(n, 'locks', 0, tier): o['locks'] = True
        b = a.bound if a.bound is not None else c.opt(n, 'bound', 3, tier)
        tm = c.opt(n, 'timeout', 10000 if tier == 'quick' else 60000, tier)
        dl = c.opt(n, 'deadline', 120 if tier == 'quick' else 500, tier)
        if mode == 'bounded': dl = c.opt(n, 'bdeadline', 60 if tier == 'quick' else 150, tier)
        return lambda: run_proof(prog, n, mode, b, tm, dl, o, c.opt(n, 'unroll', 40, tier))
    modes = {}
    for k, (c, prog) in info.items():
        m = c.opt(k[1], 'mode', 'proof', tier)
        tasks.append((k, thunk(c, prog, k[1], a.mode or m)))
        modes[k] = a.mode or m
    res = pool(tasks)
    st = {k: status(r) for k, r in res.items()}
    # bounded mode for whatever was not proved: finds concrete counterexamples
    bres = {}
    if not a.mode:
        t2 = [(k, thunk(info[k][0], info[k][1], k[1], 'bounded')) for k in info if st[k] != 'proved' and modes[k] == 'proof']
        bres = pool(t2)
    if a.debug or a.proof:
        for k, r in res.items(): show(k, r, st[k], a.debug)
        for k, r in bres.items(): show(('bounded',) + k, r, status(r), a.debug)
    # ---- verdicts
    nat = Native(ws); viol = []; known = []; notes = []
    kf = load_known(prop)
    rdir = os.path.join(VERIF, 'replays'); 
    for k in info:
        c, prog = info[k]
        if st[k] == 'proved': continue
        cands = []
        for src, r in (('bounded', bres.get(k)), (modes[k], res.get(k))):
            if r is None or isinstance(r, tuple): continue
            for o in r.obl:
                if o[1] == 'refuted': cands.append((src, o))
        seenl = {}; best = None
        for src, o in cands:
            if seenl.get(o[0], 0) >= 3: continue
            seenl[o[0]] = seenl.get(o[0], 0) + 1
            os.makedirs(rdir, exist_ok=True)
            safety = len(o) > 6 and o[6]
            body = '# property %s\n# proof %s (%s)\n# contract %s\n# failed obligation: %s\n# at: %s\n' % (prop, k[1], src, os.path.relpath(c.path, VERIF), o[0], o[5] if len(o) > 5 else '')
            body += ''.join('%s %s\n' % x for x in (o[4] or []))
            path = os.path.join(rdir, '%s_%s_%s.txt' % (prop, k[1], hashlib.sha1(o[0].encode()).hexdigest()[:8]))
            open(path, 'w').write(body)
            rep = None; out = ''
            if not a.noreplay:
                try: rep, out = nat.replay(c, k[1], path, safety)
                except BuildError as ex: out = 'replay not possible: ' + str(ex)[-800:]
            open(path, 'a').write('# replay on the real code: %s\n%s' % ({True: 'FAILS', False: 'does not fail', None: 'inconclusive'}[rep], ''.join('# ' + l + '\n' for l in out.strip().split('\n'))))
            lab = o[0]
            if rep is True:
                m = re.search(r'^FAIL (.*)$', out, re.M)
                if m: lab = m.group(1)
            v = dict(proof=k[1], obligation=o[0], label=lab, path=path, reproduced=rep, safety=bool(safety), mode=src, detail=out.strip()[-300:], where=o[5] if len(o) > 5 else '')
            if is_known(kf, k[1], o[0], lab): known.append((is_known(kf, k[1], o[0], lab), v)); continue
            notes.append(v)
            if rep is True: best = v; break
            if best is None and not safety and rep is not None and not c.stubs_of(k[1]): best = v
            elif best is None and not safety and (c.stubs_of(k[1]) or out.startswith('replay not possible')): best = v
        if best: viol.append(best)
    for kid, v in {x[0]['id']: x for x in known}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, kid['what']))
    # an obligation which needs a listed known finding to fail, and no longer does, is reported in the evidence only
    cov = summarise(info, res, bres, st, modes, ws)
    evidence(prop, tier, seed, t0, cov, viol, known, notes, cs, ws)
    for v in viol:
        if v['reproduced'] is True:
            print('%s: obligation "%s" of proof %s fails; reproduced on the real code: %s' % (prop, v['obligation'], v['proof'], v['detail'].replace('\n', ' | ')))
            print('VIOLATION property=%s replay=%s' % (prop, v['path']))
        else:
            print('%s: obligation "%s" of proof %s is refuted by the verifier (%s)' % (prop, v['obligation'], v['proof'], v['where']))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, v['path']))
    if not viol:
        print('%s: %d proofs, %d proved, %d bounded/undecided; %d obligations discharged; %.1fs' % (prop, len(info), sum(1 for s in st.values() if s == 'proved'), sum(1 for s in st.values() if s != 'proved'), cov['discharged'], time.time() - t0))
        for k, s in st.items():
            if s != 'proved' : print('  not proved: %s (%s)' % (k[1], s))
    return 1 if viol else 0

def load_known(prop):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p)).get('findings', []) if f['property'] == prop]
def is_known(kf, proof, obligation, label):
    for f in kf:
        if f['proof'] == proof and (obligation in f['obligations'] or label in f['obligations']): return f
    return None

def show(k, r, s, debug):
    print('=====', k, s)
    if isinstance(r, tuple): print(r[1][-1500:]); return
    from collections import Counter
    print('  obl', Counter(o[1] for o in r.obl), 'paths', r.paths, 'queries', r.queries, 'solver %.1f' % r.solver_time, 'wall %.1f' % r.wall, 'timeout', r.timeout)
    print('  covers', r.covers, 'incomplete', r.incomplete[:3])
    for o in r.obl:
        if o[1] != 'discharged': print('  ', o[1], o[0], '@', o[5] if len(o) > 5 else '', str(o[4])[:600])
    for u, w in list(dict.fromkeys(r.unsupported))[:8]: print('  unsupported', u, '@', w)
    if debug:
        for x in r.summaries: print('  loop', x)

def summarise(info, res, bres, st, modes, ws):
    import collections
    prov = {}; obl = dis = 0; back = collections.Counter(); stime = 0.0; q = 0; funcs = set(); assumed = set(); trusted = set(); loops = set(); und = []
    for k, r in res.items():
        n = k[1]
        if isinstance(r, tuple): prov[n] = dict(status='undecided', reason=r[1][-200:]); continue
        stime += r.solver_time; q += r.queries; assumed |= r.assumed
        funcs |= {f for f in r.funcs if not f.startswith('PROOF__')}
        d = sum(1 for o in r.obl if o[1] == 'discharged')
        stt = st[k]
        if modes[k] == 'bounded': stt = 'bounded (inputs enumerated to the stated bound)' if stt == 'proved' else stt
        prov[n] = dict(status=stt, obligations=len(r.obl), discharged=d, paths=r.paths, loops_cut_by_inductive_invariant=len(set(r.summaries)))
        c = info[k][0]
        if n in c.funcs: prov[n]['functions_under_contract'] = c.funcs[n]
        if stt not in ('proved',): 
            prov[n]['reason'] = '; '.join(sorted({u[0] for u in r.unsupported})[:4] + r.incomplete[:2] + sorted({'%s: %s' % (o[1], o[0]) for o in r.obl if o[1] != 'discharged'})[:5]) or ('timeout' if r.timeout else '')
            b = bres.get(k)
            if b is not None and not isinstance(b, tuple):
                prov[n]['bounded_check'] = dict(bound=info[k][0].opt(n, 'bound', 3, 'quick'), obligations=len(b.obl), discharged=sum(1 for o in b.obl if o[1] == 'discharged'), complete=not (b.unsupported or b.timeout or b.incomplete))
        if modes[k] == 'proof':
            obl += len(r.obl); dis += d
            for o in r.obl:
                if o[1] == 'discharged': back[o[2]] += 1
        loops |= set(r.summaries)
        for kk, v in r.covers.items():
            if not v: prov[n].setdefault('unreached_covers', []).append(kk)
    names = sorted(funcs)
    dm = build.demangle(names) if names else {}
    repo_f = []; lib_f = []
    anyprog = {}
    for (p, n), (c, prog) in info.items(): anyprog.update(prog.funcs)
    for f in names:
        d = dm[f]
        (lib_f if re.match(r'(void |bool |[\w:<>,&* ]+ )?(std::|__gnu_cxx::|operator)', d) else repo_f).append(d)
    return dict(proofs=prov, obligations=obl, discharged=dis, backends=dict(back), solver_s=round(stime, 2), solver_queries=q, functions=repo_f, library_functions_inlined=len(lib_f), assumed=sorted(assumed), loops=len(loops))

ASSUME = ['machine floating point is treated as mathematical reals (double, float): rounding, NaN and infinities are not modelled',
          'integer arithmetic is exact two-complement machine arithmetic (bit-vectors); array extents are assumed below 2^28 elements',
          'memory allocation succeeds; the allocator returns fresh, unaliased blocks',
          'libstdc++ headers are trusted as compiled (their inline bodies are executed symbolically, out-of-line library functions are modelled as listed)',
          'clang 18 front end + LLVM sroa/early-cse/simplifycfg/instsimplify/dce preserve the meaning of the source; the deployed binary is built by gcc -O3',
          'single-threaded execution of each function under contract; locks are no-ops; termination is not proved',
          'Debug output disabled (release build: NDEBUG); std::string and iostream operations have no effect on verified state']

def evidence(prop, tier, seed, t0, cov, viol, known, notes, cs, ws):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    level = 'proof'
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2), violations=len(viol),
        coverage=dict(obligations=cov.get('obligations', 0), discharged=cov.get('discharged', 0), checker_cmd='python3-vt vc/check.py %s --tier %s' % (prop, tier),
            trusted_base=['clang-18 front end', 'LLVM 18 mem2reg-style passes', 'vc/engine.py + vc/interp.py (VC generator)', 'z3 %s' % z3v(), 'models of external functions in vc/interp.py'],
            backends=cov.get('backends', {}), solver_s=cov.get('solver_s', 0), solver_queries=cov.get('solver_queries', 0), proofs=cov.get('proofs', {}),
            functions_executed_symbolically=cov.get('functions', []), library_functions_inlined=cov.get('library_functions_inlined', 0), loops_cut_by_inductive_invariants=cov.get('loops', 0)),
        assumptions=ASSUME + cov.get('assumed', []) + [x for c in cs for x in c.assumptions])
    if 'error' in cov: ev['coverage']['error'] = cov['error']
    if known: ev['coverage']['known_findings'] = sorted({k['id'] for k, _ in known})
    if notes: ev['coverage']['refuted_obligations'] = [dict(proof=v['proof'], obligation=v['obligation'], reproduced=v['reproduced']) for v in notes][:20]
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
def z3v():
    try:
        import z3; return z3.get_version_string()
    except Exception: return '?'
if __name__ == '__main__': main()

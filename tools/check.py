#!/usr/bin/env python3
"""Decides one property: regenerates the encoding (LLVM bitcode of /repo's
current sources + harness) and runs the symbolic executor on every harness
entry registered for the property in checks/specs.py. Counterexamples and
sample witnesses are replayed on a native build of the same sources."""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
sys.path.insert(0, os.path.join(V, 'checks'))
NJ = os.cpu_count() or 4
INC = ['-I' + V, '-I' + V + '/shim', '-I' + B + '/gen', '-I' + R, '-I' + V + '/harness']
SIMD = '-maes -mpclmul -mavx2 -mbmi -mbmi2 -mfma -mf16c -mssse3 -DHWY_COMPILE_ONLY_STATIC'.split()
COMMON = ['-std=c++17', '-D_GLIBCXX_ASSERTIONS', '-fno-exceptions', '-gline-tables-only', '-Wno-everything'] + SIMD
BCFLAGS = ['clang++-18', '-O2', '-fno-vectorize', '-fno-slp-vectorize', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-emit-llvm', '-c'] + COMMON + INC
NATFLAGS = ['clang++-18', '-O1', '-DSYMX_NATIVE', '-fsanitize=address', '-fsanitize=unreachable,integer-divide-by-zero,return', '-fno-sanitize-recover=all', '-c'] + COMMON + INC
PROTOS = ['dpf/distributed_point_function.proto', 'dcf/distributed_comparison_function.proto', 'dcf/fss_gates/multiple_interval_containment.proto',
          'pir/private_information_retrieval.proto', 'pir/hashing/hash_family_config.proto']

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
class BuildError(Exception): pass

def tree_hash(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        fs = []
        for p, ds, f in os.walk(d):
            ds[:] = [x for x in ds if x not in ('.git', '_build', 'build', '__pycache__')]
            fs += [os.path.join(p, x) for x in f if x.endswith(exts)]
        for f in sorted(fs):
            h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()
def fhash(f): return hashlib.sha256(open(f, 'rb').read()).hexdigest()
def repo_sources():
    out = []
    for top in ('dpf', 'dcf', 'pir'):
        for p, ds, f in os.walk(os.path.join(R, top)):
            ds.sort()
            if os.path.basename(p) in ('testing', 'test_data', 'testdata'): ds[:] = []; continue
            for x in sorted(f):
                if x.endswith('.cc') and not re.search(r'_test\.cc$|_benchmark|_testing|mock_|_fuzz|_test_|matchers', x): out.append(os.path.join(p, x))
    return out

class Builder:
    def __init__(self):
        os.makedirs(B, exist_ok=True)
        self.hdr = tree_hash([R + '/dpf', R + '/dcf', R + '/pir', V + '/shim', V + '/rt', V + '/tools'], ('.h', '.inc', '.proto', 'protogen.py')) 
        self.hh = tree_hash([V + '/harness'], ('.h',))
        self.log = []
    def symx(self):
        r = sh(['make', '-C', V + '/symx', '-j%d' % NJ])
        if r.returncode: raise BuildError('symx build failed:\n' + r.stdout[-3000:])
        return B + '/symx/symx'
    def gen(self):
        key = B + '/gen/.key'
        if os.path.exists(key) and open(key).read() == self.hdr: return
        shutil.rmtree(B + '/gen', ignore_errors=True); os.makedirs(B + '/gen')
        r = sh([sys.executable, V + '/tools/protogen.py', R, B + '/gen'] + PROTOS)
        if r.returncode: raise BuildError('protogen failed:\n' + r.stdout[-3000:])
        open(key, 'w').write(self.hdr)
    def obj(self, src, native):
        # vector code: aligned accesses are checked before the optimiser can merge them away
        hwy = 'hwy' in open(src).read() and '/harness/' not in src and '/rt/' not in src
        FL = (NATFLAGS + (['-include', V + '/rt/native_hwy.h', '-fsanitize=alignment', '-fno-sanitize-recover=alignment'] if hwy else [])) if native else BCFLAGS + (['-fsanitize=alignment', '-fsanitize-trap=alignment'] if hwy else [])
        k = hashlib.sha256((self.hdr + (self.hh if '/harness/' in src or '/build/' in src else '') + fhash(src) + src + ' '.join(FL)).encode()).hexdigest()[:24]
        d = B + ('/nat' if native else '/bc'); os.makedirs(d, exist_ok=True)
        o = '%s/%s-%s.%s' % (d, re.sub(r'[^A-Za-z0-9]', '_', os.path.relpath(src, '/')), k, 'o' if native else 'bc')
        if os.path.exists(o): return o, ''
        t = o + '.tmp%d' % os.getpid()
        r = sh(FL + [src, '-o', t])
        if r.returncode: return None, r.stdout
        os.rename(t, o); return o, ''
    def libs(self, native, ex):
        res = list(ex.map(lambda s: self.obj(s, native), repo_sources()))
        out = []
        if not any(o for o, _ in res): raise BuildError('no source compiles: ' + res[0][1][-2000:])
        for s, (o, e) in zip(repo_sources(), res):
            if o: out.append(o)
            else: self.log.append('cannot compile %s: %s' % (s, e[-1500:]))
        return out
    def module(self, h, libs):
        src = V + '/harness/%s.cc' % h
        (o, e), (env, e2) = self.obj(src, False), self.obj(V + '/rt/env.cc', False)
        if not o or not env: raise BuildError('cannot compile harness %s:\n%s%s\n%s' % (h, e, e2, '\n'.join(self.log)))
        m = B + '/mod/%s-%d.bc' % (h, os.getpid()); os.makedirs(B + '/mod', exist_ok=True)
        r = sh(['llvm-link-18', o, env] + libs + ['-o', m])
        if r.returncode: raise BuildError('llvm-link failed: ' + r.stdout[-2000:])
        return m
    def native(self, h, libs):
        src = V + '/harness/%s.cc' % h
        ents = re.findall(r'extern "C" void (\w+)\(([^)]*)\)\s*\{', open(src).read())
        d = B + '/gensrc'; os.makedirs(d, exist_ok=True)
        g = d + '/entry_%s.cc' % h
        t = '#include <string>\n#include <vector>\n'
        for n, a in ents: t += 'extern "C" void %s(%s);\n' % (n, a)
        t += 'void symx_entry(const std::string& e, const std::vector<long long>& a) {\n'
        for n, a in ents:
            k = len([x for x in a.split(',') if x.strip()])
            t += '  if (e == "%s") { %s(%s); return; }\n' % (n, n, ', '.join('a.at(%d)' % i for i in range(k)))
        t += '  __builtin_abort();\n}\n'
        if not os.path.exists(g) or open(g).read() != t:
            open(g + '.tmp%d' % os.getpid(), 'w').write(t); os.rename(g + '.tmp%d' % os.getpid(), g)
        os_ = []
        for s in (src, V + '/rt/env.cc', V + '/rt/native_rt.cc', g):
            o, e = self.obj(s, True)
            if not o: raise BuildError('native compile failed: %s\n%s' % (s, e[-3000:]))
            os_.append(o)
        x = B + '/mod/%s-%d.native' % (h, os.getpid()); os.makedirs(B + '/mod', exist_ok=True)
        r = sh(['clang++-18', '-fsanitize=address,unreachable,integer-divide-by-zero,return,alignment', '-o', x] + os_ + libs)
        if r.returncode: raise BuildError('native link failed:\n' + r.stdout[-3000:])
        return x

def write_replay(path, item, header):
    with open(path, 'w') as f:
        for l in header: f.write('# %s\n' % l)
        for i in item['inputs']: f.write('in %s %d %s\n' % (i['name'], i['w'], i['hex']))
        for u in item['uf']: f.write('uf %s %s %s\n' % (u['fn'], u['in'], u['out']))
def run_native(exe, replay, entry, args, timeout=120):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=1024')
    try:
        r = subprocess.run([exe, replay, entry] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
        return r.returncode, r.stdout.decode('latin1'), r.stderr.decode('latin1')
    except subprocess.TimeoutExpired: return 124, '', 'timeout'

def main():
    t0 = time.time()
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?'); ap.add_argument('--setup', action='store_true'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-native', action='store_true')
    a = ap.parse_args()
    if a.setup:   # build the executor and the encodings of the library once
        b = Builder()
        with cf.ThreadPoolExecutor(NJ) as ex:
            fs = ex.submit(b.symx); b.gen(); b.libs(False, ex); fs.result()
        print('setup done in %.0f s' % (time.time() - t0)); return 0
    import specs
    spec = specs.SPECS[a.id]; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    runs = [r for r in spec['runs'] if (a.tier == 'thorough' or r.get('tier', 'quick') == 'quick') and not (a.tier == 'thorough' and r.get('tier') == 'quick-only')]
    if a.only: runs = [r for r in runs if re.search(a.only, r['entry'] + ' ' + ' '.join(map(str, r['args'])))]
    kf = json.load(open(V + '/known_findings.json')) if os.path.exists(V + '/known_findings.json') else {'findings': []}
    known = {k['key']: k for k in kf.get('findings', []) if k['property'] == a.id}
    b = Builder(); hs = sorted({r['h'] for r in runs})
    native = {}
    with cf.ThreadPoolExecutor(NJ) as ex:
        fs = ex.submit(b.symx); b.gen()
        # start harness objects first, then libraries, then native objects
        pre = [ex.submit(b.obj, V + '/harness/%s.cc' % h, False) for h in hs]
        libs = b.libs(False, ex); [p.result() for p in pre]
        symx = fs.result()
        mods = {h: b.module(h, libs) for h in hs}
        tb = time.time() - t0
        # the native replay build proceeds while the executor runs
        results = {}
        outd = B + '/out/%s-%d' % (a.id, os.getpid()); shutil.rmtree(outd, ignore_errors=True); os.makedirs(outd)
        # after a first confirmed-looking violation the remaining runs get one more
        # minute; the quick tier as a whole ends within its time
        ctl = {'stop': t0 + 780 if a.tier == 'quick' else None}
        def one(i, r):
            left = ctl['stop'] - time.time() if ctl['stop'] else 1e9
            if left < 5: return {'skipped': 1}
            mt = min(r.get('mt', 300), left)
            o = '%s/%d.json' % (outd, i)
            cmd = [symx, '--module', mods[r['h']], '--entry', r['entry'], '--out', o, '--max-time', str(int(mt)), '--witnesses', str(r.get('wit', 3)), '--seed', str(seed),
                   '--max-findings', '3', '--solver-timeout', str(r.get('st', 30000)), '--max-enum', str(r.get('enum', 600))]
            for x in r['args']: cmd += ['--arg', str(x)]
            if not r.get('cs', 1): cmd += ['--no-cond-sums']
            log = o + '.log'
            with open(log, 'w') as lf:
                pr = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT); hard = time.time() + mt * 1.3 + 60
                while True:
                    try: pr.wait(1 if len(runs) < 400 else .5); break
                    except subprocess.TimeoutExpired: pass
                    if ctl.get('found') and time.time() > ctl['stop']: pr.kill(); pr.wait(); return {'skipped': 1}
                    if time.time() > hard: pr.kill(); pr.wait(); break
            if not os.path.exists(o) or os.path.getsize(o) == 0: return {'fatal': 'executor ended with %d: %s' % (pr.returncode, open(log, errors='replace').read()[-1500:])}
            res = json.load(open(o))
            if res['findings'] and not r.get('known') and not ctl.get('found'):
                ctl['found'] = 1; ctl['stop'] = min(ctl['stop'] or 1e18, time.time() + 60)
            return res
        order = sorted(range(len(runs)), key=lambda i: -runs[i].get('mt', 300))
        futs = {i: ex.submit(one, i, runs[i]) for i in order}
        natres = None
        if not a.no_native:
            def nat():
                nl = b.libs(True, nex)
                return dict(zip(hs, nex.map(lambda h: b.native(h, nl), hs)))
            with cf.ThreadPoolExecutor(max(2, NJ // 2)) as nex: natres = nat()
        for i, f in futs.items(): results[i] = f.result()
        native = natres or {}
    replay_dir = B + '/replay/' + a.id; shutil.rmtree(replay_dir, ignore_errors=True); os.makedirs(replay_dir)
    viol, kfound, incomplete, fatal, unconf = [], [], [], [], []
    wit_ok = wit_bad = wit_tot = 0; samples = []; fns = {}; tot = dict(paths=0, killed=0, states=0, instrs=0, forks=0, merges=0, asserts=0, assert_queries=0, assert_trivial=0)
    sol = dict(queries=0, cache_hits=0, sat=0, unsat=0, unknown=0, fresh=0, time_s=0.0, max_s=0.0); perrun = []; reach_need = {}; reach_got = {}
    for i, r in enumerate(runs):
        o = results[i]; nm = '%s(%s)' % (r['entry'], ','.join(map(str, r['args'])))
        if 'fatal' in o: fatal.append('%s: %s' % (nm, o['fatal'])); continue
        if 'skipped' in o: incomplete.append('%s: not run (time, or a violation elsewhere)' % nm); continue
        for k in tot: tot[k] += o.get(k, 0)
        for k in sol: sol[k] = max(sol[k], o['solver'][k]) if k == 'max_s' else sol[k] + o['solver'][k]
        for f in o['functions']:
            if f['file'].startswith(R + '/') or R in f['file']: fns[(f['name'], os.path.relpath(f['file'], R))] = fns.get((f['name'], os.path.relpath(f['file'], R)), 0) + f['calls']
        perrun.append({'run': nm, 'bounds': r.get('b', ''), 'paths': o['paths'], 'asserts_checked': o['asserts'], 'decided_by_normal_form': o['assert_trivial'], 'decided_by_smt': o['assert_queries'], 'solver_queries': o['solver']['queries'], 'solver_time_s': round(o['solver']['time_s'], 2), 'wall_s': round(o['wall_s'], 1), 'reached': o['reached'], 'inconclusive': o['inconclusive'][:3]})
        for x in o['inconclusive']: incomplete.append('%s: %s' % (nm, x))
        miss = [t for t in r.get('tags', []) if t not in o['reached']]
        confirmed_any = False
        for j, f in enumerate(o['findings']):
            path = '%s/%s-%d-%d.replay' % (replay_dir, r['entry'], i, j)
            hdr = ['property %s' % a.id, 'entry %s' % nm, '%s: %s' % (f['kind'], f['msg']), 'at %s' % f['loc']] + f['trace'][:12]
            conf = None
            if native:   # first with the real functions, then with the solver's interpretation of the uninterpreted ones
                write_replay(path, dict(f, uf=[]), hdr)
                rc, so, se = run_native(native[r['h']], path, r['entry'], r['args'])
                conf = rc not in (0, 77, 2)
                if not conf and f['uf']:
                    write_replay(path, f, hdr)
                    rc, so, se = run_native(native[r['h']], path, r['entry'], r['args'])
                    conf = rc not in (0, 77, 2)
                with open(path, 'a') as fo:
                    fo.write('# native replay: exit %s\n' % rc)
                    for l in (so + '\n' + se).splitlines()[-40:]: fo.write('#   %s\n' % l[:300])
            d = dict(run=nm, kind=f['kind'], msg=f['msg'], loc=f['loc'], path=path, rk=r.get('known'))
            k = known.get(r.get('known')) if r.get('known') else None
            if k and (not k.get('msg') or re.search(k['msg'], f['msg'])): kfound.append((k, d))
            elif conf or conf is None: viol.append(d)
            else: unconf.append(d)
        if miss and not o['findings']: 
            incomplete.append('%s: required situations not reached: %s' % (nm, miss))
            if not o['inconclusive']: fatal.append('vacuous: %s lacks %s' % (nm, miss))
        for w in o['witnesses']:
            wit_tot += 1
            if len(samples) < 6: samples.append({'run': nm, 'inputs': {x['name']: x['hex'] for x in w['inputs'][:12]}, 'observed': {x['name']: x['hex'] for x in w['obs'][:6]}, 'situations': w['tags']})
            if not native: continue
            path = '%s/wit-%d-%d' % (outd, i, wit_tot); write_replay(path, w, ['witness'])
            rc, so, se = run_native(native[r['h']], path, r['entry'], r['args'])
            got = re.findall(r'^OBS (\S+) ([0-9a-f]*)$', so, re.M); want = [(x['name'], x['hex']) for x in w['obs']]
            if rc == 0 and got == want: wit_ok += 1
            elif r.get('known') or o['findings']: wit_tot -= 1
            else:
                wit_bad += 1; keep = '%s/witness-%s-%d-%d' % (replay_dir, r['entry'], i, wit_tot); shutil.copy(path, keep)
                incomplete.append('%s: witness disagrees with native run (exit %d): want %s got %s %s; %s' % (nm, rc, want[:3], got[:3], se[-300:], keep))
    shutil.rmtree(outd, ignore_errors=True)
    for m in list(mods.values()) + list(native.values()):
        try: os.remove(m)
        except OSError: pass
    complete = not incomplete and not fatal and not unconf
    ev = {'property': a.id, 'tier': a.tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2),
          'coverage': {'states': tot['states'] + tot['forks'] + tot['paths'], 'transitions': tot['instrs'], 'traces_validated_against_impl': wit_ok, 'samples': samples or [{'note': 'no witness requested'}],
            'exhaustive': complete, 'method': 'symbolic execution of LLVM bitcode of the current /repo sources; every assertion decided for all inputs within the bounds by the GF(2)/modular normal form of the executor or by z3',
            'paths': tot['paths'], 'infeasible_or_cut_paths': tot['killed'], 'symbolic_forks': tot['forks'], 'merged_branches': tot['merges'], 'assertions_checked': tot['asserts'], 'assertions_decided_by_normal_form': tot['assert_trivial'], 'assertions_decided_by_smt': tot['assert_queries'],
            'solver': {k: (round(v, 3) if isinstance(v, float) else v) for k, v in sol.items()}, 'bounds': spec.get('bounds', ''), 'outside_bounds': spec.get('outside', ''), 'runs': perrun,
            'functions_encoded': ['%s @ %s' % k for k in sorted(fns, key=lambda x: (x[1], x[0]))], 'functions_encoded_count': len(fns), 'witnesses_replayed': wit_tot, 'witness_disagreements': wit_bad,
            'undecided': incomplete[:20], 'build_s': round(tb, 1)},
          'violations': len(viol), 'violation_details': [{k: v for k, v in d.items() if k != 'rk'} for d in viol], 'known_findings_seen': sorted({k['key'] for k, _ in kfound})}
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(V + '/evidence/%s.json' % a.id, 'w'), indent=1)
    print('%s [%s]: %d runs, %d paths, %d assertions (%d by normal form, %d by SMT), %d solver queries in %.1f s, %d/%d witnesses agree natively, build %.0f s, wall %.0f s' % (a.id, a.tier, len(runs), tot['paths'], tot['asserts'], tot['assert_trivial'], tot['assert_queries'], sol['queries'], sol['time_s'], wit_ok, wit_tot, tb, time.time() - t0))
    if a.v:
        for p in perrun: print('  ', p['run'], 'paths', p['paths'], 'asserts', p['asserts_checked'], 'nf', p['decided_by_normal_form'], 'smt', p['decided_by_smt'], 'q', p['solver_queries'], 'st', p['solver_time_s'], 'wall', p['wall_s'], p['reached'], p['inconclusive'][:1])
    for l in b.log: print('BUILD-NOTE ' + l[:600])
    for x in sorted({k['key'] for k, _ in kfound}): print('KNOWN-FINDING: property=%s %s: %s' % (a.id, x, known[x]['what']))
    for x in incomplete[:10]: print('INCOMPLETE: ' + x[:600])
    for d in unconf: print('UNCONFIRMED: %s %s at %s (%s): not reproduced natively; see %s' % (d['run'], d['msg'], d['loc'], d['kind'], d['path']))
    if viol:
        for d in viol: print('%s: %s: %s at %s' % (d['run'], d['kind'], d['msg'], d['loc'])); print('VIOLATION property=%s replay=%s' % (a.id, d['path']))
        return 1
    if fatal or unconf:
        for x in fatal: print('ERROR: ' + x[:1500])
        return 2
    return 0
if __name__ == '__main__':
    try: sys.exit(main())
    except BuildError as e: print('ERROR: ' + str(e)[:6000]); sys.exit(2)

#!/usr/bin/env python3
"""Runs one property's solver-based check:  vf.py C01 [--tier quick|thorough] [--entry NAME] [--replay FILE]
   vf.py --setup builds the engine and precompiles."""
import sys, os, re, json, time, subprocess, hashlib, glob, shutil, shlex, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
B = os.environ.get('VF_BUILD', os.path.join(V, 'build'))
LL = '/usr/lib/llvm-18/bin/'
ENG = os.path.join(V, 'build', 'engine')
D = REPO + '/daemon'
INC = ['-I' + D + '/' + d for d in 'util main queue nntp connect remote frontend feed extension postprocess system nserv systemhealth'.split()] + \
      ['-I' + REPO + '/lib', '-I' + REPO + '/lib/par2', '-I' + REPO + '/lib/yencode', '-I' + REPO + '/lib/regex', '-I/usr/include/libxml2']
BASE = ['-std=c++17', '-O1', '-g1', '-finline-hint-functions', '-fno-exceptions', '-fPIC', '-fsemantic-interposition', '-fno-vectorize', '-fno-slp-vectorize',
        '-ftrivial-auto-var-init=pattern', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-U_FORTIFY_SOURCE', '-DHAVE_CONFIG_H', '-w', '-emit-llvm', '-c']
PERFILE = {'Sse2Decoder.cpp': ['-msse2'], 'Ssse3Decoder.cpp': ['-mssse3'], 'PclmulCrc.cpp': ['-msse4.1', '-mpclmul']}
NPROC = os.cpu_count() or 8

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
class Err(Exception): pass
_hc = {}
def fhash(p):
    if p not in _hc:
        try: _hc[p] = hashlib.sha256(open(p, 'rb').read()).hexdigest()[:24]
        except OSError: _hc[p] = 'missing'
    return _hc[p]

def compile_bc(src, flags, tag):
    """clang -> bitcode, reused only while every file it was made from is unchanged"""
    os.makedirs(B + '/bc', exist_ok=True)
    key = hashlib.sha256(('\0'.join([src] + flags)).encode()).hexdigest()[:20]
    out = f'{B}/bc/{tag}-{key}.bc'; meta = out + '.deps'
    if os.path.exists(out) and os.path.exists(meta):
        try:
            deps = json.load(open(meta))
            if all(fhash(p) == h for p, h in deps): return out
        except Exception: pass
    tmp = out + f'.{os.getpid()}.{threading.get_ident()}'
    r = sh(['clang++' if not src.endswith('.c') else 'clang'] + flags + ['-MD', '-MF', tmp + '.d', src, '-o', tmp])
    if r.returncode: raise Err('compiling %s failed:\n%s' % (src, r.stdout[-3000:]))
    t = open(tmp + '.d').read().replace('\\\n', ' ').split(':', 1)[1]
    deps = sorted(set(os.path.abspath(x) for x in re.split(r'(?<!\\)\s+', t.strip()) if x))
    json.dump([[p, fhash(p)] for p in deps], open(meta, 'w')); os.remove(tmp + '.d'); os.replace(tmp, out)
    return out

def cfginc():
    c = REPO + '/_build/config.h'
    return ['-I' + REPO + '/_build'] if os.path.exists(c) else ['-I' + V + '/rt']
def tu(rel):
    src = (REPO + '/lib/' + rel[4:]) if rel.startswith('lib:') else D + '/' + rel
    if not os.path.exists(src): raise Err('source file %s is gone' % src)
    return compile_bc(src, BASE + PERFILE.get(os.path.basename(src), []) + cfginc() + INC, os.path.basename(src)[:-4])
def rt_bc():
    lib = compile_bc(V + '/rt/libc.c', ['-O1', '-g1', '-fno-builtin', '-ffreestanding', '-w', '-emit-llvm', '-c', '-fno-vectorize', '-fno-slp-vectorize'], 'rt_libc')
    cxx = compile_bc(V + '/rt/cxxrt.cpp', BASE + ['-fno-builtin'], 'rt_cxx')
    env = compile_bc(V + '/rt/env.cpp', BASE + ['-I' + V + '/rt'], 'rt_env')
    return lib, cxx, env
def engine():
    srcs = sorted(glob.glob(V + '/engine/*')); h = hashlib.sha256(''.join(fhash(s) for s in srcs).encode()).hexdigest()
    st = ENG + '/stamp'
    if os.path.exists(st) and open(st).read() == h and os.path.exists(ENG + '/symex'): return
    os.makedirs(ENG, exist_ok=True)
    r = sh(['bash', V + '/engine/build.sh', ENG])
    if r.returncode: raise Err('building the engine failed:\n' + r.stdout[-3000:])
    open(st, 'w').write(h)

class Harness:
    def __init__(s, path, tier):
        s.path = path; s.name = os.path.basename(path)[:-4]; s.tus = []; s.flags = {'quick': [], 'thorough': []}; s.entries = []; s.bounds = []; s.stubs = []; s.outside = []; s.opts = []
        for l in open(path):
            m = re.match(r'//\s*(TUS|QUICK|THOROUGH|ENTRY|BOUND|STUB|OUTSIDE|OPTS)\s+(.*)', l)
            if not m: continue
            k, v = m.groups(); v = v.strip()
            if k == 'TUS': s.tus += v.split()
            elif k in ('QUICK', 'THOROUGH'): s.flags[k.lower()] += v.split()
            elif k == 'BOUND': s.bounds.append(v)
            elif k == 'STUB': s.stubs.append(v)
            elif k == 'OUTSIDE': s.outside.append(v)
            elif k == 'OPTS': s.opts += v.split()
            else:
                w = shlex.split(v); e = {'name': w[0], 'q': 30, 't': 240, 'reach': [], 'tier': '', 'opts': []}
                for x in w[1:]:
                    a, b = x.split('=', 1)
                    if a == 'reach': e['reach'] = b.split(',')
                    elif a in ('q', 't'): e[a] = float(b)
                    elif a == 'opts': e['opts'] = b.split()
                    else: e[a] = b
                if e['tier'] in ('', tier): s.entries.append(e)
        s.tier = tier
        s.bounds = [re.sub(r'\$(\w+)', lambda m: s.macro(m.group(1)), b) for b in s.bounds]
    def macro(s, n):
        for f in s.flags[s.tier]:
            if f.startswith('-D' + n + '='): return f.split('=', 1)[1]
        return '$' + n
    def build(s, native=True):
        lib, cxx, env = rt_bc()
        fl = BASE + cfginc() + INC + ['-I' + V + '/rt', '-I' + V + '/harness', '-I' + REPO + '/daemon'] + s.flags[s.tier] + ['-DSYM_REPO="' + REPO + '"']
        with ThreadPoolExecutor(NPROC) as ex:
            fs = [ex.submit(compile_bc, s.path, fl, 'h_' + s.name)] + [ex.submit(tu, t) for t in s.tus]
            bcs = [f.result() for f in fs]
        h = hashlib.sha256(''.join([fhash2(b) for b in bcs + [lib, cxx, env]] + [fhash(ENG + '/prep')] + [e['name'] for e in s.entries]).encode()).hexdigest()[:16]
        d = f'{B}/link/{s.name}-{s.tier}-{h}'; s.dir = d
        if os.path.exists(d + '/ok'): return
        for o in glob.glob(f'{B}/link/{s.name}-{s.tier}-*'): shutil.rmtree(o, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        names = [e['name'] for e in s.entries]
        def eng():
            r = sh([LL + 'llvm-link', '-o', d + '/e0.bc', env, cxx, lib] + bcs[1:] + ['--override=' + bcs[0]])
            if r.returncode: raise Err('linking %s failed:\n%s' % (s.name, r.stdout[-2000:]))
            r = sh([ENG + '/prep', d + '/e0.bc', d + '/engine.bc'] + names)
            if r.returncode: raise Err('prep failed: ' + r.stdout[-2000:])
            os.remove(d + '/e0.bc')
        def nat():
            r = sh([LL + 'llvm-link', '-o', d + '/n0.bc', env] + bcs[1:] + ['--override=' + bcs[0]])
            if r.returncode: raise Err('linking %s failed:\n%s' % (s.name, r.stdout[-2000:]))
            r = sh([ENG + '/prep', d + '/n0.bc', d + '/n1.bc', '--native'] + names)
            if r.returncode: raise Err('prep failed: ' + r.stdout[-2000:])
            r = sh(['clang++', '-O1', '-g1', '-w', '-fsanitize=address', '-fPIC', '-rdynamic', d + '/n1.bc', native_rt(), '-o', d + '/native', '-ldl', '-lpthread', '-lxml2', '-Wl,--unresolved-symbols=ignore-all'])
            if r.returncode: raise Err('native link failed: ' + r.stdout[-2000:])
            os.remove(d + '/n0.bc'); os.remove(d + '/n1.bc')
        with ThreadPoolExecutor(2) as ex:
            a = ex.submit(eng); b = ex.submit(nat); a.result(); b.result()
        open(d + '/ok', 'w').close()
_h2 = {}
def fhash2(p): # bitcode identity: hash of content
    if p not in _h2: _h2[p] = hashlib.sha256(open(p, 'rb').read()).hexdigest()
    return _h2[p]
def native_rt():
    o = B + '/symrt-' + fhash(V + '/rt/symrt.cpp') + '.o'
    if not os.path.exists(o):
        os.makedirs(B, exist_ok=True); t = o + f'.{os.getpid()}.{threading.get_ident()}.o'
        r = sh(['clang++', '-std=c++17', '-O1', '-g1', '-w', '-fPIC', '-I' + V + '/rt', '-c', V + '/rt/symrt.cpp', '-o', t])
        if r.returncode: raise Err(r.stdout)
        os.replace(t, o)
    return o

def write_replay(path, hname, entry, tier, model, note):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        for k, v in model.items(): f.write(f'{k} {v}\n')
        f.write(f'@harness {hname} {entry} {tier}\n@note {note}\n'.replace('@', '#'))
def run_native(h, entry, replay):
    try: r = subprocess.run([h.dir + '/native', entry, replay], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=40, cwd='/')
    except subprocess.TimeoutExpired: return 'hang', '', ''
    out = r.stdout.decode('latin1'); err = r.stderr.decode('latin1')
    if r.returncode == 77: return 'asan', out, err
    if r.returncode == -14: return 'hang', out, err
    if r.returncode < 0: return 'signal%d' % -r.returncode, out, err
    if 'ASSERT-FAIL' in out: return 'assert', out, err
    if 'ASSUME-FALSE' in out: return 'assume', out, err
    return 'ok', out, err
def obs_of(out): return [tuple(l.split()[1:3]) for l in out.splitlines() if l.startswith('OBS ')]

def run_entry(h, e, prop, res, findings, seed):
    budget = e['q'] if h.tier == 'quick' else e['t']
    od = f'{h.dir}/out-{e["name"]}-{os.getpid()}'; shutil.rmtree(od, ignore_errors=True); os.makedirs(od)
    t0 = time.time()
    p = subprocess.run([ENG + '/symex', h.dir + '/engine.bc', '--entry=' + e['name'], '--out=' + od, f'--time={budget}', f'--workers={NPROC}'] + h.opts + e['opts'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    wall = time.time() - t0
    W = []
    for f in glob.glob(od + '/w*.json'):
        try: W.append(json.load(open(f)))
        except Exception as x: print('  bad worker file', f, x)
    if p.returncode not in (0, 3) or not W: raise Err('engine failed on %s (%d): %s' % (e['name'], p.returncode, p.stdout[-1500:]))
    S = lambda k: sum(w[k] for w in W)
    sv = {k: (max if k == 'z3Max' else sum)(w['solver'][k] for w in W) for k in W[0]['solver']}
    reasons = {}; reach = {}; viol = {}; funcs = set(); samples = []
    for w in W:
        for k, n in w['incompleteReasons'].items(): reasons[k] = reasons.get(k, 0) + n
        for k, n in w['reach'].items(): reach[k] = reach.get(k, 0) + n
        for f in w['functions']: funcs.add(tuple(f))
        samples += w['samples']
        for v in w['violations']:
            if v['key'] in viol: viol[v['key']]['count'] += v['count']; viol[v['key']]['models'] += v['models']
            else: viol[v['key']] = v
    if p.returncode == 3: reasons['worker died (memory)'] = 1
    if p.stdout.strip(): print('  [engine] ' + p.stdout.strip()[-1500:].replace('\n', '\n  [engine] '))
    timed = any(w['timedOut'] for w in W)
    r = {'entry': e['name'], 'paths': S('done'), 'assumed_away': S('assumed'), 'violating_paths': S('violated'), 'incomplete_paths': S('incomplete'), 'unexplored_states': S('pendingLeft'), 'exhaustive': not timed and not S('incomplete') and not reasons and not sv['z3Unknown'],
         'instructions': S('insts'), 'forks': S('forks'), 'solver': sv, 'wall': round(wall, 2), 'incomplete_reasons': reasons, 'reach': reach, 'time_limit': budget, 'functions': sorted(funcs)}
    # counterexamples: replay on the natively compiled code
    bad = []; unconf = []
    rd = f'{B}/replay'; os.makedirs(rd, exist_ok=True)
    for key in sorted(viol):
        v = viol[key]; ok = None
        for i, m in enumerate(v['models'][:6]):
            rp = f'{rd}/{prop}-{e["name"]}-{hashlib.md5(key.encode()).hexdigest()[:8]}-{i}.replay'
            write_replay(rp, h.name, e['name'], h.tier, m, v['kind'] + ': ' + v['msg'] + ' at ' + v['site'])
            st, out, err = run_native(h, e['name'], rp)
            if st == 'assume' or st == 'ok' or (v['kind'] == 'assert' and st == 'hang'): os.replace(rp, rp + '.unconfirmed'); continue
            ok = (rp, st, out, err); break
        if ok:
            kf = [f for f in findings if f['prop'] == prop and f['entry'] == e['name'] and re.search(f['re'], v['kind'] + ': ' + v['msg'] + ' at ' + v['site'])]
            bad.append((v, ok, kf[0] if kf else None))
        else: unconf.append(v)
    # sampled finished paths: run the real code on the solver's inputs and compare what was observed
    samples.sort(key=lambda s: hashlib.md5(json.dumps(s['model'], sort_keys=True).encode()).hexdigest())
    okc = 0; mism = []; hangs = 0
    def one(ix):
        s = samples[ix]; rp = f'{od}/s{ix}.replay'; write_replay(rp, h.name, e['name'], h.tier, s['model'], 'sample')
        return s, rp, run_native(h, e['name'], rp)
    with ThreadPoolExecutor(NPROC) as ex:
        for s, rp, (st, out, err) in ex.map(one, range(min(len(samples), 24 if h.tier == 'quick' else 64))):
            if st == 'ok' and obs_of(out) == [tuple(o) for o in s['obs']]: okc += 1
            else:
                keep = f'{rd}/{prop}-{e["name"]}-mismatch{len(mism)}.replay'; shutil.copy(rp, keep); mism.append((keep, st, out[-600:], err[:1500], s))
    r['replayed_ok'] = okc; r['mismatches'] = len(mism); r['samples'] = [{'inputs': s['model'], 'observed': s['obs']} for s in samples[:3]]
    miss = [l for l in e['reach'] if not reach.get(l)]; r['missing_reach'] = miss
    shutil.rmtree(od, ignore_errors=True)
    print(f"  {h.name}/{e['name']}: paths={r['paths']} (+{r['assumed_away']} assumed away) violating={r['violating_paths']} incomplete={r['incomplete_paths']} left={r['unexplored_states']} forks={r['forks']} z3={sv['z3Calls']}/{sv['z3Time']:.1f}s unknown={sv['z3Unknown']} insts={r['instructions']} replayed={okc}/{okc+len(mism)} {wall:.1f}s" + ('' if r['exhaustive'] else '  NOT EXHAUSTIVE') + (('  MISSING ' + ','.join(miss)) if miss else ''))
    for k, n in reasons.items(): print('    incomplete:', n, k)
    if os.environ.get('VF_VERBOSE'): print('    reach:', reach)
    nat = [m for m in mism if m[1] in ('asan', 'assert') or m[1].startswith('signal')]
    for m in mism[:3]: print('    MISMATCH engine vs native:', m[0], m[1], '\n      engine', m[4]['obs'], '\n      native', m[2].replace('\n', ' | '), m[3].replace('\n', '\n      ')[:800])
    for v in unconf: print('    unconfirmed (does not reproduce natively):', v['kind'], v['msg'], v['site'], 'x', v['count'], '\n     ', v['stack'].replace('\n', '\n      '))
    for v, ok, kf in bad:
        if kf: print(f'KNOWN-FINDING: property={prop} {kf["text"]}'); continue
        print(f"    {v['kind']}: {v['msg']} at {v['site']} (x{v['count']}), native: {ok[1]}\n      " + v['stack'].strip().replace('\n', '\n      '))
        print('      inputs: ' + json.dumps(v['models'][0]))
        if ok[1] == 'asan': print('      ' + '\n      '.join([l for l in ok[3].splitlines() if 'ERROR' in l or re.match(r'\s+#[0-3] ', l)][:5]))
        print(f'VIOLATION property={prop} replay={ok[0]}')
    for m in nat: print(f'VIOLATION property={prop} replay={m[0]}')
    r['violations'] = sum(1 for b in bad if not b[2]) + len(nat); r['known'] = sum(1 for b in bad if b[2]); r['unconfirmed'] = len(unconf)
    r['unconfirmed_list'] = [v['kind'] + ': ' + v['msg'] + ' at ' + v['site'] for v in unconf]
    return r

def load_findings():
    out = []; p = V + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) entry=(\S+) match="(.*?)" (.*)', l.strip())
            if m: out.append({'prop': m.group(1), 'entry': m.group(2), 're': m.group(3), 'text': m.group(4)})
    return out

def check(prop, tier, only=None):
    t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    engine()
    hs = [Harness(p, tier) for p in sorted(glob.glob(f'{V}/harness/{prop}_*.cpp'))]
    if not hs: raise Err('no harness for ' + prop)
    if only: 
        for h in hs: h.entries = [e for e in h.entries if e['name'] == only]
    hs = [h for h in hs if h.entries]
    with ThreadPoolExecutor(4) as ex: list(ex.map(lambda h: h.build(), hs))
    tb = time.time() - t0
    print(f'{prop} [{tier}] built in {tb:.1f}s')
    F = load_findings(); R = []
    for h in hs:
        for e in h.entries: R.append((h, run_entry(h, e, prop, None, F, seed)))
    T = lambda k: sum(r[k] for _, r in R)
    funcs = sorted(set(f for _, r in R for f in r['functions']))
    short = lambda p: p.replace(REPO + '/', '')
    repo_f = [n for n, f in funcs if f.startswith(REPO) or f.startswith('/repo')]
    files = sorted(set(short(f) for n, f in funcs if f.startswith(REPO)))
    try: dm = subprocess.run(['c++filt'], input='\n'.join(repo_f), stdout=subprocess.PIPE, text=True).stdout.split('\n')
    except Exception: dm = repo_f
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': T('violations'),
      'assumptions': sorted(set(x for h in hs for x in h.stubs)) + ['outside the claim: ' + x for x in sorted(set(x for h in hs for x in h.outside))] + ['semantics of LLVM 18 IR at -O1 of the current source as interpreted by /verif/engine; natively replayed samples check it'],
      'coverage': {'states': T('paths') + T('violating_paths'), 'transitions': T('forks') + T('paths'), 'traces_validated_against_impl': T('replayed_ok'), 'exhaustive': all(r['exhaustive'] for _, r in R),
        'explanation': 'states = execution paths of the real code decided symbolically, each standing for every input that follows it; transitions = decision points plus path ends; traces = solver-chosen inputs of finished paths run on the natively compiled code with equal observations',
        'bounds': [h.name + ': ' + b for h in hs for b in h.bounds], 'functions_encoded': dm, 'files_encoded': files,
        'queries': sum(r['solver']['queries'] for _, r in R), 'queries_discharged_by_z3': sum(r['solver']['z3Calls'] for _, r in R), 'assertion_queries': sum(r['solver']['assertQueries'] for _, r in R), 'solver_unknown': sum(r['solver']['z3Unknown'] for _, r in R),
        'solver_time_s': round(sum(r['solver']['z3Time'] for _, r in R), 2), 'instructions_interpreted': T('instructions'), 'paths_assumed_away': T('assumed_away'), 'incomplete_paths': T('incomplete_paths'), 'unexplored_states': T('unexplored_states'), 'native_mismatches': T('mismatches'),
        'unconfirmed_counterexamples': [u for _, r in R for u in r['unconfirmed_list']], 'known_findings': T('known'),
        'entries': [{k: r[k] for k in ('entry', 'paths', 'assumed_away', 'incomplete_paths', 'unexplored_states', 'exhaustive', 'wall', 'time_limit', 'incomplete_reasons', 'reach', 'missing_reach', 'replayed_ok', 'mismatches', 'solver')} for _, r in R],
        'samples': [dict(s, entry=r['entry']) for _, r in R for s in r['samples']][:12]}}
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    nv = T('violations')
    print(f"{prop}: {'VIOLATED' if nv else 'held on everything explored'}; {'exhaustive within bounds' if ev['coverage']['exhaustive'] else 'NOT exhaustive within bounds'}; {time.time()-t0:.1f}s")
    return 1 if nv else 0

def main():
    a = sys.argv[1:]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; prop = None; rep = None
    i = 0
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 1
        elif a[i] == '--entry': only = a[i + 1]; i += 1
        elif a[i] == '--replay': rep = a[i + 1]; i += 1
        elif a[i] == '--setup': prop = '--setup'
        else: prop = a[i]
        i += 1
    try:
        if prop == '--setup':
            engine(); rt_bc(); native_rt()
            ts = sorted(set(t for p in glob.glob(V + '/harness/C*.cpp') for t in Harness(p, 'quick').tus))
            with ThreadPoolExecutor(NPROC) as ex: list(ex.map(tu, ts))
            hs = [Harness(p, 'quick') for p in sorted(glob.glob(V + '/harness/C*.cpp'))]
            with ThreadPoolExecutor(4) as ex: list(ex.map(lambda h: h.build(), hs))
            print('setup done'); return 0
        if rep:
            m = re.search(r'#harness (\S+) (\S+) (\S+)', open(rep).read()); h = Harness(f'{V}/harness/{m.group(1)}.cpp', m.group(3)); engine(); h.build()
            st, out, err = run_native(h, m.group(2), rep); print(out, err, st); return 0 if st == 'ok' else 1
        return check(prop, tier, only)
    except Err as x:
        print('ERROR: ' + str(x)); return 2
sys.exit(main())

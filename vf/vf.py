#!/usr/bin/env python3
"""Runner: turns the contracts in /verif/harness into proof obligations over the
current text of /repo and discharges them with CBMC, unit by unit."""
import sys, os, re, json, time, shutil, subprocess, tempfile, hashlib, importlib, threading
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
H = os.path.join(VERIF, 'harness')
SRCS = ['alloc.c','codegen.c','hashmap.c','main.c','parse.c','platform.c','preprocess.c','strings.c','tokenize.c','type.c','unicode.c']

class U:
    """One verification unit = contracts of one or a few real functions."""
    def __init__(s, name, file, entry='harness', defs=None, replace=(), enforce=(), enforce_rec=(), dreplace=(),
                 loops=False, cbmc=(), unwind=None, unwindset=(), timeout=240, fuzz=200000, bounded=None, funcs=(),
                 tier='quick', solver=('sat',), checks=('--bounds-check','--pointer-check'), expect_reach=True, gi=(),
                 inject=None, weight=1, link=(), native_inject=False):
        s.__dict__.update(locals()); del s.__dict__['s']
        s.defs = defs or {}

def sh(cmd, timeout, cwd=None, mem=None):
    t = time.time()
    def lim():
        import resource
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        os.setsid()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=lim)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8','replace'), e.decode('utf8','replace'), time.time()-t
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        p.communicate()
        return 'timeout', '', '', time.time()-t

def race(cmds, timeout, mem=None, delay=10):
    """Run the same query on several back ends; the first answer counts."""
    t0 = time.time(); procs = []
    def lim():
        import resource
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        os.setsid()
    def start(c):
        fo = tempfile.TemporaryFile(); fe = tempfile.TemporaryFile()
        procs.append((subprocess.Popen(c, stdout=fo, stderr=fe, preexec_fn=lim), fo, fe))
    def kill():
        for p, _, _ in procs:
            if p.poll() is None:
                try: os.killpg(p.pid, 9)
                except ProcessLookupError: pass
                p.wait()
    start(cmds[0]); nap = 0.02; dead = set()
    while True:
        for k, (p, fo, fe) in enumerate(procs):
            if k not in dead and p.poll() is not None:
                fo.seek(0); fe.seek(0); o = fo.read().decode('utf8', 'replace'); e = fe.read().decode('utf8', 'replace')
                if 'VERIFICATION ' in o or len(dead) == len(cmds)-1:
                    kill(); return k, p.returncode, o, e, time.time()-t0
                dead.add(k)
                if len(procs) < len(cmds): start(cmds[len(procs)])
        el = time.time()-t0
        if el > timeout: kill(); return 0, 'timeout', '', '', el
        if len(procs) < len(cmds) and el > delay*len(procs): start(cmds[len(procs)])
        time.sleep(nap); nap = min(nap*1.3, 0.3)

class Runner:
    def __init__(s, prop, tier, seed):
        s.prop, s.tier, s.seed = prop, tier, seed
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and os.statvfs('/dev/shm').f_bavail*os.statvfs('/dev/shm').f_frsize > 2<<30 else None
        s.tmp = tempfile.mkdtemp(prefix='vf_%s_' % prop, dir=base)
        s.lock = threading.Lock(); s.built = {}; s.keylocks = {}
        s.t0 = time.time(); s.src = None
    def close(s): shutil.rmtree(s.tmp, ignore_errors=True)

    def defs(s, u): return ['-D%s' % k if v is None else '-D%s=%s' % (k, v) for k, v in sorted(u.defs.items())]

    def srcdir(s, u, native=False):
        """Directory whose .c files are verified: /repo itself, unless the unit
        needs loop contracts, which are inserted mechanically into a copy."""
        inj = {} if native else (u.inject or {})
        key = ('inj', json.dumps(inj), native)
        with s.lock: lk = s.keylocks.setdefault(key, threading.Lock())
        with lk:
            if key in s.built: 
                r = s.built[key]
                if isinstance(r, Exception): raise r
                return r
            d = tempfile.mkdtemp(prefix='src', dir=s.tmp)
            for f in os.listdir(REPO):
                if f.endswith(('.c', '.h')): shutil.copy(os.path.join(REPO, f), d)
            hp = os.path.join(d, 'slimcc.h')
            txt = open(hp).read()
            if not native: txt = re.sub(r'(?m)^(\s+(?:bool|TokenKind) \w+) : (?:1|16);', r'\1;', txt)
            open(hp, 'w').write('#pragma once\n#line 1\n' + txt)
            try:
                import inject
                for f, items in inj.items(): inject.apply(os.path.join(d, f), items)
                s.built[key] = d
            except Exception as e:
                s.built[key] = e; raise
            return d

    def goto(s, u):
        src = s.srcdir(u)
        key = (u.file, tuple(s.defs(u)), src, tuple(u.link))
        with s.lock: lk = s.keylocks.setdefault(key, threading.Lock())
        with lk:
            if key in s.built: return s.built[key]
            out = os.path.join(s.tmp, hashlib.md5(repr(key).encode()).hexdigest()+'.gb')
            cmd = ['goto-cc', '-DVF_CBMC', '-I', H, '-I', src] + s.defs(u) + [os.path.join(H, u.file)] + [os.path.join(src, x) for x in u.link] + ['-o', out]
            rc, o, e, t = sh(cmd, 120)
            r = (out if rc == 0 else None, (o+e)[-3000:], t)
            s.built[key] = r
            return r

    def run(s, u):
        R = dict(unit=u.name, status='undecided', obligations=0, discharged=0, failed=[], reach=0, time=0.0, note='', bounded=u.bounded,
                 solver='')
        t0 = time.time()
        try:
            gb, msg, _ = s.goto(u)
        except Exception as e:
            R['note'] = 'annotation could not be attached: %s' % e; return R
        if not gb:
            R['note'] = 'goto-cc failed: ' + msg; return R
        cur = gb
        steps = []
        if u.replace: steps.append(sum((['--replace-calls', x] for x in u.replace), []))
        if u.gi: steps.append(list(u.gi))
        if u.enforce or u.enforce_rec or u.dreplace or u.loops:
            st = ['--dfcc', u.entry]
            for f in u.enforce: st += ['--enforce-contract', f]
            for f in u.enforce_rec: st += ['--enforce-contract-rec', f]
            for f in u.dreplace: st += ['--replace-call-with-contract', f]
            if u.loops: st += ['--apply-loop-contracts']
            steps.append(st)
        for i, st in enumerate(steps):
            nxt = os.path.join(s.tmp, 'u%s_%d.gb' % (hashlib.md5(u.name.encode()).hexdigest()[:12], i))
            rc, o, e, t = sh(['goto-instrument'] + st + [cur, nxt], 300)
            if rc != 0:
                R['note'] = 'goto-instrument failed: ' + (o+e)[-2000:]; R['time'] = time.time()-t0; return R
            cur = nxt
        cmd = ['cbmc', '--function', u.entry, '--no-standard-checks', '--object-bits', '12', '--drop-unused-functions'] + list(u.checks)
        if u.unwind is not None: cmd += ['--unwind', str(u.unwind)]
        if u.unwindset: cmd += ['--unwindset', ','.join(u.unwindset)]
        if u.unwind is not None or u.unwindset: cmd += ['--unwinding-assertions']
        base = cmd + list(u.cbmc)
        NAMES = {'sat': 'CBMC SAT (MiniSat 2.2.1)', 'z3': 'Z3 4.8.12 (SMT2 bit-vectors)', 'cvc5': 'cvc5 1.1.2 (SMT2 bit-vectors)'}
        solvers = [u.solver] if isinstance(u.solver, str) else list(u.solver)
        cmds = [base + ([] if x == 'sat' else ['--'+x]) + [cur] for x in solvers]
        k, rc, o, e, t = race(cmds, u.timeout, mem=(10<<30))
        cmd = cmds[k]; R['cmd'] = ' '.join(cmd); R['solver'] = NAMES[solvers[k]]
        R['time'] = time.time()-t0
        if rc == 'timeout': R['note'] = 'verifier timeout %ss' % u.timeout; return R
        res = None
        if 'VERIFICATION SUCCESSFUL' in o or 'VERIFICATION FAILED' in o:
            res = []; fl = ''
            for l in o.split('\n'):
                m = re.match(r'^(\S.*?) function (\S+)$', l)
                if m: fl = m.group(1); continue
                m = re.match(r'^\[([^\]]+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR|UNDETERMINED)$', l)
                if m: res.append(dict(property=m.group(1), description=m.group(3), status=m.group(4), sourceLocation=dict(file=fl, line=m.group(2) or '')))
        if res is None: R['note'] = 'verifier gave no result (rc %s): %s' % (rc, (o+e)[-1200:]); return R
        unwindfail = []; unreached = []
        for p in res:
            desc = p.get('description', '')
            if desc.startswith('REACH'):
                R['reach'] += 1
                if p['status'] != 'FAILURE': unreached.append(desc)
                continue
            R['obligations'] += 1
            if p['status'] == 'SUCCESS': R['discharged'] += 1
            elif p['status'] == 'FAILURE':
                if 'unwinding assertion' in desc or desc.startswith('recursion unwinding'):
                    unwindfail.append(p); continue
                if 'no body for callee' in desc or 'no-body' in p['property']:
                    unwindfail.append(p); continue
                R['failed'].append(dict(property=p['property'], description=desc, line=p.get('sourceLocation', {})))
            else: R['note'] += ' %s:%s' % (p['property'], p['status'])
        R['gb'] = cur; R['basecmd'] = cmd
        if R['failed']: R['status'] = 'failed'
        elif unwindfail: R['note'] += ' unwinding bound reached: ' + ','.join(p['property'] for p in unwindfail[:4])
        elif unreached: R['note'] += ' vacuous: ' + '; '.join(unreached[:6])
        elif u.expect_reach and R['reach'] == 0: R['note'] += ' no reachability guard'
        elif R['obligations'] == 0: R['note'] += ' no obligations'
        elif R['discharged'] == R['obligations']: R['status'] = 'proved'
        return R

    # -- counterexample extraction and native replay ------------------------
    def trace_inputs(s, u, R, prop):
        cmd = R['basecmd'][:-1] + ['--property', prop, '--trace', '--json-ui', R['basecmd'][-1]]
        rc, o, e, t = sh(cmd, min(u.timeout, 200), mem=(10<<30))
        if rc == 'timeout': return None, 'trace timed out'
        try: data = json.loads(o)
        except Exception: return None, (o+e)[-1000:]
        ins = []
        for d in data:
            for p in d.get('result', []) if isinstance(d, dict) else []:
                for st in p.get('trace', []):
                    if st.get('stepType') == 'assignment' and str(st.get('lhs', '')).startswith('VFIN_') and not st.get('hidden'):
                        b = st.get('value', {}).get('binary')
                        if b is not None: ins.append((st['lhs'][5:], int(b, 2)))
        return ins, ''

    def native(s, u):
        key = ('native', u.file, tuple(s.defs(u)), u.entry)
        with s.lock: lk = s.keylocks.setdefault(key, threading.Lock())
        with lk:
            if key in s.built: return s.built[key]
            out = os.path.join(s.tmp, hashlib.md5(repr(key).encode()).hexdigest()+'.exe')
            src = s.srcdir(u, native=not u.native_inject)
            txt = s.closure_text(u.file)
            inc = set(re.findall(r'#include\s+"(?:/repo/)?(\w+\.c)"', txt))
            others = [os.path.join(REPO, f) for f in SRCS if f not in inc]
            cmd = ['gcc', '-O1', '-g', '-w', '-fwrapv', '-DVF_NATIVE', '-DVF_ENTRY=%s' % u.entry, '-Dmain=slimcc_main', '-I', H, '-I', src] + s.defs(u) + \
                  ['-c', os.path.join(H, u.file), '-o', out+'.o']
            rc, o, e, t = sh(cmd, 200)
            err = o+e
            if rc == 0:
                rc, o, e, t = sh(['gcc', '-O1', '-w', '-DVF_ENTRY=%s' % u.entry, '-DVF_NATIVE', '-I', H, '-c', os.path.join(H, 'native_rt.c'), '-o', out+'.rt.o'], 100)
                err += o+e
            objs = []
            if rc == 0:
                for f in others:
                    ok = os.path.join(s.tmp, 'obj_'+os.path.basename(f)+'.o')
                    with s.lock: l2 = s.keylocks.setdefault(ok, threading.Lock())
                    with l2:
                        if not os.path.exists(ok):
                            rc, o, e, t = sh(['gcc', '-O1', '-w', '-Dmain=slimcc_main', '-I', REPO, '-c', f, '-o', ok], 200); err += o+e
                    objs.append(ok)
                rc, o, e, t = sh(['gcc', '-no-pie', '-z', 'muldefs', out+'.o', out+'.rt.o'] + objs + ['-o', out, '-lm'], 100); err += o+e
            r = (out if rc == 0 else None, err[-3000:])
            s.built[key] = r
            return r

    def closure_text(s, f, seen=None):
        seen = seen if seen is not None else set()
        p = os.path.join(H, f)
        if f in seen or not os.path.exists(p): return ''
        seen.add(f); t = open(p).read()
        for g in re.findall(r'#include\s+"([\w./]+)"', t): t += s.closure_text(g, seen)
        return t

    def confirm(s, u, R):
        """Try to show a failing input on the natively compiled real code."""
        info = []
        if u.fuzz is None: return None, ['no native build for this unit']
        exe, err = s.native(u)
        for f in R['failed'][:3]:
            ins, msg = s.trace_inputs(u, R, f['property'])
            f['inputs'] = ins
            if ins is None: info.append('trace: ' + msg); continue
            if not exe: continue
            path = os.path.join(s.tmp, 'cex_%s.txt' % hashlib.md5((u.name+f['property']).encode()).hexdigest()[:10])
            with open(path, 'w') as fh:
                for k, v in ins: fh.write('INPUT %s=%d\n' % (k, v))
            rc, o, e, t = sh([exe, '--replay', path], 40)
            info.append('replay of %s: rc=%s %s' % (f['property'], rc, o.strip().split('\n')[0]))
            if rc in (1, 3) and 'FAILED' in o:
                return dict(kind='verifier counterexample replayed on the natively compiled code', output=o, inputs=ins, obligation=f), info
        if exe and u.fuzz:
            rc, o, e, t = sh([exe, '--fuzz', str(u.fuzz), str(s.seed), '60'], 120)
            info.append('search: rc=%s %s' % (rc, o.strip().split('\n')[0] if o.strip() else ''))
            if rc in (1, 3) and 'FAILED' in o:
                return dict(kind='search on the natively compiled code under the same contract', output=o, obligation=R['failed'][0] if R['failed'] else None), info
        if not exe: info.append('native build failed: ' + err)
        return None, info

def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) unit=(\S+) obligation=(.*?) :: (.*)', l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4)))
    return out

def main():
    prop = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--thorough' in sys.argv: tier = 'thorough'
    only = [a[7:] for a in sys.argv if a.startswith('--only=')]
    sys.path[:0] = [os.path.join(VERIF, 'props'), os.path.join(VERIF, 'vf')]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True); os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
    mod = importlib.import_module(prop)
    units = [u for u in mod.UNITS if u.tier == 'quick' or tier == 'thorough']
    if only: units = [u for u in units if any(re.search(o, u.name) for o in only)]
    units.sort(key=lambda u: -u.weight)
    r = Runner(prop, tier, seed); t0 = time.time(); rc = 0
    if '--native' in sys.argv: # development aid: the native build of every unit on the current tree
        def nat(u):
            if not u.fuzz: return u.name, 'no native entry'
            exe, err = r.native(u)
            if not exe: return u.name, 'BUILD FAILED ' + err[-600:]
            x = sh([exe, '--fuzz', str(u.fuzz), str(seed), '20'], 60); return u.name, 'rc=%s %.1fs %s' % (x[0], x[3], x[1].strip()[:300])
        with ThreadPoolExecutor(max_workers=8) as ex:
            for n, t in ex.map(nat, units): print(n, t)
        r.close(); sys.exit(0)
    try:
        with ThreadPoolExecutor(max_workers=8) as ex: results = list(ex.map(r.run, units))
        viol = []; und = []; known = []; kf = known_findings(prop)
        for u, R in zip(units, results):
            if R['status'] == 'failed':
                rest = []
                for f in R['failed']:
                    k = [x for x in kf if x[0] == u.name and x[1] == f['description']]
                    if k: known.append((u, f, k[0]))
                    else: rest.append(f)
                R['failed'] = rest
                if rest: viol.append((u, R))
                else: R['status'] = 'known finding'
            elif R['status'] == 'undecided': und.append((u, R))
        for u, f, k in known: print('KNOWN-FINDING: property=%s unit=%s obligation "%s": %s' % (prop, u.name, f['description'], k[2]))
        lines = []
        conf = []
        nconf = 0
        for u, R in viol:
            c, info = (None, ['not replayed: an earlier unit already has a confirmed failing input']) if nconf >= 2 or time.time()-t0 > 600 else r.confirm(u, R)
            if c: nconf += 1
            conf.append((u, R, c, info))
        fuzzed = {}
        for u, R in und:
            print('UNDECIDED property=%s unit=%s %s' % (prop, u.name, R['note'].strip()[:600]))
            if u.fuzz and time.time()-t0 < 700:
                exe, err = r.native(u)
                if exe:
                    rc2, o, e, t = sh([exe, '--fuzz', str(u.fuzz), str(seed), '20'], 60)
                    fuzzed[u.name] = (rc2, o.strip().split('\n')[0] if o.strip() else '')
                    if rc2 == 1 and 'FAILED' in o:
                        R['failed'] = [dict(property='(bounded stand-in)', description=o.split('\n')[0], line={})]
                        conf.append((u, R, dict(kind='bounded stand-in: search on the natively compiled code', output=o, obligation=None), [R['note']]))
        conf.sort(key=lambda x: x[2] is None)
        for i, (u, R, c, info) in enumerate(conf):
            path = os.path.join(VERIF, 'replay', '%s_%s.txt' % (prop, re.sub(r'\W+', '_', u.name)))
            with open(path, 'w') as fh:
                fh.write('property: %s\nunit: %s\nharness: %s entry %s %s\n' % (prop, u.name, u.file, u.entry, ' '.join(r.defs(u))))
                fh.write('functions under contract: %s\n' % ', '.join(u.funcs))
                for f in R['failed']: fh.write('failed obligation: %s  [%s]  %s:%s\n' % (f['description'], f['property'], f['line'].get('file', ''), f['line'].get('line', '')))
                fh.write('verifier: %s\n' % R.get('cmd', ''))
                if c: fh.write('\nfailing input (%s):\n%s\n' % (c['kind'], c['output']))
                else:
                    fh.write('\nno failing input found\n')
                    for f in R['failed'][:3]:
                        if f.get('inputs'): fh.write('verifier counterexample for %s:\n' % f['property'] + ''.join('INPUT %s=%d\n' % x for x in f['inputs']))
                fh.write('\nlog:\n' + '\n'.join(info) + '\n')
            line = 'VIOLATION property=%s replay=%s' % (prop, path)
            if not c: line += ' no-failing-input-found'
            print('  unit %s: obligation "%s"' % (u.name, R['failed'][0]['description'] if R['failed'] else '?'))
            lines.append((c is not None, line))
        if any(c for c, _ in lines): lines = [x for x in lines if x[0]]
        for _, l in lines[:3]: print(l)
        if lines: rc = 1
        elif units and all(R['status'] == 'undecided' for R in results) and not any(v[0] == 0 for v in fuzzed.values()): rc = 2
        proved = [(u, R) for u, R in zip(units, results) if R['status'] == 'proved' and not u.bounded]
        bnd = [(u, R) for u, R in zip(units, results) if R['status'] == 'proved' and u.bounded]
        pu = [(u, R) for u, R in zip(units, results) if not u.bounded]
        cov = dict(obligations=sum(R['obligations'] for u, R in pu), discharged=sum(R['discharged'] for u, R in pu),
                   checker_cmd='goto-cc (on %s) ; goto-instrument --dfcc/--replace-calls ; cbmc' % REPO,
                   trusted_base=['cbmc/goto-cc/goto-instrument 6.11.0', 'MiniSat 2.2.1 (CBMC built-in SAT)', '/verif/vf/vf.py'] + list(getattr(mod, 'TRUSTED', [])),
                   functions_under_contract=sorted(set(sum((list(u.funcs) for u in units), []))),
                   units=len(units), units_proved=len(proved), units_bounded_passed=len(bnd), units_undecided=len(und),
                   bounded_obligations=sum(R['obligations'] for u, R in bnd), solver_time_s=round(sum(R['time'] for R in results), 1),
                   reachability_guards_confirmed=sum(R['reach'] for R in results if R['status'] == 'proved'),
                   unit_results=[dict(unit=u.name, status=R['status'], obligations=R['obligations'], discharged=R['discharged'], back_end=R['solver'],
                                      seconds=round(R['time'], 2), bounded=u.bounded, note=R['note'].strip()[:300]) for u, R in zip(units, results)],
                   known_findings=[dict(unit=u.name, obligation=f['description'], what=k[2]) for u, f, k in known],
                   bounded_search={k: v[1] for k, v in fuzzed.items()})
        ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'proof'), coverage=cov, assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
                  wall_s=round(time.time()-t0, 2), violations=len(conf))
        if only: json.dump(ev, open('/tmp/w/ev.json','w')) if os.path.isdir('/tmp/w') else None
        else: json.dump(ev, open(os.path.join(VERIF, 'evidence', prop+'.json'), 'w'), indent=1)
        print('%s: %d units, %d proved, %d bounded-passed, %d failed, %d undecided, %d known; %d/%d obligations, %.1fs' % (prop, len(units), len(proved), len(bnd), len(viol), len(und), len(known), cov['discharged'], cov['obligations'], time.time()-t0))
    finally:
        if '--keep' in sys.argv: print('kept', r.tmp)
        else: r.close()
    sys.exit(rc)
if __name__ == '__main__': main()

#!/usr/bin/env python3-vt
"""Decide one property of /repo.

usage: check.py PROPERTY [quick|thorough]

 1. rebuild from /repo's working tree: the MIR of the library (input of the
    deductive engine in mirv/) and the native contract harness (native/)
 2. discharge the proof obligations of the property (mirv)
 3. run the executable form of the same contracts on the real code (bounded
    stand-in for what the proof leaves out, and the place where solver
    counterexamples are replayed)
 4. write evidence/PROPERTY.json; exit 0, or exit 1 with a VIOLATION line
"""
import json, os, re, resource, struct, subprocess, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(HERE, 'build')
sys.path.insert(0, HERE)
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
ENV.pop('RUSTFLAGS', None)


def sh(cmd, **kw):
    env = dict(ENV, **kw.pop('env', {}))
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, **kw)


def build_mir():
    d = os.path.join(BUILD, 'mir')
    os.makedirs(d, exist_ok=True)
    r = sh(['cargo', '+nightly', 'rustc', '--offline', '--locked', '--manifest-path', REPO + '/Cargo.toml', '--lib', '--',
            '--emit=mir', '-Zmir-opt-level=0', '-Zmir-enable-passes=-CheckAlignment,-CheckNull', '-C', 'overflow-checks=on', '-C', 'debug-assertions=on', '-Awarnings'], env={'CARGO_TARGET_DIR': d})
    if r.returncode:
        return None, r.stderr
    out = [os.path.join(p, f) for p, _, fs in os.walk(d) for f in fs if f.startswith('material') and f.endswith('.mir')]
    if not out:
        return None, 'no MIR emitted'
    out.sort(key=os.path.getmtime)
    return out[-1], ''


def build_native():
    d = os.path.join(BUILD, 'native')
    errs = []
    for feats in (['--features', 'wb'], []):
        r = sh(['cargo', 'build', '--release', '--offline', '--manifest-path', os.path.join(HERE, 'native', 'Cargo.toml')] + feats, env={'CARGO_TARGET_DIR': d})
        if r.returncode == 0:
            return os.path.join(d, 'release', 'native'), bool(feats), ''
        errs.append(r.stderr)
    return None, False, '\n'.join(errs)


def mine(mir, path):
    """numeric literals of the code under test: seeds of the generators"""
    fs, is_ = set(), set()
    txt = open(mir).read()
    for m in re.finditer(r'const (-?[0-9][0-9_.]*(?:E-?[0-9]+)?)f64', txt):
        fs.add(float(m.group(1).replace('_', '')))
    for m in re.finditer(r'const (-?[0-9][0-9_]*)_(?:i64|i32|usize|u8|u32|i128)', txt):
        is_.add(int(m.group(1).replace('_', '')))
    with open(path, 'w') as f:
        for x in sorted(fs):
            f.write('f:%016x\n' % struct.unpack('>Q', struct.pack('>d', x))[0])
        for x in sorted(is_):
            if -2**63 <= x < 2**63:
                f.write('i:%d\n' % x)
    return len(fs) + len(is_)


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_native(native, prop, seed, tier, dictf, case, budget=None):
    budget = budget or (240 if tier == 'quick' else 3000)
    cmd = [native, 'run', prop, str(seed), tier, dictf]
    env = {'NATIVE_BUDGET': str(budget)}
    err = ''
    try:
        r = sh(cmd, env=env, timeout=budget + 150, preexec_fn=limit)
        if r.returncode == 0:
            return json.loads(r.stdout), ''
        err = r.stdout[-1000:] + r.stderr[-1000:] + 'exit %d' % r.returncode
    except subprocess.TimeoutExpired:
        err = 'timeout'
    # the process died (stack overflow, abort, memory): find the case that kills it
    tr = os.path.join(BUILD, 'trace')
    for i in range(8):
        if os.path.exists('%s.%d' % (tr, i)):
            os.remove('%s.%d' % (tr, i))
    try:
        sh(cmd, env=dict(env, NATIVE_TRACE=tr), timeout=budget + 60, preexec_fn=limit)
    except subprocess.TimeoutExpired:
        pass
    for i in range(8):
        p = '%s.%d' % (tr, i)
        if os.path.exists(p):
            w = open(p).read().split()
            if not w:
                continue
            bad, text = case(w[0], w[1:])
            if bad:
                return [dict(kind=w[0], evaluations=1, distinct=1, exhaustive=False, samples=[], fails=[dict(args=w[1:], shown=' '.join(w[1:]), why=text)])], ''
    return None, err


def grouped(obs):
    """obligations that differ only in the path they were generated on share a line"""
    g = {}
    for o in obs:
        k = (re.sub(r'#\d+$', '', o['name']), o.get('function'), o['status'], o.get('backend'))
        e = g.setdefault(k, dict(name=k[0], function=k[1], status=k[2], backend=k[3], paths=0, seconds=0.0))
        e['paths'] += 1
        e['seconds'] = round(e['seconds'] + (o.get('seconds') or 0), 3)
        if o['status'] != 'discharged':
            e['detail'] = (o.get('detail') or '')[:300]
    r = list(g.values())
    if len(r) > 2000:
        r = r[:2000] + [dict(name='... and %d more lines' % (len(r) - 2000), status='see counts')]
    return r


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)

    mir, err = build_mir()
    if mir is None:
        print('build of /repo failed:\n' + err[-3000:])
        return 2
    native, wb, nerr = build_native()
    dictf = os.path.join(BUILD, 'dict.txt')
    nlit = mine(mir, dictf)

    violations = []   # (replay path, suffix)

    def replay_file(name, obj):
        p = os.path.join(rdir, '%s_%s.json' % (prop, re.sub(r'[^A-Za-z0-9_.-]', '_', name)[:80]))
        with open(p, 'w') as f:
            json.dump(obj, f, indent=1)
        return p

    def case(kind, args):
        """run one case against the real code: (failed?, text)"""
        if native is None:
            return None, 'native harness did not build'
        try:
            r = sh([native, 'case', prop, kind] + list(args), timeout=90, preexec_fn=limit)
        except subprocess.TimeoutExpired:
            return True, 'did not return within 90 s'
        if r.returncode < 0:
            return True, 'the process was killed by signal %d (%s)' % (-r.returncode, r.stderr.strip()[-200:])
        if r.returncode not in (0, 1):
            return None, 'case not accepted'
        return r.returncode == 1, r.stdout.strip()

    # -- executable contracts
    kinds = []
    if native:
        kinds, cerr = run_native(native, prop, seed, tier, dictf, case)
        if kinds is None:
            print('native harness failed:\n' + cerr)
            return 2
        for k in kinds:
            for f in k['fails'][:1]:
                cmd = '%s case %s %s %s' % (os.path.relpath(native, HERE), prop, k['kind'], ' '.join(f['args']))
                p = replay_file('native_' + k['kind'], dict(property=prop, kind=k['kind'], args=f['args'], shown=f['shown'], why=f['why'], replay='cd /verif && ' + cmd))
                violations.append((p, ''))
                print('contract %s fails on (%s): %s' % (k['kind'], f['shown'][:500], f['why'][:500]))

    # -- proof obligations
    proof = None
    try:
        from mirv import runner
        proof = runner.run(prop, mir, tier=tier, case=case, log=lambda s: print(s, flush=True))
    except ImportError:
        raise
    except Exception:
        proof = dict(obligations=[], functions=[], assumptions=[], trusted=[], error=traceback.format_exc()[-2000:])
        print('proof engine: undecided (%s)' % proof['error'].strip().splitlines()[-1])
    # an obligation failed or could not be decided: search for a failing input around the solver's models
    bad = [o for o in proof['obligations'] if o['status'] != 'discharged' and not o.get('replayed')]
    if bad and native and not violations:
        df2 = os.path.join(BUILD, 'dict2.txt')
        with open(dictf) as f:
            txt = f.read()
        with open(df2, 'w') as f:
            f.write(txt)
            for o in bad:
                for v in (o.get('model') or {}).values():
                    if isinstance(v, float):
                        f.write('f:%016x\n' % struct.unpack('>Q', struct.pack('>d', v))[0])
                    elif isinstance(v, int) and not isinstance(v, bool) and abs(v) < 2 ** 63:
                        f.write('i:%d\n' % v)
        more, _ = run_native(native, prop, seed + 7919, 'thorough', df2, case, budget=150 if tier == 'quick' else 1500)
        for k in more or []:
            for k0 in kinds:
                if k0['kind'] == k['kind']:
                    k0['evaluations'] += k['evaluations']
                    k0['distinct'] += k['distinct']
            for f in k['fails'][:1]:
                cmd = '%s case %s %s %s' % (os.path.relpath(native, HERE), prop, k['kind'], ' '.join(f['args']))
                p = replay_file('native_' + k['kind'], dict(property=prop, kind=k['kind'], args=f['args'], shown=f['shown'], why=f['why'], obligations=[o['name'] for o in bad], replay='cd /verif && ' + cmd))
                violations.append((p, ''))
                print('contract %s fails on (%s): %s' % (k['kind'], f['shown'][:500], f['why'][:500]))
    for o in proof['obligations']:
        if o['status'] == 'violated' and not (violations and not o.get('replayed')):
            p = replay_file('obligation_' + o['name'], dict(property=prop, obligation=o['name'], function=o.get('function'), model=o.get('model'), replayed=o.get('replayed'), solver_output=o.get('detail'), smt2=o.get('smt2')))
            violations.append((p, '' if o.get('replayed') else ' no-failing-input-found'))
            print('obligation %s of %s fails%s' % (o['name'], o.get('function'), ': ' + o['replayed'] if o.get('replayed') else ''))

    obs = proof['obligations']
    dis = [o for o in obs if o['status'] == 'discharged']
    und = [o for o in obs if o['status'] == 'undecided']
    full = bool(obs) and len(dis) == len(obs)
    cov = dict(
        obligations=len(obs), discharged=len(dis),
        checker_cmd='python3-vt check.py %s %s (mirv over the MIR of the working tree; z3 %s)' % (prop, tier, proof.get('z3', '')),
        trusted_base=proof.get('trusted', []),
        functions_under_contract=proof.get('functions', []),
        obligation_list=grouped(obs),
        solver_seconds=round(sum(o.get('seconds') or 0 for o in obs), 2),
        covers=proof.get('covers', [])[:300],
        bounded_stand_in=[dict(kind=k['kind'], evaluations=k['evaluations'], distinct=k['distinct'], exhaustive=k['exhaustive']) for k in kinds],
        evaluations=sum(k['evaluations'] for k in kinds),
        distinct_nontrivial=sum(k['distinct'] for k in kinds),
        rule='bounded part: seeded generators (edges, halves, ulps, %d literals mined from the MIR) or full enumeration, per contract; distinct by value of all arguments' % nlit,
        samples=[dict(kind=k['kind'], args=k['samples'][:2]) for k in kinds] or ['none'],
        harness='built, with white-box checks' if wb else ('built without white-box checks' if native else 'did not build: ' + nerr[-500:]),
        undecided=[o['name'] for o in und],
    )
    if proof.get('error'):
        cov['engine_error'] = proof['error']
    for fid, text in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s %s' % (prop, fid, text))
    whole = proof.get('scope') == 'whole'
    level = 'proof' if full and whole else 'other' if full else 'exploration'
    cov['explanation'] = ('every clause of the property is a discharged obligation (assumptions listed); the bounded cases are an extra run of the executable contracts' if level == 'proof' else
                          'discharged obligations decide: %s. Bounded, not proved: %s' % (proof.get('proved', '-'), proof.get('bounded', 'the rest of the property')) if level == 'other' else
                          'not all obligations were decided in this run; the bounded cases stand in (undecided obligations listed). Proof would decide: %s' % proof.get('proved', '-'))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=proof.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d/%d obligations discharged, %d undecided, %d bounded cases, %.1f s' % (prop, len(dis), len(obs), len(und), cov['evaluations'], time.time() - t0))
    if native is None and not full:
        print('no answer: harness did not build and the proof is incomplete')
        return 2 if not violations else 1
    for p, suf in violations:
        print('VIOLATION property=%s replay=%s%s' % (prop, p, suf))
    return 1 if violations else 0


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""Driver: builds LLVM IR of /repo's current DevIL sources, runs the static
analyser (tool/) for one property and reports.  Exit 0 held, 1 violated
(VIOLATION line), 2 analysis broken."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shlex, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('DEVIL_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
sys.path.insert(0, HERE)

class Broken(Exception): pass

def tool_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(HERE + '/tool/*')):
        if os.path.isfile(f): h.update(os.path.basename(f).encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]

def build_tool():
    out = os.path.join(HERE, 'build', tool_hash())
    exe = os.path.join(out, 'dvan')
    if os.path.exists(exe): return exe
    tmp = out + '.%d' % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    r = subprocess.run(['make', '-s', '-j8', '-C', HERE + '/tool', 'O=' + tmp], capture_output=True, text=True)
    if r.returncode or not os.path.exists(tmp + '/dvan'): raise Broken('analyser does not build:\n' + r.stderr[-3000:])
    for o in glob.glob(tmp + '/*.o'): os.remove(o)
    try: os.rename(tmp, out)
    except OSError: exe = tmp + '/dvan'
    return exe

def build_ir(scratch):
    """cmake-configures a scratch copy of the sources (the build system writes
    config.h into the tree) and compiles every unit of the build to bitcode."""
    src = scratch + '/DevIL'
    os.makedirs(src)
    for d in os.listdir(REPO + '/DevIL'):
        if d in ('examples', 'docs', 'test', 'bindings', 'data'): continue
        s = os.path.join(REPO, 'DevIL', d)
        if os.path.isdir(s): shutil.copytree(s, os.path.join(src, d), symlinks=True)
        else: shutil.copy2(s, src)
    env = dict(os.environ, CC='gcc', CXX='g++', LC_ALL='C')
    r = subprocess.run(['cmake', '-S', src, '-B', scratch + '/b', '-G', 'Ninja', '-Wno-dev', '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
        '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON', '-DIL_TESTS=OFF', '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-DMNG_INCLUDE_DIR=/usr/include',
        '-DCMAKE_DISABLE_FIND_PACKAGE_Jasper=ON', '-DCMAKE_DISABLE_FIND_PACKAGE_NVTT=ON', '-DCMAKE_DISABLE_FIND_PACKAGE_OpenEXR=ON'],
        env=env, capture_output=True, text=True)
    if r.returncode: raise Broken('cmake configure failed:\n' + (r.stdout + r.stderr)[-2000:])
    cc = json.load(open(scratch + '/b/compile_commands.json'))
    os.makedirs(scratch + '/bc')
    def one(ic):
        i, c = ic
        a = shlex.split(c['command']); args = []; k = 1
        while k < len(a):
            x = a[k]
            if x in ('-isystem', '-include', '-D', '-I', '-U'): args += [x, a[k+1]]; k += 2; continue
            if x.startswith(('-D', '-I', '-std', '-U')): args.append(x)
            k += 1
        out = '%s/bc/%03d.bc' % (scratch, i)
        cxx = not c['file'].endswith('.c')
        cmd = [LLVM + ('clang++' if cxx else 'clang')] + (['-std=gnu++17'] if cxx and not any(x.startswith('-std') for x in args) else []) + args + \
              ['-w', '-Wno-register', '-Wno-narrowing', '-Wno-reserved-user-defined-literal', '-g', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-delete-null-pointer-checks', '-fwrapv',
               '-fno-strict-aliasing', '-emit-llvm', '-c', c['file'], '-o', out]
        r = subprocess.run(cmd, cwd=c['directory'], capture_output=True, text=True)
        return c['file'], r.returncode, r.stderr, out
    with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(one, enumerate(cc)))
    for f, rc, err, _ in res:
        if rc: raise Broken('clang cannot compile %s:\n%s' % (f, err[-1500:]))
    if len(res) < 90: raise Broken('only %d translation units found' % len(res))
    r = subprocess.run([LLVM + 'llvm-link', '-o', scratch + '/all.bc'] + [x[3] for x in res], capture_output=True, text=True)
    if r.returncode: raise Broken('llvm-link failed: ' + r.stderr[-2000:])
    # names declared by the public headers
    names = set()
    for h in ('il.h', 'ilu.h', 'ilut.h'):
        t = open(src + '/include/IL/' + h, errors='replace').read()
        t = re.sub(r'//[^\n]*|/\*.*?\*/', ' ', t, flags=re.S)
        names |= set(re.findall(r'\b(il[ut]*[A-Z]\w*)\s*\(', t))
    open(scratch + '/api.txt', 'w').write('\n'.join(sorted(names)) + '\n')
    return len(res)

def known():
    f, fx = {}, []
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                m = re.match(r'finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)', l)
                if m: f.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
            elif l.startswith('fixed:'): fx.append(l)
    return f, fx

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from props import SPEC
    spec = SPEC[pid]
    scratch = tempfile.mkdtemp(prefix='dvan.')
    try:
        exe = build_tool()
        units = build_ir(scratch)
        cmd = [exe, scratch + '/all.bc'] + spec['checks'] + ['--api', scratch + '/api.txt', '--opt', 'tier=' + tier, '--opt', 'property=' + pid]
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=840)
        if r.returncode: raise Broken('analyser failed (%d): %s' % (r.returncode, (r.stderr or r.stdout)[-2000:]))
        res = json.loads(r.stdout)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    kf, _ = known(); kf = kf.get(pid, {})
    count, items, findings, errors, notes = {}, {}, [], [], []
    for c in spec['checks']:
        o = res[c]
        for k, v in o['count'].items(): count[k] = count.get(k, 0) + v
        for k, v in o['items'].items(): items.setdefault(k, set()).update(v)
        findings += o['findings']; errors += o['errors']; notes += o['notes']
    for k, lo in spec.get('floor', {}).items():
        have = len(items.get(k[6:], ())) if k.startswith('items.') else count.get(k, 0)
        if have < lo: errors.append('rule instances vanished: %s = %d, expected at least %d' % (k, have, lo))
    if count.get('incomplete', 0) or count.get('roots_incomplete', 0): errors.append('analysis budget exhausted')
    viol, kn = [], []
    for f in findings: (kn if f['key'] in kf else viol).append(f)
    explanation = spec['explanation']
    cov = dict(explanation=explanation, rule=spec['rule'], translation_units=units, functions=res['functions'], ir_instructions=res['instructions'],
               counts=count, rule_instances={k: len(v) for k, v in items.items()},
               samples={k: sorted(v)[:12] for k, v in items.items()}, notes=notes[:60],
               known_findings=sorted({f['key'] for f in kn}))
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get('level', 'other'), coverage=cov, assumptions=spec['assumptions'],
              wall_s=round(time.time() - t0, 2), violations=[dict(f) for f in viol])
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open(HERE + '/evidence/%s.json' % pid, 'w'), indent=1)
    for k in sorted({f['key'] for f in kn}): print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, kf[k]))
    if errors and not viol:
        print('ANALYSIS-BROKEN property=%s' % pid); [print('  ' + e) for e in errors]; return 2
    print('%s %s: %s; %s' % (pid, tier, ', '.join('%s=%d' % kv for kv in sorted(count.items())), ', '.join('%s=%d' % (k, len(v)) for k, v in sorted(items.items()))))
    if viol:
        rp = HERE + '/evidence/%s.violations.txt' % pid
        with open(rp, 'w') as fh:
            for f in viol: fh.write('%s\n  at   %s\n  rule %s\n  %s\n  path %s\n\n' % (f['key'], f['where'], spec['rule'], f['what'], f['path']))
        for f in viol[:20]: print('  %s | %s | %s | %s' % (f['key'], f['where'], f['what'], f['path']))
        print('VIOLATION property=%s replay=%s' % (pid, rp)); return 1
    return 0

if __name__ == '__main__':
    try:
        if sys.argv[1] == '--setup': build_tool(); sys.exit(0)
        sys.exit(main())
    except Broken as e:
        print('ANALYSIS-BROKEN ' + str(e)); sys.exit(2)
    except Exception as e:
        import traceback; traceback.print_exc(); print('ANALYSIS-BROKEN ' + repr(e)); sys.exit(2)

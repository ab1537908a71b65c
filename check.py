#!/usr/bin/env python3
"""Runs the check of one property: builds the library under test from /repo's working tree, builds the model checker
for the property, explores, writes evidence/<id>.json, prints KNOWN-FINDING / VIOLATION lines.

  check.py C01 [--tier quick|thorough] [--replay FILE]
Exit status: 0 property held on everything explored, 1 violation, 2 the check itself could not run.
"""
import sys, os, subprocess, json, glob, re, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
MC = os.path.join(HERE, 'mc')

# property -> harness source and the variants of the library it is linked with
CHECKS = {
    'C01': [('c01.cpp', 'plain')],
    'C02': [('c02.cpp', 'plain')],
    'C03': [('c03.cpp', 'asan')],
    'C04': [('c04.cpp', 'plain')],
    'C05': [('c05.cpp', 'plain')],
    'C06': [('c06.cpp', 'asan')],
    'C07': [('c07.cpp', 'plain')],
    'C08': [('c08.cpp', 'plain')],
    'C09': [('c09.cpp', 'plain')],
    'C10': [('c10.cpp', 'plain')],
    'C11': [('c11.cpp', 'asan')],
    'C12': [('c12.cpp', 'plain')],
    'C13': [('c13.cpp', 'plain')],
    'C14': [('c14.cpp', 'plain')],
    'C15': [('c15.cpp', 'plain')],
    'C16': [('c16.cpp', 'plain')],
    'C17': [('c17.cpp', 'tsan')],
    'C18': [('c18.cpp', 'plain')],
    'C19': [('c19.cpp', 'plain')],
    'C20': [('c20.cpp', 'plain')],
    'C21': [('c21.cpp', 'plain')],
    'C22': [('c22.cpp', 'plain')],
}
LEVEL = {'C04': 'fault_enumeration', 'C05': 'fault_enumeration', 'C06': 'fault_enumeration'}
TOOLS = {'C15', 'C18'}
TOOLFUNCS = {'C06'} # checks that call the functions behind the tools directly

TOOLMAIN = {'C15': 'iffpp', 'C18': 'iffjoin'} # checks that also run a tool's main function (as tool_main) in a process of their own

WRAP = ['-Wl,--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'free')]
EXTRA_WRAP = {'C05': ['-Wl,--wrap=fopen']}
VARIANTS = {
    'plain': dict(lib=['-O2', '-g'], harness=['-O2', '-g'], link=WRAP, env={}),
    'asan': dict(lib=['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
                 harness=['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer'], link=WRAP + ['-fsanitize=address,undefined'],
                 env={'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16:abort_on_error=0:exitcode=77:max_malloc_fill_size=0:handle_segv=1:use_sigaltstack=1',
                      'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=77'}),
    'tsan': dict(lib=['-O1', '-g', '-fsanitize=thread', '-fno-builtin', '-D_FORTIFY_SOURCE=0'], harness=['-O2', '-g'],
                 link=WRAP + ['-Wl,--wrap=' + f for f in ('memcpy', 'memmove', 'memset', 'memcmp', 'strlen', 'strcpy', 'strncpy', 'strcat', 'sprintf', 'snprintf', 'vsprintf', 'vsnprintf',
                                                          'fread', 'fwrite', 'fgetc', 'fputc', 'getc', 'putc', 'fseek', 'ftell', 'ungetc', 'fflush', 'pthread_mutex_lock', 'printf', 'fprintf', 'vfprintf', 'putchar', 'puts', 'fputs')] + ['-lpthread'], env={}),
}


TOOLDEFS = ['-DPACKAGE_NAME="libiff"', '-DPACKAGE_VERSION="0.1"', '-DHAVE_GETOPT_H=1']


def die(msg):
    print(msg, file=sys.stderr)
    sys.exit(2)


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if p.returncode != 0:
        die('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))


def prepare_sources(build):
    """Copies the sources of the working tree and generates the configured header like configure does."""
    inc = os.path.join(build, 'src', 'libiff')
    shutil.rmtree(os.path.join(build, 'src'), ignore_errors=True)
    os.makedirs(inc)
    for f in glob.glob(REPO + '/src/libiff/*.[ch]'):
        shutil.copy(f, inc)
    for tool in ('iffpp', 'iffjoin'):
        os.makedirs(os.path.join(build, 'src', tool))
        for f in glob.glob(REPO + '/src/%s/*.[ch]' % tool):
            shutil.copy(f, os.path.join(build, 'src', tool))
    tin = REPO + '/src/libiff/ifftypes.h.in'
    if os.path.exists(tin):
        s = open(tin).read().replace('@IFF_BIG_ENDIAN@', '0' if sys.byteorder == 'little' else '1')
        open(os.path.join(inc, 'ifftypes.h'), 'w').write(s)
    return inc


def build(prop, src, variant, build_dir, inc, pool):
    v = VARIANTS[variant]
    obj = os.path.join(build_dir, 'obj-' + variant)
    shutil.rmtree(obj, ignore_errors=True)
    os.makedirs(obj)
    jobs, objs, libobjs = [], [], []
    for f in sorted(glob.glob(inc + '/*.c')):
        o = os.path.join(obj, 'lib_' + os.path.basename(f) + '.o')
        jobs.append(['gcc', '-w', '-I' + inc] + v['lib'] + ['-c', f, '-o', o])
        libobjs.append(o)
    cxx = ['g++', '-std=c++17', '-w', '-I' + MC, '-I' + inc, '-D_GNU_SOURCE'] + v['harness']
    for f in (src, 'mc.cpp', 'common.cpp'):
        o = os.path.join(obj, f + '.o')
        jobs.append(cxx + ['-c', os.path.join(MC, f), '-o', o])
        objs.append(o)
    if prop in TOOLFUNCS:
        for d in ('iffjoin', 'iffpp'):
            for f in sorted(glob.glob(os.path.join(build_dir, 'src', d, '*.c'))):
                if not re.search(r'\bmain\s*\(', open(f, errors='replace').read()):
                    o = os.path.join(obj, d + '_' + os.path.basename(f) + '.o')
                    jobs.append(['gcc', '-w', '-I' + inc, '-I' + os.path.dirname(f)] + v['lib'] + ['-c', f, '-o', o])
                    libobjs.append(o)
    if prop in TOOLMAIN:
        for f in sorted(glob.glob(os.path.join(build_dir, 'src', TOOLMAIN[prop], '*.c'))):
            o = os.path.join(obj, 'tool_' + os.path.basename(f) + '.o')
            jobs.append(['gcc', '-w', '-Dmain=tool_main'] + TOOLDEFS + ['-I' + inc, '-I' + os.path.dirname(f)] + v['lib'] + ['-c', f, '-o', o])
            libobjs.append(o)
    cs = ['alloc.c'] + (['tsanhooks.c'] if variant == 'tsan' else [])
    for f in cs:
        o = os.path.join(obj, f + '.o')
        jobs.append(['gcc', '-w', '-O2', '-g', '-I' + MC, '-c', os.path.join(MC, f), '-o', o])
        objs.append(o)
    list(pool.map(run, jobs))
    if variant == 'tsan':  # static data of the library goes into sections of its own, so that it can be put back to its initial state
        names = [a for n, to in (('.data', 'libdata'), ('.data.rel', 'libdata'), ('.data.rel.local', 'libdata'), ('.bss', 'libbss')) for a in ('--rename-section', n + '=' + to)]
        list(pool.map(run, [['objcopy'] + names + [o] for o in libobjs]))
    exe = os.path.join(build_dir, 'check-' + variant)
    run(['g++', '-o', exe] + objs + libobjs + v['link'] + EXTRA_WRAP.get(prop, []))
    return exe


def build_tools(build_dir, inc, pool):
    """The two command-line tools, built like the project builds them."""
    out, jobs = {}, []
    lib = []
    for f in sorted(glob.glob(inc + '/*.c')):
        o = os.path.join(build_dir, 'tool_' + os.path.basename(f) + '.o')
        jobs.append(['gcc', '-w', '-O2', '-g', '-I' + inc, '-c', f, '-o', o])
        lib.append(o)
    list(pool.map(run, jobs))
    for tool in ('iffpp', 'iffjoin'):
        exe = os.path.join(build_dir, tool)
        cs = sorted(glob.glob(os.path.join(build_dir, 'src', tool, '*.c')))
        run(['gcc', '-w', '-O2', '-g'] + TOOLDEFS + ['-I' + inc, '-I' + os.path.join(build_dir, 'src', tool), '-o', exe] + cs + lib)
        out[tool] = exe
    return out


def known_findings(prop):
    """known_findings.txt: lines 'finding: property=<id> key=<key> <what fails>' and 'fixed: property=<id> <commit> <what failed>'."""
    k = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                k[m.group(2)] = m.group(3)
    return k


def main():
    args = sys.argv[1:]
    if args == ['--setup']:
        for t in ('gcc', 'g++'):
            run([t, '--version'])
        return 0
    prop = args.pop(0) if args else ''
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    while args:
        a = args.pop(0)
        if a == '--tier':
            tier = args.pop(0)
        elif a == '--replay':
            replay = os.path.abspath(args.pop(0))
        else:
            die('unknown argument ' + a)
    if prop not in CHECKS or tier not in ('quick', 'thorough'):
        die(__doc__)
    t0 = time.time()
    if replay:
        m = re.search(r'^tier (\S+)', open(replay).read(), re.M)
        if m:
            tier = m.group(1)
    build_dir = os.path.join(HERE, 'build', prop + ('' if REPO == '/repo' else '-' + os.path.basename(REPO)))
    os.makedirs(build_dir, exist_ok=True)
    replays = os.path.join(HERE, 'replays')
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    evidence_file = os.path.join(HERE, 'evidence', prop + '.json')
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    rc = 2
    try:
        pool = ThreadPoolExecutor(8)
        inc = prepare_sources(build_dir)
        known = known_findings(prop)
        extra = []
        if prop in TOOLS:
            tools = build_tools(build_dir, inc, pool)
            extra = ['--arg', tools['iffpp'], '--arg', tools['iffjoin']]
        exes = [(build(prop, src, var, build_dir, inc, pool), var) for src, var in CHECKS[prop]]
        results = []
        rc = 0
        build_s = time.time() - t0
        for exe, var in exes:
            out = os.path.join(tmp, 'out.json')
            cmd = [exe, '--property', prop, '--tier', tier, '--out', out, '--replays', replays, '--tmp', tmp] + extra
            for k, w in known.items():
                cmd += ['--known', k + ' ' + w]
            if replay:
                cmd += ['--replay', replay]
            env = dict(os.environ)
            env.update(VARIANTS[var]['env'])
            env['LC_ALL'] = 'C'
            p = subprocess.run(cmd, env=env, cwd=tmp)
            if replay:
                return p.returncode
            if p.returncode not in (0, 1):
                die('the explorer ended with status %d' % p.returncode)
            results.append((var, json.load(open(out))))
            if p.returncode == 1:
                rc = 1
                break
        tot = lambda k: sum(r[k] for _, r in results)
        samples = [s for _, r in results for s in r['samples']][:12]
        facts = {}
        for var, r in results:
            for k, x in r['facts'].items():
                facts[k] = facts.get(k, 0) + x
        level = LEVEL.get(prop, 'model_checking')
        scenes = [dict(s, variant=var) for var, r in results for s in r['scenes']]
        cov = dict(states=tot('states'), transitions=tot('transitions'), traces_validated_against_impl=tot('validated'), samples=samples,
                   scenes=scenes, choice_points=tot('choice_points'), revisits_pruned=tot('pruned_revisits'), facts=facts,
                   exhaustive=(rc == 0), states_capped=any(r['states_capped'] for _, r in results),
                   bound_rule='every job of every scene and every choice sequence within the bounds stated in DESIGN.md section %s was executed; no cap was hit' % prop)
        if level == 'fault_enumeration':
            for k in ('states', 'transitions', 'traces_validated_against_impl'):
                cov.pop(k)
            cov.update(evaluations=tot('executions'), distinct_nontrivial=tot('states'),
                       rule='one evaluation = one complete execution with one fault position/kind; distinct_nontrivial counts distinct (observed outcome, input) fingerprints of executions in which a fault was armed or an oracle comparison took place')
        ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=level, coverage=cov,
                  assumptions=[a for _, r in results for a in r['assumptions']], wall_s=round(time.time() - t0, 2), violations=tot('violations'))
        json.dump(ev, open(evidence_file, 'w'), indent=1)
        seen = set()
        for _, r in results:
            for k, what in r['findings']:
                if k not in seen:
                    seen.add(k)
                    print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
        print('%s %s: %d executions, %d states, %d transitions, %.1f s (build %.1f s): %s' % (
            prop, tier, tot('executions'), tot('states'), tot('transitions'), time.time() - t0, build_s, 'VIOLATED' if rc else 'held on everything explored'))
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())

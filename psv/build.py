"""Builds what a check needs from /repo's current working tree, in a scratch directory that is removed at exit."""
import atexit, os, shutil, subprocess, tempfile, json, concurrent.futures as cf

REPO = os.environ.get('PSV_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
ENV = dict(os.environ, HOME='/root', LC_ALL='C.UTF-8', TZ='UTC')
JOBS = os.cpu_count() or 4
_scratch = None
READLINE = True


class BuildError(Exception):
    pass


def scratch():
    global _scratch
    if _scratch is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
        _scratch = tempfile.mkdtemp(prefix='psv-', dir=base)
        os.chmod(_scratch, 0o755)
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout.decode('utf8', 'replace')[-6000:])
    return p.stdout


def binary(kind):
    """kind: 'plain' or 'asan' -> path of the fork server linked with the interpreter of the working tree"""
    s = scratch()
    d = os.path.join(s, 'b_' + kind)
    os.makedirs(d, exist_ok=True)
    if kind == 'plain':
        cc, flags = 'g++', '-O1 -g0 -DPSC_VERIF'
    else:
        cc, flags = 'clang++', ('-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,bounds,null,return,unreachable,alignment,'
                                'enum,bool,integer-divide-by-zero,shift '
                                '-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR -DPSC_VERIF')
    drv = os.path.join(d, 'driver.o')
    _run([cc, '-std=c++20', '-O1'] + (['-fsanitize=address'] if kind == 'asan' else []) + ['-c', os.path.join(HERE, 'driver.cpp'), '-o', drv])
    _run(['cmake', '-S', REPO, '-B', d + '/b', '-G', 'Ninja', '-DCMAKE_CXX_COMPILER=' + cc, '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_C_COMPILER_WORKS=1', '-DCMAKE_CXX_COMPILER_WORKS=1', '-DCMAKE_BUILD_TYPE=None',
          '-DCMAKE_CXX_FLAGS=-Wno-error -w ' + flags,
          '-DCMAKE_EXE_LINKER_FLAGS=-pthread -Wl,--wrap=main ' + drv])
    _run(['ninja', '-C', d + '/b', '-j%d' % JOBS, 'PseudoEngine2'])
    global READLINE
    READLINE = 'NOTFOUND' not in next((l for l in open(d + '/b/CMakeCache.txt') if l.startswith('HAS_READLINE')), 'NOTFOUND')
    return d + '/b/PseudoEngine2'


def llvm_ir(opt='mem2reg'):
    """Every source file of the CMake target -> textual LLVM IR; returns list of (source, path)."""
    s = scratch()
    d = os.path.join(s, 'ir')
    os.makedirs(d, exist_ok=True)
    _run(['cmake', '-S', REPO, '-B', d + '/b', '-G', 'Ninja', '-DCMAKE_CXX_COMPILER=clang++', '-DCMAKE_BUILD_TYPE=None',
          '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON', '-DCMAKE_DISABLE_PRECOMPILE_HEADERS=ON'])
    db = json.load(open(d + '/b/compile_commands.json'))
    pch = os.path.join(d, 'pch.h.pch')
    inc = ['-I' + REPO + '/src', '-I' + d + '/b']
    base = ['clang++', '-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-w', '-D_FORTIFY_SOURCE=0',
            '-fno-strict-return'] + inc
    _run(base + ['-x', 'c++-header', REPO + '/src/pch.h', '-o', pch])

    def one(e):
        out = os.path.join(d, os.path.relpath(e['file'], REPO).replace('/', '__') + '.ll')
        _run(base + ['-include-pch', pch, '-S', '-emit-llvm', e['file'], '-o', out + '.raw'])
        _run(['opt', '-S', '-passes=' + opt, out + '.raw', '-o', out])
        os.remove(out + '.raw')
        return e['file'], out
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, [e for e in db if e['file'].endswith('.cpp')]))


def verify_inputs(cache=None):
    """what the deductive layer verifies: the linked IR of every source file, demangled names, record layouts, enumerators"""
    import pickle, re
    if cache and os.path.exists(cache + '/consts.pkl'):
        return cache + '/all.ll', pickle.load(open(cache + '/dem.pkl', 'rb')), open(cache + '/lay.txt').read(), pickle.load(open(cache + '/consts.pkl', 'rb'))
    with cf.ThreadPoolExecutor(2) as ex:
        lay = ex.submit(layouts)
        files = llvm_ir('sroa,simplifycfg')
        d = os.path.join(scratch(), 'ir')
        _run(['llvm-link', '-S', '-o', d + '/all.ll'] + [p for _, p in files])
        for _, p in files:
            os.remove(p)
        names = set()
        for l in open(d + '/all.ll'):
            if l.startswith(('define ', 'declare ', '@')):
                m = re.search(r'@(_Z[\w.$]+)', l)
                if m:
                    names.add(m.group(1))
        names = sorted(names)
        p = subprocess.run(['llvm-cxxfilt'], input='\n'.join(names), stdout=subprocess.PIPE, env=ENV, text=True)
        if p.returncode:
            raise BuildError('llvm-cxxfilt')
        dem = dict(zip(['@' + n for n in names], p.stdout.split('\n')))
        text, consts = lay.result()
    if cache:
        os.makedirs(cache, exist_ok=True)
        shutil.copy(d + '/all.ll', cache + '/all.ll')
        pickle.dump(dem, open(cache + '/dem.pkl', 'wb'))
        open(cache + '/lay.txt', 'w').write(text)
        pickle.dump(consts, open(cache + '/consts.pkl', 'wb'))
    return d + '/all.ll', dem, text, consts


def layouts():
    """record layouts of every class of /repo/src and values of its enumerators, as the compiler computes them"""
    import re
    d = os.path.join(scratch(), 'lay')
    os.makedirs(d, exist_ok=True)
    open(d + '/PsConfig.h', 'w').write('#define PseudoEngine2_VERSION_MAJOR "0"\n#define PseudoEngine2_VERSION_MINOR "0"\n#define PseudoEngine2_VERSION_PATCH "0"\n')
    heads = []
    for r, _, fs in os.walk(REPO + '/src'):
        heads += [os.path.relpath(os.path.join(r, f), REPO + '/src') for f in fs if f.endswith('.h') and f != 'pch.h']
    heads.sort()
    text = '\n'.join(open(REPO + '/src/' + h, encoding='utf8', errors='replace').read() for h in heads)
    text = re.sub(r'//.*|/\*.*?\*/', '', text)
    cls = sorted(set(re.findall(r'\b(?:class|struct)\s+(\w+)[^;{}()<>]*\{', text)))
    inc = ''.join('#include "%s"\n' % h for h in heads)
    open(d + '/lay.cpp', 'w').write(inc + 'namespace PSC {\n' + ''.join('static_assert(sizeof(%s) > 0);\n' % c for c in cls) + '}\n')
    base = ['clang++', '-std=c++20', '-w', '-ferror-limit=0', '-include', REPO + '/src/pch.h', '-I' + REPO + '/src', '-I' + d]
    p = subprocess.run(base + ['-fsyntax-only', '-Xclang', '-fdump-record-layouts', d + '/lay.cpp'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, text=True)
    out = p.stdout
    ex = []
    for name, body in re.findall(r'\benum\s+(?:class\s+)?(\w+)\s*(?::\s*\w+\s*)?\{(.*?)\}', text, re.S):
        for e in re.sub(r'=[^,]*', '', body).split(','):
            if re.fullmatch(r'\w+', e.strip()):
                ex.append(name + '::' + e.strip())
    ex = list(dict.fromkeys(('DataType::' + e.split('::')[1]) if e.startswith('Type::') else e for e in ex))
    body = {i: 'extern const int K%d = (int)%s;\n' % (i, e) for i, e in enumerate(ex)}

    def put():
        open(d + '/k.cpp', 'w').write(inc + 'namespace PSC {\n' + ''.join(body.values()) + '}\n')
    put()
    p = subprocess.run(base + ['-fsyntax-only', d + '/k.cpp'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, text=True)
    bad = {int(x) for x in re.findall(r'\bK(\d+) = ', p.stderr)}     # private enumerations
    body = {i: l for i, l in body.items() if i not in bad}
    put()
    _run(base + ['-S', '-emit-llvm', '-o', d + '/k.ll', d + '/k.cpp'])
    consts = {}
    for m in re.finditer(r'@_ZN3PSC[LE]*\d*K(\d+)E = .*constant i32 (-?\d+)', open(d + '/k.ll').read()):
        consts[ex[int(m.group(1))]] = int(m.group(2))
    return out, consts

"""Compile the analysed tree to LLVM bitcode and run irprep; cached by content."""
import hashlib, os, subprocess, sys, json, glob, shutil, tempfile, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CACHE = os.environ.get('VP_CACHE') or os.path.join(BUILD, 'cache')

class Broken(Exception):
    pass

CONFIGS = {
    # the configuration the repository builds and tests by default
    'default': ['-DEnableJNIVMGC', '-DJNI_DEBUG', '-DJNI_RETURN_NON_ZERO', '-DJNIVM_FAKE_JNI_SYNTAX=0', '-std=gnu++14'],
    'trace':   ['-DEnableJNIVMGC', '-DJNI_DEBUG', '-DJNI_TRACE', '-DJNI_RETURN_NON_ZERO', '-DJNIVM_FAKE_JNI_SYNTAX=1', '-std=gnu++17'],
    'plain':   ['-DEnableJNIVMGC', '-DJNI_DEBUG', '-DJNIVM_FAKE_JNI_SYNTAX=0', '-std=gnu++17'],
}
CFLAGS = ['-g', '-fno-limit-debug-info', '-fno-discard-value-names', '-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', '-w']
STDINLINE = (r'bits/(stl_algo\.h|stl_algobase\.h|predefined_ops\.h|stl_iterator\.h|stl_iterator_base_\w+\.h|std_mutex\.h|'
             r'unique_lock\.h|move\.h|ptr_traits\.h|invoke\.h|stl_function\.h|range_access\.h)|gthr-default\.h|/mutex$|/type_traits$|/utility$|/initializer_list$')
BOUNDARY_API = r'JNITypesObjectBase<.*::(JNICast|ToJNIType|ToJNIReturnType|GetClass|GetJNISignature)\b|UnpackJObject<|jnivm::InternalFindClass\(|jnivm::ENV::GetClass\(|jnivm::defaultVal<'
VARIANTS = {
    # name: boundary regex (functions kept as calls; everything else of the tree is inlined)
    'api': BOUNDARY_API,
    'deny': BOUNDARY_API + r'|Baron::Jvm::is(Class|Method|Field)(Denied|Blacklisted)\(',
    'full': r'$^',
}

def tree_files():
    out = []
    for d in ('src', 'include'):
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            if '/tests' in r or '/examples' in r:
                continue
            for f in fs:
                if f.endswith(('.cpp', '.h', '.hpp', '.cc', '.cxx', '.c', '.inl')):
                    out.append(os.path.join(r, f))
    return sorted(out)

def tus():
    return [f for f in tree_files() if f.endswith(('.cpp', '.cc', '.cxx', '.c')) and '/src/' in f]

def _hash(extra):
    h = hashlib.sha256()
    for f in tree_files() + sorted(glob.glob(os.path.join(VERIF, 'witness', '*'))) + [os.path.join(VERIF, 'tool', 'irprep.cpp'), os.path.abspath(__file__)]:
        if os.path.isfile(f):
            h.update(f.encode()); h.update(open(f, 'rb').read())
    h.update(json.dumps(extra).encode())
    return h.hexdigest()[:24]

def tool():
    exe = os.path.join(BUILD, 'irprep')
    src = os.path.join(VERIF, 'tool', 'irprep.cpp')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        r = subprocess.run(['sh', os.path.join(VERIF, 'tool', 'build.sh')], capture_output=True, text=True)
        if r.returncode or not os.path.exists(exe):
            raise Broken('cannot build irprep: ' + r.stderr[-2000:])
    return exe

def shim():
    """libstdc++ with std::__find_if's 4x unrolled random-access overload replaced by the plain loop it stands for
    (same semantics by specification; keeps the analysed paths readable)"""
    d = os.path.join(BUILD, 'shim', 'bits'); out = os.path.join(d, 'stl_algobase.h')
    if os.path.exists(out): return os.path.dirname(d)
    c = glob.glob('/usr/include/c++/*/bits/stl_algobase.h')
    if not c: return None
    src = open(sorted(c)[-1]).read()
    a = src.find('/// This is an overload used by find algos for the RAI case.')
    b = src.find('inline _Iterator\n    __find_if(_Iterator __first', a)
    b = src.rfind('template<', a, b)
    if a < 0 or b < 0: return None
    os.makedirs(d, exist_ok=True)
    fd, t = tempfile.mkstemp(dir=d)
    with os.fdopen(fd, 'w') as f: f.write(src[:a] + src[b:])
    os.chmod(t, 0o644); os.rename(t, out)
    return os.path.dirname(d)
def _cc(a):
    src, out, flags = a
    r = subprocess.run(['clang++', *CFLAGS, *flags, *(['-isystem', shim()] if shim() else []), '-I' + os.path.join(REPO, 'include'), src, '-o', out], capture_output=True, text=True)
    return src, r.returncode, r.stderr

def wflags(w):
    l = open(os.path.join(VERIF, 'witness', w)).readline()
    return l.split(':', 1)[1].split() if l.startswith('// cflags:') else []

def bitcode(config, witnesses=()):
    key = _hash(['bc', config, list(witnesses), CONFIGS[config], CFLAGS])
    d = os.path.join(CACHE, 'bc-%s-%s' % (config, key))
    if os.path.exists(os.path.join(d, 'ok')):
        return d
    os.makedirs(CACHE, exist_ok=True); shim()
    t = tempfile.mkdtemp(dir=CACHE)
    jobs = [(f, os.path.join(t, f[len(REPO):].strip('/').replace('/', '_') + '.bc'), CONFIGS[config]) for f in tus()]
    jobs += [(os.path.join(VERIF, 'witness', w), os.path.join(t, 'witness_' + w + '.bc'), CONFIGS[config] + wflags(w)) for w in witnesses]
    with cf.ThreadPoolExecutor(8) as ex:
        for src, rc, err in ex.map(_cc, jobs):
            if rc:
                shutil.rmtree(t)
                raise Broken('does not compile (%s): %s\n%s' % (config, src, err[-3000:]))
    open(os.path.join(t, 'ok'), 'w').write('\n'.join(j[0] for j in jobs))
    try:
        os.rename(t, d)
    except OSError:
        shutil.rmtree(t)
    return d

def irjson(config='default', variant='api', witnesses=()):
    """returns path of the JSON dump for this configuration and inlining variant"""
    exe = tool()
    key = _hash(['ir', config, variant, VARIANTS[variant], STDINLINE, list(witnesses), CONFIGS[config], CFLAGS])
    out = os.path.join(CACHE, 'ir-%s-%s-%s.json' % (config, variant, key))
    if os.path.exists(out):
        return out
    bc = bitcode(config, witnesses)
    tmp = out + '.%d.tmp' % os.getpid()
    r = subprocess.run([exe, '-o', tmp, '-ll', out[:-5] + '.ll', '-root', os.path.join(REPO, ''), '-root', os.path.join(VERIF, 'witness', ''),
                        '-boundary', VARIANTS[variant], '-stdinline', STDINLINE,
                        *sorted(glob.glob(os.path.join(bc, '*.bc')))], capture_output=True, text=True)
    if r.returncode:
        raise Broken('irprep failed: ' + r.stderr[-3000:])
    os.rename(tmp, out)
    return out

def prune():
    """drop cache entries beyond the newest few so build/ stays small"""
    c = CACHE
    if not os.path.isdir(c):
        return
    es = sorted((os.path.join(c, e) for e in os.listdir(c)), key=os.path.getmtime, reverse=True)
    for e in es[60:]:
        shutil.rmtree(e) if os.path.isdir(e) else os.unlink(e)

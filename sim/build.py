#!/usr/bin/env python3
"""Build the simulation executables from /repo's current working tree (content-addressed cache in /verif/build)."""
import hashlib, os, re, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SIM_REPO', '/repo'); B = os.path.join(VERIF, 'build'); LIB = '/usr/lib/x86_64-linux-gnu'
CORE = ['sim.cpp', 'model.cpp', 'main.cpp', 'scen_ingest.cpp', 'scen_query.cpp', 'scen_memory.cpp', 'scen_more.cpp']
INC = ['-I' + REPO + '/cffi-interface/trace-db', '-I' + REPO + '/cffi-interface', '-I' + HERE]
CUT = ['-std=c++11', '-fPIC', '-O1', '-g1', '-w', '-U_FORTIFY_SOURCE', '-fno-gnu-unique', '-DBOOST_AC_USE_STD_ATOMIC', '-DBOOST_SP_USE_STD_ATOMIC'] + INC
SAN = {'ts': ['-fsanitize=thread'], 'as': ['-fsanitize=address', '-fno-omit-frame-pointer']}

REDIR = {}
for s in '''malloc free calloc realloc reallocarray strdup strndup open openat creat close read pread readv write writev lseek fcntl dup ioctl fstat stat access unlink
isatty fsync posix_fadvise select pselect poll ppoll sleep usleep nanosleep clock_nanosleep sched_yield clock_gettime gettimeofday time rand random rand_r srand
getenv abort exit fopen fdopen fclose fflush fwrite fputc fputs fgetc ungetc fgets getline fread feof ferror clearerr rewind fseek ftell setvbuf setbuf
setlinebuf fileno flockfile funlockfile fprintf'''.split(): REDIR[s] = 'sim_' + s
for s in 'open openat creat pread lseek fcntl fstat stat fopen'.split(): REDIR[s + '64'] = 'sim_' + s
REDIR.update({'lstat': 'sim_stat', '_exit': 'sim_exit', '_Exit': 'sim_exit', 'quick_exit': 'sim_exit', 'secure_getenv': 'sim_getenv', 'putc': 'sim_fputc', '_IO_putc': 'sim_fputc', 'getc': 'sim_fgetc', 'putc_unlocked': 'sim_fputc', 'fputc_unlocked': 'sim_fputc', 'fwrite_unlocked': 'sim_fwrite', 'fputs_unlocked': 'sim_fputs', 'fflush_unlocked': 'sim_fflush',
    '__assert_fail': 'sim_assert_fail', '_ZSt9terminatev': 'sim_terminate', 'remove': 'sim_unlink', 'fseeko': 'sim_fseek', 'ftello': 'sim_ftell', 'fdatasync': 'sim_fsync', 'srandom': 'sim_srand',
    '_ZNSt6chrono3_V212steady_clock3nowEv': 'sim_steady_now', '_ZNSt6chrono3_V212system_clock3nowEv': 'sim_system_now',
    '_Znwm': 'sim_new', '_Znam': 'sim_new', '_ZnwmRKSt9nothrow_t': 'sim_new_nt', '_ZnamRKSt9nothrow_t': 'sim_new_nt', '_ZnwmSt11align_val_t': 'sim_new_al', '_ZnamSt11align_val_t': 'sim_new_al',
    '_ZdlPv': 'sim_delete', '_ZdaPv': 'sim_delete', '_ZdlPvm': 'sim_delete_sz', '_ZdaPvm': 'sim_delete_sz', '_ZdlPvRKSt9nothrow_t': 'sim_delete_nt', '_ZdaPvRKSt9nothrow_t': 'sim_delete_nt', '_ZdlPvSt11align_val_t': 'sim_delete_sz', '_ZdaPvSt11align_val_t': 'sim_delete_sz', '_ZdlPvmSt11align_val_t': 'sim_delete_sz',
    '__cxa_guard_acquire': 'sim_guard_acquire', '__cxa_guard_release': 'sim_guard_release', '__cxa_guard_abort': 'sim_guard_abort', 'pthread_once': 'sim_once'})
for a, b in {'mutex': 'init destroy lock trylock timedlock clocklock unlock', 'spin': 'init destroy lock trylock unlock', 'cond': 'init destroy wait timedwait clockwait signal broadcast'}.items():
    for o in b.split(): REDIR['pthread_%s_%s' % (a, o)] = 'sim_%s_%s' % (a, o)
for o in 'init destroy wrlock trywrlock rdlock tryrdlock unlock'.split(): REDIR['pthread_rwlock_' + o] = 'sim_rw_' + o
MEM = {s: 'sim_' + s for s in ('memcpy', 'memmove', 'memset', 'memcmp', 'strlen')}

def sh(*a):
    r = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise RuntimeError('%s\n%s' % (' '.join(a), r.stdout[-6000:]))
    return r.stdout
def digest(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:24]
def rd(p):
    with open(p, 'rb') as f: return f.read()
def tree(d, exts):
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts): out += [f, rd(os.path.join(r, f))]
    return out

def obj(key_parts, make):
    os.makedirs(B + '/obj', exist_ok=True)
    k = digest(*key_parts); p = '%s/obj/%s.o' % (B, k)
    if os.path.exists(p): os.utime(p); return k, p
    tmp = '%s.%d.%d.tmp.o' % (p, os.getpid(), threading.get_ident()); make(tmp); os.replace(tmp, p); return k, p

def build(variants, rt_too=False):
    variants = list(dict.fromkeys(variants))
    os.makedirs(B, exist_ok=True)
    cut_hdr = digest(*tree(REPO + '/cffi-interface', ('.hpp', '.h', '.cpp', '.c', '.cc', '.hh', '.ipp', '.inc')))
    core_hdr = digest(*[rd(os.path.join(HERE, f)) for f in ('sim.hpp', 'model.hpp', 'api.h')])
    # sources the repository builds its library from
    cuts = [REPO + '/cffi-interface/' + f for f in sorted(os.listdir(REPO + '/cffi-interface')) if f.endswith(('.cpp', '.cc'))]
    from extract_runtime import generate
    sys.setrecursionlimit(20000)
    rt_src = generate(REPO) if rt_too else ''
    with ThreadPoolExecutor(8) as ex:
        jobs = {}
        for v in variants:
            fs = []
            def cc(path, flags, comp='g++'):
                return ex.submit(obj, [rd(path), path, cut_hdr if path.startswith(REPO) or path.endswith('shim.cpp') else core_hdr, flags], lambda o: sh(comp, *flags, '-c', path, '-o', o))
            for c in sorted(cuts, key=lambda p: -os.path.getsize(p)): fs.append(cc(c, CUT + SAN[v]))
            fs.append(cc(HERE + '/shim.cpp', CUT + SAN[v]))
            if rt_too:
                def rt(o, v=v):
                    src = o + '.c'
                    with open(src, 'w') as f: f.write(rt_src)
                    sh('gcc', '-O1', '-g1', '-w', '-fPIC', '-U_FORTIFY_SOURCE', *SAN[v], '-c', src, '-o', o); os.unlink(src)
                    secs = re.findall(r'\.(?:init_array|ctors)\S*', sh('objdump', '-h', o))
                    for s in secs:
                        if s not in ('.init_array.00099',): sh('objcopy', '--rename-section', s + '=sim_rt_init,alloc,load,data,contents', o)
                fs.append(ex.submit(obj, [rt_src, 'rt4', v], rt))
            co = ['-std=c++17', '-O1', '-g1', '-w', '-fno-pie', '-I' + HERE, '-DSIM_TS=%d' % (v == 'ts'), '-DSIM_RT=%d' % rt_too]
            cs = [cc(HERE + '/' + f, co) for f in CORE + (['scen_runtime.cpp'] if rt_too else []) + (['ts.cpp'] if v == 'ts' else [])]
            jobs[v] = (fs, cs)
        res = {}
        for v, (fs, cs) in jobs.items():
            fo = [f.result() for f in fs]; c = [f.result() for f in cs]
            def combine(o):
                mp = dict(REDIR); 
                if v == 'ts': mp.update(MEM)
                with open(o + '.map', 'w') as f: f.write(''.join('%s simx_%s\n' % (i, i) for i in sorted(mp)))
                sh('ld', '-r', '--force-group-allocation', '-o', o + '.r', *[p for _, p in fo], LIB + '/libboost_iostreams.a', LIB + '/libboost_serialization.a')
                syms = sorted(set(re.findall(r' [TDBRVW] ((?:api|shim|rt)_\w+)$', sh('nm', '--defined-only', o + '.r'), re.M)))
                with open(o + '.keep', 'w') as f: f.write('\n'.join(syms) + '\n')
                sh('objcopy', '--redefine-syms=' + o + '.map', '--keep-global-symbols=' + o + '.keep', o + '.r', o)
                for s in ('.map', '.r', '.keep'): os.unlink(o + s)
            ck, cp = obj([k for k, _ in fo] + ['combine5', sorted(REDIR.items())], combine)
            key = digest(ck, *[k for k, _ in c]); exe = '%s/sim-%s%s-%s' % (B, v, 'r' if rt_too else '', key)
            if not os.path.exists(exe):
                tmp = exe + '.%d' % os.getpid()
                mp = dict(REDIR, **(MEM if v == 'ts' else {}))
                with open(exe + '.ld', 'w') as f: f.write(''.join('"simx_%s" = %s;\n' % i for i in sorted(mp.items())))
                sh('g++', '-no-pie', '-rdynamic', '-Wl,' + exe + '.ld', '-o', tmp, *[p for _, p in c], cp, '-lz', '-lpthread', *(['-fsanitize=address'] if v == 'as' else []))
                os.unlink(exe + '.ld'); os.replace(tmp, exe)
            os.utime(exe); res[v] = exe
    prune(); return res
def prune():
    for d, keep in ((B + '/obj', 120), (B, 12)):
        fs = [os.path.join(d, f) for f in os.listdir(d)]; fs = [f for f in fs if os.path.isfile(f) and '.tmp' not in f]
        fs.sort(key=os.path.getmtime, reverse=True)
        for f in fs[keep:]:
            try: os.unlink(f)
            except OSError: pass
if __name__ == '__main__':
    sys.path.insert(0, HERE)
    rt = '--rt' in sys.argv
    for v, e in build([a for a in sys.argv[1:] if a[0] != '-'] or ['ts', 'as'], rt).items(): print(v, e)

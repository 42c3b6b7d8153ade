#!/usr/bin/env python3
"""Extract the C runtime that trace-db's instrumenter splices into programs (instrumentation/c-cpp.lisp) and
wrap it in a driver the simulator can call.  Only string constants are interpreted, by a small Lisp reader."""
import glob, os, sys

class Sym(str):
    pass

def read_all(text):
    i, n, out = 0, len(text), []
    def skip(i):
        while i < n:
            c = text[i]
            if c.isspace(): i += 1
            elif c == ';':
                while i < n and text[i] != '\n': i += 1
            elif text.startswith('#|', i):
                d = 1; i += 2
                while i < n and d:
                    if text.startswith('|#', i): d -= 1; i += 2
                    elif text.startswith('#|', i): d += 1; i += 2
                    else: i += 1
            else: return i
        return i
    def read(i):
        i = skip(i)
        if i >= n: return None, i
        c = text[i]
        if c in '([{':
            close = {'(': ')', '[': ']', '{': '}'}[c]
            l = []; i += 1
            while True:
                i = skip(i)
                if i >= n: return l, i
                if text[i] in ')]}': return l, i + 1
                x, i = read(i); l.append(x)
        if c in ')]}': return Sym(c), i + 1
        if c == '"':
            s = []; i += 1
            while i < n and text[i] != '"':
                if text[i] == '\\': i += 1
                s.append(text[i]); i += 1
            return ''.join(s), i + 1
        if c in "'`": x, i = read(i + 1); return ['quote', x], i
        if c == ',':
            i += 1
            if i < n and text[i] in '@.': i += 1
            x, i = read(i); return ['unquote', x], i
        if text.startswith('#\\', i):
            j = i + 3
            while j < n and (text[j].isalnum() or text[j] in '-_'): j += 1
            return Sym(text[i:j]), j
        if text.startswith("#'", i): x, i = read(i + 2); return ['function', x], i
        if c == '|':
            j = text.find('|', i + 1); j = n if j < 0 else j
            return Sym(text[i:j + 1]), j + 1
        j = i
        while j < n and not text[j].isspace() and text[j] not in '()[]{}";\'`,': j += 1
        if j == i: j = i + 1
        return Sym(text[i:j]), j
    while True:
        x, i = read(i)
        if x is None: return out
        out.append(x)

def load(repo):
    forms = []
    for pat in ('*.lisp', 'instrumentation/*.lisp'):
        for f in sorted(glob.glob(os.path.join(repo, pat))):
            try: forms += read_all(open(f, encoding='utf-8', errors='replace').read())
            except RecursionError: pass
    defs = {}
    def walk(f):
        if isinstance(f, list) and len(f) >= 3 and isinstance(f[0], Sym) and f[0].lower() in (
                'defconst', 'defconstant', 'defvar', 'defparameter', 'define-constant', 'defconst*') and isinstance(f[1], Sym):
            defs[f[1].lower()] = f[2]
    for f in forms: walk(f)
    defs['%forms'] = forms
    return defs

def value(defs, e, depth=0):
    if depth > 40: raise ValueError('cyclic constant')
    if isinstance(e, Sym):
        if e.lower() in defs: return value(defs, defs[e.lower()], depth + 1)
        raise ValueError('unknown constant ' + e)
    if isinstance(e, str): return e
    if isinstance(e, list) and e and isinstance(e[0], Sym):
        op = e[0].lower()
        if op in ('concatenate',): return ''.join(value(defs, x, depth + 1) for x in e[2:])
        if op in ('string+', 'concat', 'str:concat', 'mconcat'): return ''.join(value(defs, x, depth + 1) for x in e[1:])
        if op in ('fmt', 'format'):
            args = e[1:] if op == 'fmt' else e[2:]
            return lisp_fmt(value(defs, args[0], depth + 1), [value(defs, x, depth + 1) for x in args[1:]])
    raise ValueError('cannot evaluate %r' % (e,))

def lisp_fmt(s, args):
    out, i, k = [], 0, 0
    while i < len(s):
        if s[i] == '~' and i + 1 < len(s):
            d = s[i + 1].lower()
            if d in 'ads':
                if k >= len(args): raise ValueError('too few format arguments')
                out.append(str(args[k])); k += 1
            elif d == '%': out.append('\n')
            elif d == '~': out.append('~')
            elif d == '\n':
                i += 2
                while i < len(s) and s[i].isspace(): i += 1
                continue
            else: raise ValueError('format directive ~' + d)
            i += 2
        else: out.append(s[i]); i += 1
    if k != len(args): raise ValueError('format arguments left over')
    return ''.join(out)

DRIVER = r'''
#include <stdint.h>
#include <stdlib.h>
void rt_id(unsigned long long id) { __write_trace_id(%(log)s, %(lock)s, id); }
void rt_end(void) { __write_end_entry(%(log)s, %(lock)s); }
void rt_bufsize(void *a, unsigned long long n) { __write_buffer_size(%(log)s, a, n); }
/* every integer class argument travels in one 64-bit slot on this ABI; floats are promoted to double */
typedef struct { uint32_t name, type, size; int fmt; uint64_t i; double d; } rt_var;
#define H(k) v[k].name, v[k].type, v[k].size, v[k].fmt
#define W(...) __write_trace_variables(%(log)s, __VA_ARGS__)
#define I(k) H(k), v[k].i
#define D(k) H(k), v[k].d
unsigned rt_vars_many(void) { return %(many)s; }
void rt_vars(unsigned n, const rt_var *v) {   /* more than 6 variables: integers and pointers only */
  int m = 0; unsigned k; if (n <= 6) for (k = 0; k < n; k++) if (v[k].fmt == 2) m |= 1 << k;
  switch (n * 64 + m) {
%(cases)s
  default: abort();
  }
}
typedef struct { uint32_t name, type, size; const void *p; } rt_blob;
#define B(k) b[k].name, b[k].type, b[k].size, b[k].p
#define X(...) __write_trace_blobs(%(log)s, __VA_ARGS__)
void rt_blobs(unsigned n, const rt_blob *b) {
  switch (n) {
%(blobs)s
  default: abort();
  }
}
'''

MANY = 40
def cases():
    out = []
    for n in range(1, 7):
        for m in range(1 << n):
            out.append('  case %d: W(%d, %s); break;' % (n * 64 + m, n, ', '.join('%s(%d)' % ('D' if m >> k & 1 else 'I', k) for k in range(n))))
    for n in range(7, MANY + 1): out.append('  case %d: W(%d, %s); break;' % (n * 64, n, ', '.join('I(%d)' % k for k in range(n))))
    return '\n'.join(out)
def blobs(): return '\n'.join('  case %d: X(%d, %s); break;' % (n, n, ', '.join('B(%d)' % k for k in range(n))) for n in range(1, 9))

def find_open(forms):
    """How the instrumenter opens the trace named by the handshake: the default clause of file-open-str."""
    def walk(f):
        if not isinstance(f, list): return None
        if f and isinstance(f[0], Sym) and f[0].lower() == 'file-open-str' and len(f) > 2:
            r = clause(f)
            if r is not None: return r
        for x in f:
            r = walk(x)
            if r is not None: return r
    def clause(f):
        if isinstance(f, list) and len(f) == 2 and isinstance(f[0], Sym) and f[0].lower() in ('t', 'otherwise'): return f[1]
        if isinstance(f, list):
            for x in f:
                r = clause(x)
                if r is not None: return r
    return walk(forms)

def generate(repo):
    defs = load(repo)
    g = lambda name: value(defs, Sym(name))
    decl, impl = g('+write-trace-forward-declarations+'), g('+write-trace-implementation+')
    macro, init = g('+write-trace-entry-macro+'), g('+write-trace-initialization+')
    log, lock = g('+trace-instrument-log-variable-name+'), g('+instrument-log-lock-variable-name+')
    names, types = g('+names-variable-name+'), g('+types-variable-name+')
    env = g('*trace-instrument-handshake-env-name*')
    op = find_open(defs['%forms'])
    try: op = value(defs, op) if op is not None else 'fopen(buffer, "w")'
    except ValueError: op = 'fopen(buffer, "w")'
    # what the instrumenter fills in: environment variable, how to open the file, names, types and their counts
    init = lisp_fmt(init, [env, op,
                           'const char **%s = rt_names' % names,
                           'const __trace_type_description *%s = (const __trace_type_description *)rt_types' % types,
                           'rt_n_names', 'rt_n_types'])
    pre = ('extern const char *rt_names[]; extern const unsigned rt_types[]; extern unsigned long rt_n_names, rt_n_types;\n')
    drv = DRIVER.replace('%(log)s', log).replace('%(lock)s', lock).replace('%(many)s', str(MANY)).replace('%(cases)s', cases()).replace('%(blobs)s', blobs())
    return pre + decl + impl + macro + init + drv + '\nconst char *rt_env(void) { return "%s"; }\n' % env

if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    src = generate(sys.argv[1])
    with open(sys.argv[2], 'w') as f: f.write(src)

"""Translation of the small Cython kernels to Python (re-read from /repo on
every run) with bounds-checked C buffers, and a build of the same source."""
import hashlib
import os
import re
import subprocess
import sys
import sysconfig
import importlib.util

import numpy as np


class Untranslatable(Exception):
    pass


class MemError(AssertionError):
    pass


SIZES = {'DTYPE_t': 8, 'double': 8, 'unsigned int': 4, 'int': 4, 'unsigned long': 8, 'size_t': 8}


class CBuf(object):
    """malloc'ed memory: every access inside, initialised and alive"""
    live = []

    def __init__(self, nbytes, elem):
        if int(nbytes) % elem:
            raise MemError('size %s not a multiple of the element size %s' % (nbytes, elem))
        self.n = int(nbytes) // elem
        self.d = {}
        self.alive = True
        CBuf.live.append(self)

    def _chk(self, i):
        i = int(i)
        if not self.alive:
            raise MemError('use after free')
        if not 0 <= i < self.n:
            raise MemError('index %d outside buffer of %d' % (i, self.n))
        return i

    def __getitem__(self, i):
        i = self._chk(i)
        if i not in self.d:
            raise MemError('read of uninitialised element %d' % i)
        return self.d[i]

    def __setitem__(self, i, v):
        self.d[self._chk(i)] = v


def c_free(b):
    if not isinstance(b, CBuf) or not b.alive:
        raise MemError('bad free')
    b.alive = False


def elem_size(t):
    t = t.strip()
    if t.endswith('*'):
        return 8
    if t not in SIZES:
        raise Untranslatable('type ' + t)
    return SIZES[t]


CT = r'(?:unsigned int|unsigned long|int|double|DTYPE_t|size_t|np\.ndarray\[[^\]]*\]|object|Py_ssize_t)'


def translate(src):
    out = []
    src = re.sub(r'\\\n', ' ', src)
    # join lines inside parentheses of def
    lines = src.split('\n')
    i = 0
    skipblock = None
    while i < len(lines):
        ln = lines[i]
        if re.match(r'\s*def .*\(', ln):
            while ln.count('(') > ln.count(')'):
                i += 1
                ln += ' ' + lines[i].strip()
        i += 1
        ind = re.match(r'\s*', ln).group(0)
        s = ln.strip()
        if skipblock is not None:
            if s and len(ind) <= skipblock:
                skipblock = None
            else:
                continue
        if s.startswith('cdef extern'):
            skipblock = len(ind)
            continue
        if s.startswith(('cimport', 'ctypedef', '@cython', '#', 'from libc', 'from stdlib')) or re.match(r'from .* cimport', s):
            continue
        if s.startswith('def ') or s.startswith('cpdef ') or re.match(r'cdef [^=]*\(.*\):', s):
            m = re.match(r'(?:c?p?def)\s+(?:%s\s+)?(\w+)\((.*)\)\s*:' % CT, s)
            if not m:
                raise Untranslatable(s)
            args = []
            for a in re.split(r',(?![^\[]*\])', m.group(2)):
                a = a.strip().replace(' not None', '')
                a = re.sub(r'^%s\s*\*?\s*' % CT, '', a)
                args.append(a)
            out.append('%sdef %s(%s):' % (ind, m.group(1), ', '.join(args)))
            continue
        if s.startswith('cdef '):
            s = s[5:].strip()
            m = re.match(r'%s\s*(\**)\s*' % CT, s)
            if not m:
                raise Untranslatable(s)
            s = s[m.end():]
            # possibly several declarators
            parts = re.split(r',(?![^(\[]*[)\]])', s)
            done = []
            for p in parts:
                p = p.strip().lstrip('*').strip()
                if '=' in p:
                    done.append(p)
            if not done:
                continue
            s = '; '.join(done) if len(parts) > 1 else s.lstrip('*').strip()
        s = re.sub(r'sizeof\(([^()]*)\)', lambda m: str(elem_size(m.group(1))), s)
        m = re.search(r'<\s*([\w ]+?)\s*(\*+)\s*>\s*malloc\((.*)\)\s*$', s)
        if m:
            es = 8 if len(m.group(2)) > 1 else elem_size(m.group(1))
            s = s[:m.start()] + 'CBuf(%s, %d)' % (m.group(3), es)
        s = re.sub(r'<\s*(?:DTYPE_t|double)\s*>', 'float', s)
        s = re.sub(r'<\s*(?:unsigned int|int)\s*>', 'int', s)
        m = re.match(r'for (\w+) from (.+?) (<=|<|>=|>) (\w+) (<=|<|>=|>) (.+?):$', s)
        if m:
            v, lo, o1, v2, o2, hi = m.groups()
            if v != v2:
                raise Untranslatable(s)
            if o1[0] == '<':
                s = 'for %s in range((%s)%s, (%s)%s):' % (v, lo, '' if o1 == '<=' else '+1', hi, '' if o2 == '<' else '+1')
            else:
                s = 'for %s in range((%s)%s, (%s)%s, -1):' % (v, lo, '' if o1 == '>=' else '-1', hi, '' if o2 == '>' else '-1')
        elif s.startswith('for ') and ' from ' in s and '<' in s:
            raise Untranslatable(s)
        out.append(ind + s)
    return '\n'.join(out)


def functions(path, empty=None):
    """-> namespace of the translated kernels"""
    src = open(path).read()
    py = translate(src)
    ns = {'CBuf': CBuf, 'free': c_free}
    exec(compile(py, path + ':translated', 'exec'), ns)
    if empty is not None:
        class NP(object):
            def __getattr__(self, k):
                if k == 'empty':
                    return empty
                return getattr(np, k)
        ns['np'] = NP()
    return ns, py


def build(path, here):
    """compile the current source in /verif/build (cached by content)"""
    src = open(path, 'rb').read()
    hx = hashlib.sha256(src + sys.version.encode()).hexdigest()[:16]
    d = os.path.join(here, 'build', 'k' + hx)
    so = os.path.join(d, 'bary_interp' + sysconfig.get_config_var('EXT_SUFFIX'))
    if not os.path.exists(so):
        tmp = d + '.%d' % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        with open(os.path.join(tmp, 'bary_interp.pyx'), 'wb') as f:
            f.write(src)
        try:
            subprocess.check_call([sys.executable, '-m', 'cython', '-3', 'bary_interp.pyx'], cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            inc = [sysconfig.get_paths()['include'], np.get_include()]
            subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-w'] + ['-I' + x for x in inc] +
                                  ['bary_interp.c', '-o', os.path.basename(so)], cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            try:
                os.rename(tmp, d)
            except OSError:
                pass
        except Exception:
            return None
    spec = importlib.util.spec_from_file_location('bary_interp', so)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m

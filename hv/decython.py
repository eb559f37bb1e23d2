"""Mechanical .pyx -> Python extraction (run on every check, on /repo's current text).

What is dropped, exactly:
  * `cimport` lines (libc.math functions are re-bound to `hv.cmath` / the verifier's
    math model; `cimport numpy`, `cimport cython` and `cimport X as Y` of hyvr modules
    become ordinary imports of the same hyvr module where one exists),
  * C type annotations: `cdef T a, b` declarations without a value disappear,
    `cdef T a = e` becomes `a = e`; argument types disappear,
  * `cdef class C(B):` -> `class C(B):`; a `cdef public:` attribute block becomes
    class-level defaults (0 for scalars, None for memoryviews/objects), which is what
    Cython zero-initialisation gives,
  * `cpdef f(...)`/`cdef [inline] T f(...)` -> `def f(...)`,
  * `@cython.*` decorators (boundscheck/wraparound/cdivision).  Because these turn off
    Python's checks, the names of functions carrying wraparound(False)/boundscheck(False)
    are returned so that the verifier demands 0 <= index < length there.
Line numbers are preserved: dropped lines become blank lines.
"""
import re

_DECL = re.compile(r'^(\s*)cdef\s+(?!class\b)(.*)$')


def _split_top(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '([{':
            depth += 1
        elif ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def _strip_arg(a):
    """'np.int32_t [:] geo_ids = 3' -> 'geo_ids = 3'."""
    lead = re.match(r'\s*', a).group(0)
    s = a.strip()
    if s.startswith('*') or s == '/':
        return a
    default = ''
    d = 0
    for k, ch in enumerate(s):
        if ch in '([{':
            d += 1
        elif ch in ')]}':
            d -= 1
        elif ch == '=' and d == 0 and s[k:k+2] != '==':
            default = s[k:]
            s = s[:k].strip()
            break
    if ':' in re.sub(r'\[[^\]]*\]', '', s):      # python annotation
        return a
    m = re.search(r'([A-Za-z_]\w*)\s*$', s)
    if not m:
        return a
    return lead + m.group(1) + (' ' + default if default else '')


_FLOAT = re.compile(r'^(?:np\.float_t|np\.float64_t|double|float)\s')


def decython(src, ctypes=None):
    """Returns (python_source, set of names of functions compiled without bounds checks).

    ctypes: a dict that receives {line of the def: names of locals/arguments of C floating point type}"""
    cur = None
    if ctypes is None:
        ctypes = {}
    lines = src.split('\n')
    out = []
    unchecked = set()
    pend_unchecked = pend_cdiv = False
    i = 0
    block_indent = None
    while i < len(lines):
        ln = lines[i]
        st = ln.strip()
        ind = len(ln) - len(ln.lstrip())
        if block_indent is not None:
            if st == '' or st.startswith('#'):
                out.append('')
                i += 1
                continue
            if ind > block_indent:
                body = st.split('#')[0].strip()
                arr = '[' in body
                body2 = re.sub(r'\[[^\]]*\]', ' ', body)
                names = body2.split(',')
                first = names[0].split()
                ty, n0 = ' '.join(first[:-1]), first[-1]
                names = [n0] + [n.strip() for n in names[1:]]
                dflt = 'None' if arr or not re.search(r'_t$|int|float|double|bint|char|long', ty) else '0'
                out.append(' ' * block_indent + '; '.join('%s = %s' % (n, dflt) for n in names))
                i += 1
                continue
            block_indent = None
        if re.match(r'from\s+libc\.math\s+cimport\s+', st):
            names = st.split('cimport', 1)[1].split('#')[0]
            out.append(' ' * ind + 'from hv.cmath import ' + names.strip())
        elif re.match(r'cimport\s+(numpy|cython)', st) or re.match(r'from\s+(cpython|libc|cython)\b.*cimport', st):
            out.append('')
        elif re.match(r'from\s+\S+\s+cimport\s+', st) or re.match(r'cimport\s+', st):
            out.append(' ' * ind + st.replace('cimport', 'import'))
        elif st.startswith('@cython.'):
            if 'boundscheck(False)' in st or 'wraparound(False)' in st:
                pend_unchecked = True
            if 'cdivision(True)' in st:
                pend_cdiv = True
            out.append('')
        elif re.match(r'cdef\s+class\s', st):
            out.append(' ' * ind + st[5:])
        elif re.match(r'cdef\s+(public|readonly)?\s*:', st):
            block_indent = ind
            out.append('')
        elif re.match(r'(cpdef|cdef)\s+[^=]*\(', st) or (re.match(r'def\s+\w+\s*\(', st)):
            # function definition: join to closing paren
            text = ln
            j = i
            while text.count('(') > text.count(')'):
                j += 1
                text += '\n' + lines[j]
            m = re.match(r'(?s)^(\s*)(?:cpdef|cdef|def)\s+(?:[^(]*?\s)?([A-Za-z_]\w*)\s*\((.*)\)\s*(?:except\s*[^:]*|noexcept|nogil|\s)*(->[^:]*)?:(.*)$', text)
            if not m:
                raise ValueError('cannot extract function header: ' + text)
            name = m.group(2)
            if pend_unchecked:
                unchecked.add(name)
            pend_unchecked = False
            if pend_cdiv:
                ctypes.setdefault('cdivision', set()).add(name)
            pend_cdiv = False
            cur = ctypes.setdefault(i + 1, set())
            for a in _split_top(m.group(3)):
                if _FLOAT.match(a.strip()) and '[' not in a:
                    cur.add(_strip_arg(a).split('=')[0].strip())
            args = ','.join(_strip_arg(a) for a in _split_top(m.group(3)))
            new = '%sdef %s(%s):%s' % (m.group(1), name, args.replace('\n', ' '), m.group(5))
            out.append(new)
            out.extend([''] * (j - i))
            i = j
        elif _DECL.match(ln):
            body = _DECL.match(ln).group(2)
            body = re.sub(r'^(public|readonly)\s+', '', body)
            j = i
            while body.rstrip().endswith('\\') or body.count('(') > body.count(')'):
                j += 1
                body = body.rstrip().rstrip('\\') + ' ' + lines[j].strip()
            body = body.split('#')[0]
            parts = _split_top(body)
            stm = []
            if cur is not None and _FLOAT.match(body.strip()) and '[' not in parts[0].split('=')[0]:
                cur.update(re.search(r'([A-Za-z_]\w*)\s*$', p.split('=')[0]).group(1) for p in parts)
            for p in parts:
                if '=' in p:
                    lhs, rhs = p.split('=', 1)
                    stm.append('%s = %s' % (re.search(r'([A-Za-z_]\w*)\s*$', lhs).group(1), rhs.strip()))
            out.append(' ' * ind + '; '.join(stm) if stm else ('' if not st.endswith(':') else ''))
            out.extend([''] * (j - i))
            i = j
        else:
            if st and not st.startswith('#') and not st.startswith('@'):
                pass
            out.append(ln)
        i += 1
    return '\n'.join(out), unchecked

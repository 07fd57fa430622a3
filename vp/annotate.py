"""Insert loop contracts into a scratch copy of the real sources.

The only change made to a source line is the insertion of
__CPROVER_assigns/__CPROVER_loop_invariant/__CPROVER_decreases clauses right
after a loop header; nothing is removed or reordered.  An annotation names a
file, a function (or a function-like macro) and the ordinal of the loop in it;
if the function is gone or its number of loops differs from the number the
annotation was written for, Mismatch is raised and the caller falls back.
"""
import re


class Mismatch(Exception):
    pass


def mask(src):
    """same length text with comments, strings and char literals blanked"""
    out = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if src.startswith('/*', i):
            j = src.find('*/', i + 2)
            j = n if j < 0 else j + 2
            out.append(''.join(ch if ch == '\n' else ' ' for ch in src[i:j]))
            i = j
        elif src.startswith('//', i):
            j = src.find('\n', i)
            j = n if j < 0 else j
            out.append(' ' * (j - i))
            i = j
        elif c in '"\'':
            j = i + 1
            while j < n and src[j] != c:
                j += 2 if src[j] == '\\' else 1
            j = min(n, j + 1)
            out.append(c + ' ' * (j - i - 2) + c if j - i >= 2 else c)
            i = j
        else:
            out.append(c)
            i += 1
    return ''.join(out)


def match_paren(m, i, o='(', c=')'):
    d = 0
    for k in range(i, len(m)):
        if m[k] == o:
            d += 1
        elif m[k] == c:
            d -= 1
            if d == 0:
                return k
    raise Mismatch('unbalanced')


def region(m, func):
    """(start, end) of the body of func (definition or macro) in masked text"""
    names = [func]
    names.append(func[4:] if func.startswith('frt_') else 'frt_' + func)
    for name in names:
        for mt in re.finditer(r'^[ \t]*#[ \t]*define[ \t]+%s\(' % re.escape(name), m, re.M):
            e = mt.end()
            while True:
                nl = m.find('\n', e)
                if nl < 0:
                    return mt.start(), len(m)
                if m[nl - 1] != '\\' and not m[mt.start():nl].rstrip(' \t').endswith('\\'):
                    return mt.start(), nl
                e = nl + 1
        for mt in re.finditer(r'\b%s\s*\(' % re.escape(name), m):
            op = m.index('(', mt.start())
            try:
                cp = match_paren(m, op)
            except Mismatch:
                continue
            k = cp + 1
            while k < len(m) and m[k].isspace():
                k += 1
            if k < len(m) and m[k] == '{':
                # at file scope: the preceding token is not part of an expression
                ls = m.rfind('\n', 0, mt.start()) + 1
                if re.match(r'[ \t]+\S', m[ls:mt.start() + 1]) and ls != mt.start():
                    continue
                return k, match_paren(m, k, '{', '}')
    raise Mismatch('function %s not found' % func)


def loops(m, start, end):
    """insertion offsets (just after the loop header) of the loops in region"""
    res = []
    dos = []
    for mt in re.finditer(r'\b(for|while|do)\b', m[start:end]):
        p = start + mt.start()
        kw = mt.group(1)
        if kw == 'do':
            k = p + 2
            while m[k].isspace() or m[k] == '\\':
                k += 1
            # do { } while (0) in macros is not a loop
            if m[k] == '{':
                ce = match_paren(m, k, '{', '}')
                w = re.match(r'[\s\\]*while[\s\\]*\(', m[ce + 1:end + 200])
                if w:
                    wo = ce + 1 + w.end() - 1
                    wc = match_paren(m, wo)
                    dos.append(ce + 1 + m[ce + 1:].index('while'))
                    if m[wo + 1:wc].strip() == '0':
                        continue
                    res.append((p, p + 2, 'do', m[wo:wc + 1]))
            continue
        if kw == 'while' and p in dos:
            continue
        o = p + len(kw)
        while m[o].isspace():
            o += 1
        if m[o] != '(':
            continue
        c = match_paren(m, o)
        res.append((p, c + 1, kw, m[o:c + 1]))
    return res


def annotate(src, anns):
    """anns: list of dicts func, loop, of (expected number of loops), text"""
    m = mask(src)
    ins = []
    for a in anns:
        s, e = region(m, a['func'])
        ls = loops(m, s, e)
        if len(ls) != a['of']:
            raise Mismatch('%s has %d loops, annotation expects %d' % (a['func'], len(ls), a['of']))
        p, at, kw, hdr = ls[a['loop']]
        if a.get('kind') and a['kind'] != kw:
            raise Mismatch('loop kind')
        ins.append((at, ' ' + ' '.join(a['text'].split()) + ' '))
    for at, t in sorted(ins, reverse=True):
        src = src[:at] + t + src[at:]
    return src


def functions(m):
    """(name, start of definition, offset of '{', offset of '}') of every function defined at file scope"""
    # blank preprocessor lines (with continuations) so that braces in macros do not count
    b = list(m)
    for mt in re.finditer(r'^[ \t]*#(?:[^\n]*\\\n)*[^\n]*', m, re.M):
        for i in range(mt.start(), mt.end()):
            if b[i] != '\n':
                b[i] = ' '
    b = ''.join(b)
    res, i, last = [], 0, 0
    while True:
        k = b.find('{', i)
        if k < 0:
            return res
        head = b[last:k].rstrip()
        if re.search(r'\bextern\s*"[^"]*"$', head):   # extern "C" {: look inside
            i = last = k + 1
            continue
        e = match_paren(b, k, '{', '}')
        # the declaration that precedes the brace: text since the last ';' or '}'
        st = max(head.rfind(';'), head.rfind('}')) + 1
        decl = head[st:]
        mt = re.search(r'([A-Za-z_]\w*)\s*\([^;={}]*\)\s*$', decl, re.S)
        if mt and '=' not in decl and not re.match(r'\s*(typedef|struct|enum|union|extern\s*$)\b[^()]*$', decl):
            o = decl.index('(')
            nm = re.search(r'([A-Za-z_]\w*)\s*$', decl[:o])
            if nm:
                res.append((nm.group(1), last + st, k, e))
        i = last = e + 1


def prune(src, roots):
    """drop the bodies of all functions that the roots do not mention, directly or indirectly.
    A root "&" alone: taking a function's address (&f) does not count as mentioning it (a call
    through the pointer then reaches a function without body, which fails the proof)."""
    noaddr = '&' in roots
    roots = [r for r in roots if r != '&']
    m = mask(src)
    fs = functions(m)
    by = {}
    for f in fs:
        by.setdefault(f[0], []).append(f)
    keep, todo = set(), list(roots)
    macros = {}
    for mt in re.finditer(r'^[ \t]*#[ \t]*define[ \t]+(\w+)((?:[^\n]*\\\n)*[^\n]*)', m, re.M):
        macros.setdefault(mt.group(1), '')
        macros[mt.group(1)] += mt.group(2)
    while todo:
        n = todo.pop()
        if n in keep:
            continue
        keep.add(n)
        txt = macros.get(n, '')
        for f in by.get(n, []):
            txt += m[f[2]:f[3]]
        if noaddr:
            txt = re.sub(r'(?<![&\w)])\s*&\s*[A-Za-z_]\w*\s*(?=[;,)])', ' ', txt)
        for w in set(re.findall(r'[A-Za-z_]\w*', txt)):
            if (w in by or w in macros) and w not in keep:
                todo.append(w)
    missing = [r for r in roots if r not in by]
    if missing:
        raise Mismatch('function %s not found' % missing[0])
    for n, s, o, e in sorted(fs, key=lambda f: -f[2]):
        if n not in keep:
            src = src[:o] + ';' + ''.join(c for c in src[o:e + 1] if c == '\n') + src[e + 1:]
    return src


def drop_bodies(src, names):
    """leave only the prototypes of the named functions"""
    m = mask(src)
    for n, s, o, e in sorted(functions(m), key=lambda f: -f[2]):
        if n in names:
            src = src[:o] + ';' + ''.join(c for c in src[o:e + 1] if c == '\n') + src[e + 1:]
    return src

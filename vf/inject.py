"""Mechanical, text-preserving preparation of a scratch copy of a source file.

('split', f)        rename the *definition* of f to f__body and leave a
                    prototype of f in front, so that every call of f (recursive
                    ones included) meets f's contract, supplied by the harness,
                    while the harness checks f__body against that contract.
('loop', f, n, txt) insert loop-contract clauses after the head of the n-th
                    loop (in text order, from 0) of f.
Nothing else changes; a function that cannot be found raises."""
import re

def mask(t):
    """Same length as t, with comments, strings and char constants blanked."""
    out = list(t); i = 0; n = len(t)
    while i < n:
        c = t[i]
        if t.startswith('//', i):
            j = t.find('\n', i); j = n if j < 0 else j
        elif t.startswith('/*', i):
            j = t.find('*/', i); j = n if j < 0 else j + 2
        elif c in '"\'':
            j = i + 1
            while j < n and t[j] != c and t[j] != '\n': j += 2 if t[j] == '\\' else 1
            j += 1
        else:
            i += 1; continue
        for k in range(i, min(j, n)):
            if out[k] != '\n': out[k] = ' '
        i = j
    return ''.join(out)

def match(m, i, o, c):
    d = 0
    while i < len(m):
        if m[i] == o: d += 1
        elif m[i] == c:
            d -= 1
            if d == 0: return i
        i += 1
    raise ValueError('unbalanced')

def find_def(t, name):
    """-> (sigstart, namepos, bodystart, bodyend) of the definition of name."""
    m = mask(t)
    # blank preprocessor lines (with continuations)
    m = re.sub(r'(?m)^[ \t]*#(?:[^\n\\]|\\.|\\\n)*', lambda x: re.sub(r'[^\n]', ' ', x.group(0)), m)
    depth = [0] * (len(m) + 1); d = 0
    for i, c in enumerate(m):
        if c == '}': d -= 1
        depth[i] = d
        if c == '{': d += 1
    for x in re.finditer(r'\b%s\s*\(' % re.escape(name), m):
        if depth[x.start()] != 0: continue
        e = match(m, m.index('(', x.start()), '(', ')')
        k = e + 1
        while k < len(m) and m[k].isspace(): k += 1
        if k < len(m) and m[k] == '{':
            s = max(m.rfind(';', 0, x.start()), m.rfind('}', 0, x.start())) + 1
            while m[s].isspace(): s += 1
            return s, x.start(), k, match(m, k, '{', '}')
    raise KeyError('definition of %s not found' % name)

def loops(t, b, e):
    m = mask(t); r = []
    for x in re.finditer(r'\b(for|while|do)\b', m[b:e]):
        p = b + x.start()
        if x.group(1) == 'do':
            j = m.index('{', p); r.append((p, 'do', match(m, j, '{', '}'))); continue
        q = m.index('(', p); c = match(m, q, '(', ')')
        k = c + 1
        while m[k].isspace(): k += 1
        if x.group(1) == 'while' and m[k] == ';' and any(r0[1] == 'do' and m[r0[2]+1:p].strip() == '' for r0 in r): continue
        r.append((p, x.group(1), c + 1))
    return r

def cut(t, f, n, hook):
    """Conjoin hook (always true) to the condition of the n-th loop of f.  The
    hook checks the loop invariant on entry, moves to an arbitrary iteration
    and checks the invariant again after one pass.  $i stands for the variable
    the loop counts with."""
    s, p, b, e = find_def(t, f)
    L = loops(t, b, e)
    if n >= len(L): raise KeyError('loop %d of %s not found' % (n, f))
    pos, kind, _ = L[n]; m = mask(t)
    if kind == 'do': raise KeyError('do loop')
    q = m.index('(', pos); c = match(m, q, '(', ')')
    hd = t[q+1:c]
    if '$i' in hook:
        x = re.search(r'(\w+)\s*(?:\+\+|\+=\s*1\b|--)', m[q+1:c]) or re.search(r'\+\+\s*(\w+)', m[q+1:c]) or re.search(r'(\w+)\s*=\s*0', m[q+1:c]) or re.search(r'(\w+)\s*<', m[q+1:c])
        if not x: raise KeyError('no counter in loop %d of %s' % (n, f))
        hook = hook.replace('$i', x.group(1))
    if kind == 'while': new = '(%s) && (%s)' % (hook, hd)
    else:
        parts = m[q+1:c].split(';')
        if len(parts) != 3: raise KeyError('odd for loop')
        a = len(parts[0]); d = a + 1 + len(parts[1])
        new = hd[:a+1] + ' (%s) && (%s)' % (hook, hd[a+1:d].strip() or '1') + hd[d:]
    return t[:q+1] + new + t[c:]

def apply_text(t, items):
    for it in items:
        if it[0] == 'split':
            s, p, b, e = find_def(t, it[1])
            sig = t[s:b].rstrip()
            t = t[:s] + sig + ';\n' + t[s:p] + it[1] + '__body' + t[p+len(it[1]):]
        elif it[0] == 'loop':
            s, p, b, e = find_def(t, it[1])
            L = loops(t, b, e)
            if it[2] >= len(L): raise KeyError('loop %d of %s not found' % (it[2], it[1]))
            pos = L[it[2]][2]
            t = t[:pos] + '\n' + it[3] + '\n' + t[pos:]
        elif it[0] == 'define':
            t2 = re.sub(r'(?m)^#define %s .*$' % it[1], '#define %s %s' % (it[1], it[2]), t)
            if t2 == t: raise KeyError('#define %s not found' % it[1])
            t = t2
        elif it[0] == 'cut':
            t = cut(t, *it[1:])
    return t

def apply(path, items):
    t = open(path).read()
    t = apply_text(t, items)
    open(path, 'w').write(t)

#!/usr/bin/env python3
"""Mechanical extraction of /repo's headers for the symbolic back end.

Copies every header verbatim except for these token rewrites (applied outside
comments, strings and preprocessor lines):
  R1  floating literal  L            ->  ::sym::Real(L)
  R2  c ? X : <int lit>  /  c ? <int lit> : X
                                      ->  the literal is cast to the type of X
      c ? X : Y (no literal)         ->  an integer X is cast to real when Y is
                                          real, and conversely; otherwise both
                                          are passed through
  R3  duration<double>               ->  duration<vc_machine_double>
  R4  noexcept (without argument)    ->  dropped (so a failed assertion inside
      is reported instead of terminating the verifier)
  R5  the constant maximum_quadrature_degree is 19 in the extraction: the
      rules above it are computed by an eigenvalue solver and not tabulated
      (they are only checked by the native run of P09)
The token `double` itself and Eigen's *d typedefs are re-bound by prelude.hpp.
OpenMP pragmas are ignored by the symbolic compilation (no -fopenmp).
  R6  long double                    ->  double
"""
import os, re, sys

TOK = re.compile(r'''
  (?P<raw>R"\((?:.|\n)*?\)")|
  (?P<str>"(?:\\.|[^"\\\n])*")|
  (?P<chr>'(?:\\.|[^'\\\n])+')|
  (?P<lc>//(?:[^\n\\]|\\.|\\\n)*)|
  (?P<bc>/\*(?:.|\n)*?\*/)|
  (?P<num>(?:(?:\d[\d']*\.?[\d']*|\.\d[\d']*)(?:[eE][+-]?\d+)?|0[xX][0-9a-fA-F]+)[fFlLuU]*)|
  (?P<id>[A-Za-z_]\w*)|
  (?P<ws>[ \t\r\n\\]+)|
  (?P<op>::|->|\+\+|--|&&|\|\||[-+*/%&|^=!<>]=|<<|>>|.)
''', re.X)

def tokenize(s):
    out = []
    i = 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            out.append(('op', s[i])); i += 1; continue
        out.append((m.lastgroup, m.group())); i = m.end()
    return out

def isfloat(t):
    t = t.lower()
    if t.startswith('0x'): return False
    return '.' in t or 'e' in t

INT = re.compile(r'^\d+$')

def rewrite(src):
    # split off preprocessor lines
    out = []
    chunk = []
    def flush():
        if chunk:
            out.append(rewrite_code(''.join(chunk)))
            chunk.clear()
    lines = src.splitlines(keepends=True)
    i = 0; incomment = False
    while i < len(lines):
        l = lines[i]
        if not incomment and l.lstrip().startswith('#'):
            flush()
            out.append(l)
            while l.rstrip('\n').endswith('\\') and i + 1 < len(lines):
                i += 1; l = lines[i]; out.append(l)
        else:
            chunk.append(l)
            t = re.sub(r'//.*', '', l) if not incomment else l
            if incomment:
                if '*/' in t: incomment = False
            elif '/*' in t and '*/' not in t[t.rfind('/*'):]: incomment = True
        i += 1
    flush()
    return ''.join(out)

def rewrite_code(s):
    toks = tokenize(s)
    # significant token indices
    sig = [k for k, t in enumerate(toks) if t[0] not in ('ws', 'lc', 'bc')]
    txt = [t[1] for t in toks]
    pre = {}; post = {}
    for pi, k in enumerate(sig):
        kind, t = toks[k]
        if kind == 'num' and isfloat(t):
            txt[k] = '::sym::Real(%s)' % t
        if kind == 'id' and t == 'double' and pi >= 2 and toks[sig[pi-1]][1] == '<' and toks[sig[pi-2]][1] == 'duration':
            txt[k] = 'vc_machine_double'
        if kind == 'id' and t == 'long' and pi + 1 < len(sig) and toks[sig[pi+1]][1] == 'double':
            txt[k] = ''
        if kind == 'id' and t == 'noexcept' and not (pi + 1 < len(sig) and toks[sig[pi+1]][1] == '('):
            txt[k] = ''
        if t == '?' and kind == 'op':
            # then-branch up to ':' at depth 0
            depth = 0; q = pi + 1; colon = None; nest = 0
            while q < len(sig):
                x = toks[sig[q]][1]
                if x in '([{': depth += 1
                elif x in ')]}':
                    depth -= 1
                    if depth < 0: break
                elif x == '?' and depth == 0: nest += 1
                elif x == ':' and depth == 0:
                    if nest: nest -= 1
                    else: colon = q; break
                q += 1
            if colon is None: continue
            q = colon + 1; depth = 0; whole = True
            while q < len(sig):
                x = toks[sig[q]][1]
                if x in '([{': depth += 1
                elif x in ')]}':
                    depth -= 1
                    if depth < 0: break
                elif depth == 0 and x in (';', ',', ':'): break
                elif depth == 0 and x == '>': whole = False; break  # the end of a template argument, or a comparison
                q += 1
            A = sig[pi+1:colon]; B = sig[colon+1:q]
            def text(ix): return ''.join(toks[j][1] if toks[j][0] not in ('lc', 'bc') else ' ' for j in range(ix[0], ix[-1]+1)) if ix else ''
            def lit(ix):
                return (len(ix) == 1 and INT.match(toks[ix[0]][1])) or (len(ix) == 2 and toks[ix[0]][1] == '-' and INT.match(toks[ix[1]][1]))
            if A and B:
                def fl(x): return re.sub(r'(?<![\w.])(\d+\.\d*(?:[eE][+-]?\d+)?|\.\d+|\d+[eE][+-]?\d+)', r'::sym::Real(\1)', x)
                if lit(A) and not lit(B):
                    pre[A[0]] = '::vc_cast<decltype(%s)>(' % (fl(text(B)),) + pre.get(A[0], ''); post[A[-1]] = post.get(A[-1], '') + ')'
                elif lit(B) and not lit(A):
                    pre[B[0]] = '::vc_cast<decltype(%s)>(' % (fl(text(A)),) + pre.get(B[0], ''); post[B[-1]] = post.get(B[-1], '') + ')'
                elif whole and not lit(A) and not lit(B) and len(text(A)) + len(text(B)) < 200 and not re.search(r'["{?<]|(?<!-)>|\b(throw|nullptr|NULL|true|false)\b', text(A) + text(B)):
                    ta, tb = fl(text(A)), fl(text(B))
                    pre[A[0]] = '::vc_tern<decltype((%s)), decltype((%s))>(' % (ta, tb) + pre.get(A[0], ''); post[A[-1]] = post.get(A[-1], '') + ')'
                    pre[B[0]] = '::vc_tern<decltype((%s)), decltype((%s))>(' % (tb, ta) + pre.get(B[0], ''); post[B[-1]] = post.get(B[-1], '') + ')'
    return ''.join(pre.get(k, '') + t + post.get(k, '') for k, t in enumerate(txt))

def main(src, dst):
    n = 0
    for root, _, files in os.walk(src):
        rel = os.path.relpath(root, src)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            try: s = open(os.path.join(root, f), encoding='utf-8').read()
            except UnicodeDecodeError: continue
            r = re.sub(r'(\bmaximum_quadrature_degree\s*=\s*)\d+', r'\g<1>19', rewrite(s))
            open(os.path.join(dst, rel, f), 'w').write(r)
            n += 1
    return n

if __name__ == '__main__':
    if sys.argv[1:] == ['--selftest']:
        import shutil, subprocess, tempfile
        d = tempfile.mkdtemp()
        try:
            print('%d files extracted' % main(os.path.join(os.environ.get('VC_REPO', '/repo'), 'Bembel'), os.path.join(d, 'Bembel')))
            print(subprocess.run(['g++', '--version'], stdout=subprocess.PIPE, text=True).stdout.splitlines()[0])
        finally: shutil.rmtree(d)
    else: main(sys.argv[1], sys.argv[2])

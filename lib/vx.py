"""Extracts functions from /repo/src and puts them, with their contracts, into one Verus file per unit (see DESIGN.md).

What the extraction drops or changes: comments, attributes, the `unsafe` keyword; generic types are
replaced by the instance named in the template; the token rewriting rules are listed in the templates (//@rule) and here."""
import os, re, sys, threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('VX_SRC', '/repo/src')

class Tok:
    __slots__ = ('t', 'ws')
    def __init__(self, t, ws=''): self.t, self.ws = t, ws
    def __repr__(self): return self.t

TOKEN = re.compile(r'''
  (?P<ws>\s+) | (?P<lc>//[^\n]*) | (?P<str>b?r?"(?:\\.|[^"\\])*") | (?P<chr>b?'(?:\\.|[^'\\])') | (?P<life>'[A-Za-z_]\w*)
 | (?P<num>\d[\w]*(?:\.\d[\w]*)?) | (?P<id>\$?[A-Za-z_]\w*(?:\#)?) | (?P<op>\.\.=|\.\.\.|==>|<==>|::|->|=>|\.\.|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|\|=|&=|\^=|<<=|>>=|.)
''', re.X | re.S)

def tokens(s):
    out, i, ws = [], 0, ''
    while i < len(s):
        if s.startswith('/*', i):
            d, i = 1, i + 2
            while d and i < len(s):
                if s.startswith('/*', i): d += 1; i += 2
                elif s.startswith('*/', i): d -= 1; i += 2
                else: i += 1
            ws = ws or ' '; continue
        m = TOKEN.match(s, i)
        i = m.end()
        if m.lastgroup == 'ws': ws = '\n' if '\n' in m.group() or ws == '\n' else ' '; continue
        if m.lastgroup == 'lc': ws = '\n'; continue
        t = m.group()
        if re.fullmatch(r'\d+\.', t): pass
        if m.lastgroup == 'num' and re.fullmatch(r'\d+\.\d.*', t) is None and i < len(s) and s[i] == '.' and not s.startswith('..', i) and not (i + 1 < len(s) and (s[i+1].isalpha() or s[i+1] == '_')):
            t += '.'; i += 1
        out.append(Tok(t, ws)); ws = ''
    # tuple field access `x.0.1` : the number token `0.1` after a dot is two fields
    res = []
    for k, t in enumerate(out):
        if re.fullmatch(r'\d+\.\d+', t.t) and res and res[-1].t == '.':
            a, b = t.t.split('.'); res += [Tok(a, t.ws), Tok('.'), Tok(b)]
        else: res.append(t)
    return res

OPEN, CLOSE = {'(': ')', '[': ']', '{': '}'}, {')', ']', '}'}

def match(ts, i):
    """index of the closing bracket of ts[i]"""
    d = 0
    for k in range(i, len(ts)):
        if ts[k].t in OPEN: d += 1
        elif ts[k].t in CLOSE:
            d -= 1
            if d == 0: return k
    raise ValueError('unbalanced')

def text(ts):
    out = []
    for k, t in enumerate(ts):
        out.append(('\n' if t.ws == '\n' else ' ' if t.ws or (k and (ts[k-1].t[-1:].isalnum() or ts[k-1].t[-1:] == '_') and (t.t[:1].isalnum() or t.t[:1] in '_$')) else '') + t.t)
    return ''.join(out)

def norm(ts): return ''.join(t.t if not (k and (ts[k-1].t[-1].isalnum()) and t.t[0].isalnum()) else ' ' + t.t for k, t in enumerate(ts))

def strip_attrs(ts):
    out, i = [], 0
    while i < len(ts):
        if ts[i].t == '#' and i + 1 < len(ts) and (ts[i+1].t == '[' or (ts[i+1].t == '!' and ts[i+2].t == '[')):
            j = i + 1 if ts[i+1].t == '[' else i + 2
            e = match(ts, j)
            a = norm(ts[i:e+1])
            if a == '#[cfg(test)]':
                # skip the item which follows
                k = e + 1
                while ts[k].t not in '{;': k += 1
                i = (match(ts, k) if ts[k].t == '{' else k) + 1
                continue
            i = e + 1; continue
        out.append(ts[i]); i += 1
    return out

def skip_generics(ts, i):
    """ts[i] is `<`: index after the matching `>`"""
    d = 0
    while True:
        t = ts[i].t
        if t == '<': d += 1
        elif t == '>': d -= 1
        elif t in OPEN: i = match(ts, i)
        i += 1
        if d == 0: return i

class Fn:
    def __init__(self, header, name, params, sig, body, file, macro): self.header, self.name, self.params, self.sig, self.body, self.file, self.macro = header, name, params, sig, body, file, macro

def split_top(ts, sep=','):
    out, cur, i, d = [], [], 0, 0
    while i < len(ts):
        t = ts[i].t
        if t in OPEN:
            e = match(ts, i); cur += ts[i:e+1]; i = e + 1; continue
        if t == '<': d += 1
        if t == '>' : d -= 1
        if t == sep and d <= 0: out.append(cur); cur = []
        else: cur.append(ts[i])
        i += 1
    if cur: out.append(cur)
    return out

def parse_items(ts, header, file, out, macro=None):
    i = 0
    while i < len(ts):
        t = ts[i].t
        if t == 'macro_rules':
            k = i
            while ts[k].t not in ('{', '('): k += 1
            e = match(ts, k)
            j = k + 1
            while j < e:  # arms: ( pattern ) => { body } ;
                pe = match(ts, j); b = pe + 2; be = match(ts, b)
                parse_items(ts[b+1:be], '', file, out, ts[i+2].t)
                j = be + 1
                if j < e and ts[j].t == ';': j += 1
            i = e + 1
        elif t in ('impl', 'trait') and (i == 0 or ts[i-1].t not in ('->', ':', '=', '<', '(', ',')):
            k = i
            while ts[k].t not in ('{', ';'):
                if ts[k].t in ('(', '['): k = match(ts, k)
                k += 1
            if ts[k].t == ';': i = k + 1; continue
            h = ts[i+1:k]
            if t == 'impl' and h and h[0].t == '<': h = h[skip_generics(h, 0):]
            for n, x in enumerate(h):
                if x.t == 'where': h = h[:n]; break
            if t == 'trait': h = [Tok('trait ')] + h
            e = match(ts, k)
            parse_items(ts[k+1:e], norm(h), file, out, macro)
            i = e + 1
        elif t == 'mod' and i + 2 < len(ts) and ts[i+2].t == '{':
            e = match(ts, i + 2); parse_items(ts[i+3:e], header, file, out, macro); i = e + 1
        elif t == 'fn' and i + 1 < len(ts):
            name = ts[i+1].t; k = i + 2
            if ts[k].t == '<': k = skip_generics(ts, k)
            if ts[k].t != '(': i += 1; continue
            pe = match(ts, k); params = split_top(ts[k+1:pe])
            b = pe + 1
            while ts[b].t not in ('{', ';'):
                if ts[b].t in ('(', '['): b = match(ts, b)
                b += 1
            if ts[b].t == '{':
                e = match(ts, b)
                out.append(Fn(header, name, params, ts[i:b], ts[b+1:e], file, macro)); i = e + 1
            else: i = b + 1
        elif t == '{': i = match(ts, i) + 1
        else: i += 1

def index():
    out = []
    for d, _, fs in sorted(os.walk(SRC)):
        for f in sorted(fs):
            if f.endswith('.rs'):
                p = os.path.join(d, f)
                parse_items(strip_attrs(tokens(open(p, encoding='utf8').read())), '', os.path.relpath(p, SRC), out)
    return out

# ---- token rules -----------------------------------------------------------------------------------------------------

def pat(s): return [t.t for t in tokens(re.sub(r'\$\*(\w+)', r'$__\1', s))]

def match_at(ts, i, p, k=0, env=None):
    """matches the pattern from ts[i]; returns (end, env) or None"""
    env = env or {}
    if k == len(p): return i, env
    q = p[k]
    if q == '^':
        if i == 0 or ts[i-1].t in ('{', '}', ';', '=>', '=', 'return', '->'): return match_at(ts, i, p, k + 1, env)
        return None
    if q.startswith('$__'):
        j = i
        while True:
            r = match_at(ts, j, p, k + 1, dict(env, **{q[3:]: ts[i:j]})) if j > i else None
            if r: return r
            if j >= len(ts) or ts[j].t in CLOSE or (ts[j].t == ';' and not q.startswith('$___')): return None
            j = match(ts, j) + 1 if ts[j].t in OPEN else j + 1
    if i >= len(ts): return None
    if q.startswith('$'):
        if not re.match(r"[\w$']", ts[i].t): return None
        if q[1:] in env and env[q[1:]][0].t != ts[i].t: return None
        return match_at(ts, i + 1, p, k + 1, dict(env, **{q[1:]: [ts[i]]}))
    if q != ts[i].t: return None
    return match_at(ts, i + 1, p, k + 1, env)

def subst(rep, env):
    out = []
    for t in tokens(re.sub(r'\$\*(\w+)', r'$__\1', rep)):
        n = t.t[3:] if t.t.startswith('$__') else t.t[1:] if t.t.startswith('$') else None
        if n in env and n is not None:
            v = env[n]
            out += [Tok(v[0].t, t.ws or v[0].ws)] + v[1:] if v else []
        else: out.append(t)
    return out

def apply(ts, lhs, rep):
    p = pat(lhs)
    for _ in range(8):
        out, i, n = [], 0, 0
        while i < len(ts):
            r = match_at(ts, i, p)
            if r and r[0] > i:
                new = subst(rep, r[1])
                if new: new[0] = Tok(new[0].t, ts[i].ws or new[0].ws or ' ')
                out += new; i = r[0]; n += 1
            else: out.append(ts[i]); i += 1
        ts = out
        r = [t.t for t in tokens(rep)]
        if not n or any(r[k:k+len(p)] == p for k in range(len(r))): break
    return ts

DEFAULT_RULES = [
    ('debug_assert ! ( $*c , $*m )', '{ if !($*c) { vpanic(); } }'), ('debug_assert ! ( $*c )', '{ if !($*c) { vpanic(); } }'),
    ('debug_assert_ne ! ( $*a , $*b )', '{ if ($*a) == ($*b) { vpanic(); } }'), ('debug_assert_eq ! ( $*a , $*b )', '{ if ($*a) != ($*b) { vpanic(); } }'),
    ('assert ! ( $*c , $*m )', '{ if !($*c) { vpanic(); } }'), ('assert ! ( $*c )', '{ if !($*c) { vpanic(); } }'), ('assert ! [ $*c , $*m ]', '{ if !($*c) { vpanic(); } }'),
    ('assert_ne ! ( $*a , $*b , $*m )', '{ if ($*a) == ($*b) { vpanic(); } }'),
    ('unsafe {', '{'), ('( | $v | $*e ) ( $a )', '{ let $v = $a; $*e }'),
]

KNOWN = []
def known_names():
    """names of functions and constants which the units speak of"""
    if not KNOWN:
        fn, co = set(), set()
        d = os.path.join(HERE, 'verus')
        for f in os.listdir(d):
            if not f.endswith('.vrs'): continue
            t = expand_for(open(os.path.join(d, f), encoding='utf8').read())
            fn |= set(re.findall(r'//@fn .*? ?:: (\w+)', t)) | set(re.findall(r'\bfn (\w+)', t)) | set(re.findall(r'::(\w+)\s*\]', t))
            co |= set(re.findall(r'//@const .*? ?:: (\w+)', t)) | set(re.findall(r'\bconst (\w+)', t))
        KNOWN[:] = [fn, co]
    return KNOWN

def self_kind(params):
    """how a method takes its receiver: '', 'self', '&', '&mut' """
    if not params or param_name(params[0]) != 'self': return ''
    t = [x.t for x in params[0] if not x.t.startswith("'")]
    return '&mut' if t[:2] == ['&', 'mut'] else '&' if t[0] == '&' else 'self'

def mk(*parts):
    out = []
    for p in parts: out += tokens(p) if isinstance(p, str) else list(p)
    if out: out[0] = Tok(out[0].t, out[0].ws or ' ')
    return out

def inline(ts, f, idx):
    """Puts back in the body what the units do not speak of: constants, and functions without `return` nor `?`, by their source.
    Arguments are evaluated first, in order, then bound to the parameters: same meaning as the call."""
    fns, consts = known_names()
    helpers = {}
    for h in idx:
        if h.name not in fns and h.macro in (None, f.macro): helpers.setdefault(h.name, []).append(h)
    for _ in range(6):
        out, i, n = [], 0, 0
        local = {ts[k+1].t for k in range(len(ts) - 1) if ts[k].t in ('const', 'let')}
        while i < len(ts):
            t = ts[i].t
            prev = ts[i-1].t if i else ''
            if t == 'const' and i + 2 < len(ts) and ts[i+2].t == ':': out.append(Tok('let', ts[i].ws or ' ')); i += 1; continue
            if re.match(r'[A-Z][A-Z0-9_]+$', t) and prev not in ('.', 'let', 'const') and t not in consts and t not in local and (prev != '::' or (i > 1 and ts[i-2].t == 'Self')):
                c = find_const(f.header if prev == '::' else '-', t)
                if c and CONST_TYPES.get(t):
                    if prev == '::': del out[-2:]
                    out += mk('{ let c_ :', tokens(CONST_TYPES[t]), '=', tokens(c), '; c_ }'); i += 1; n += 1; continue
            hs = helpers.get(t, []) if i + 1 < len(ts) and ts[i+1].t == '(' and prev != 'fn' else []
            recv, drop = None, 0
            if hs and prev == '.':
                if i > 1 and re.match(r'\w+$', ts[i-2].t) and (i < 3 or ts[i-3].t not in ('.', '::')): recv, drop = ts[i-2].t, 2
                else: hs = []
                hs = [h for h in hs if self_kind(h.params)]
                if recv == 'self': hs = [h for h in hs if h.header == f.header] or [h for h in hs if not re.search(r'\bfor ', h.header)]
            elif hs and prev == '::':
                if i > 1 and re.match(r'\w+$', ts[i-2].t): drop = 2
                else: hs = []
                hs = [h for h in hs if not self_kind(h.params) and (re.match(r'\w+', h.header) and (ts[i-2].t == 'Self' and h.header == f.header or re.match(r'\w+', h.header).group() == ts[i-2].t or not h.header) or not h.header)]
            elif hs: hs = [h for h in hs if not h.header]
            if len(hs) == 1 and not any(x.t in ('return', '?') for x in hs[0].body) and hs[0].body is not f.body:
                h = hs[0]
                e = match(ts, i + 1); args = split_top(ts[i+2:e]); k = self_kind(h.params); ps = h.params[1:] if k else h.params
                body = [Tok(x.t, x.ws) for x in h.body]
                ok = len(ps) == len(args) and all(':' in [x.t for x in p] for p in ps)
                if ok and k:
                    mine = self_kind(f.params) if recv == 'self' else 'var'
                    if recv == 'self' and k == mine: pass
                    elif recv == 'self' and k == '&' and mine == '&mut': pass
                    elif recv == 'self' and k == 'self' and mine in ('&', '&mut'): body = [y for x in body for y in (mk('( * self )') if x.t == 'self' else [x])]
                    elif k in ('&', '&mut') or (k == 'self' and mine == 'var'): body = apply(body, '* self', recv) if k != 'self' else body; body = [Tok(recv, x.ws) if x.t == 'self' else x for x in body]
                    else: ok = False
                    if mine == 'var' and recv in {param_name(p) for p in ps} | {body[q+1].t for q in range(len(body) - 1) if body[q].t in ('let', 'mut', '|')}: ok = False
                if ok:
                    generic = h.sig[2].t == '<' or not h.header and False
                    pats = [p[:[x.t for x in p].index(':')] for p in ps]; tys = [p[[x.t for x in p].index(':')+1:] for p in ps]
                    bind = []
                    if len(ps) == 1: bind = mk('let ', pats[0], [] if generic else mk(': ', tys[0]), ' = ', args[0], ' ;')
                    elif ps:
                        comma = lambda xs: [y for q, x in enumerate(xs) for y in ((mk(',') if q else []) + mk(x))]
                        bind = mk('let ( ', comma(pats), ' )', [] if generic else mk(': ( ', comma(tys), ' )'), ' = ( ', comma(args), ' ) ;')
                    if drop: del out[-drop:]
                    out += mk('{ ', bind, ' ', body, ' }'); i = e + 1; n += 1; continue
            out.append(ts[i]); i += 1
        ts = out
        if not n: break
    return ts

def forms(ts, rules):
    """Other writings of one thing, brought to the one the rules of the function speak of: `for x in e {..}` and `e.for_each(|x| ..)`
    (a body without `return`, `break`, `continue`, `?`), `map_or`, a loop up to a variable."""
    ts = apply(ts, '. map_or ( $*d , $*f )', '. map($*f).unwrap_or($*d)')
    each = [a for a, b in rules if 'for_each' in a]
    leaves = lambda b: any(t.t in ('return', 'break', 'continue', '?') for t in b)
    if each and not any(t.t == 'for_each' for t in ts):
        for k, b in reversed(find_loops(ts)):
            if ts[k].t != 'for': continue
            n = next((x for x in range(k, b) if ts[x].t == 'in'), None)
            e = match(ts, b); body = ts[b+1:e]
            if n is None or leaves(body): continue
            pt, src = ts[k+1:n], ts[n+1:b]
            if any(t.t == '..' for t in src) and src[0].t != '(': src = mk('(', src, ')')
            if src[0].t == '&' and src[1].t == 'mut': src = mk(src[2:], '. iter_mut ( )')
            elif src[0].t == '&': src = mk(src[1:], '. iter ( )')
            call = norm(src)
            braces = any(re.search(r'for_each \( \|.*\| \{', a) for a in each)
            if not braces and body and body[-1].t == ';' and not any(t.t == ';' for t in body[:-1]): body = body[:-1]
            else: body = mk('{ ', body, ' }')
            ts = ts[:k] + mk(' ', src, ' . for_each ( | ', pt, ' | ', body, ' ) ;') + ts[e+1:]
    if not each and any(a.startswith('for ') for a, b in rules) and any(t.t == 'for_each' for t in ts):
        for _ in range(4):
            k = next((x for x in range(len(ts)) if ts[x].t == 'for_each' and ts[x-1].t == '.' and ts[x+1].t == '(' and ts[x+2].t == '|'), None)
            if k is None: break
            e = match(ts, k + 1); c = next(x for x in range(k + 3, e) if ts[x].t == '|')
            pt, body = ts[k+3:c], ts[c+1:e]
            if body and body[0].t == 'unsafe': body = body[1:]
            body = body[1:-1] if body and body[0].t == '{' and match(body, 0) == len(body) - 1 else mk(body, ' ;')
            a = k - 1
            while a > 0 and ts[a-1].t not in (';', '{', '}'): a = a - 1 if ts[a-1].t not in CLOSE else opening(ts, a - 1)
            src = ts[a:k-1]
            if leaves(body): break
            if src and src[0].t == '(' and match(src, 0) == len(src) - 1: src = src[1:-1]
            end = e + 1 + (e + 1 < len(ts) and ts[e+1].t == ';')
            ts = ts[:a] + mk(' for ', pt, ' in ', src, ' { ', body, ' }') + ts[end:]
    if any(a.startswith('for $i in 0 .. self . size ( ) {') for a, b in rules):
        for k, b in reversed(find_loops(ts)):
            if ts[k].t == 'for' and b == k + 6 and norm(ts[k+2:k+5]) == 'in 0 ..' and re.match(r'[a-z]\w*$', ts[k+5].t):
                ts = ts[:k] + mk(' let n_ = ', [ts[k+5]], ' ; for ', [ts[k+1]], ' in 0 .. n_') + ts[b:]
    return ts

def opening(ts, k):
    """index of the bracket which the one at k closes"""
    d = 0
    while k >= 0:
        if ts[k].t in CLOSE: d += 1
        if ts[k].t in OPEN:
            d -= 1
            if d == 0: return k
        k -= 1
    return 0

def find_loops(ts):
    """[(keyword index, index of the body's brace)]"""
    out = []
    for i, t in enumerate(ts):
        if t.t in ('loop', 'while', 'for') and (i == 0 or ts[i-1].t not in ('impl', '>')) and not (t.t == 'for' and i + 1 < len(ts) and ts[i+1].t == '<'):
            k = i + 1
            while ts[k].t != '{':
                if ts[k].t in ('(', '['): k = match(ts, k)
                k += 1
            out.append((i, k))
    return out

class Lost(Exception): pass

def expand_for(s):
    while True:
        m = re.search(r'^[ \t]*//@for ([\w ]+) in (.*)\n((?:(?!\s*//@(?:for|endfor)).*\n)*?)[ \t]*//@endfor[^\n]*\n', s, re.M)
        if not m: return s
        names, out = m.group(1).split(), ''
        for v in m.group(2).split():
            b = m.group(3)
            for n, x in zip(names, v.split(':', len(names) - 1)): b = b.replace('%' + n + '%', x)
            out += b
        s = s[:m.start()] + out + s[m.end():]

def key(h): return re.sub(r"'\w+", "'_", h).replace(' ', '')

def macro_args(name, first):
    """the arguments of the invocation `name!(first, ...)`, by the names of the macro's parameters"""
    params, found = None, []
    for d, _, fs in sorted(os.walk(SRC)):
        for f in sorted(fs):
            if not f.endswith('.rs'): continue
            ts = strip_attrs(tokens(open(os.path.join(d, f), encoding='utf8').read()))
            for i, t in enumerate(ts):
                if t.t == 'macro_rules' and ts[i+2].t == name:
                    k = i + 4
                    e = match(ts, k); params = [p[0].t for p in split_top(ts[k+1:e])]
                if t.t == name and i + 2 < len(ts) and ts[i+1].t == '!' and ts[i+2].t in OPEN and (i < 2 or ts[i-2].t != 'macro_rules'):
                    e = match(ts, i + 2); args = split_top(ts[i+3:e])
                    if norm(args[0]) == first.split(',')[0] and all(norm(a) == b for a, b in zip(args, first.split(','))): found.append(args)
    if params is None or len(found) != 1 or len(found[0]) != len(params): return None
    return dict(zip(params, found[0]))

CONSTS, CONST_TYPES = {}, {}
def find_const(header, name):
    if not CONSTS:
        for d, _, fs in sorted(os.walk(SRC)):
            for f in sorted(fs):
                if f.endswith('.rs'):
                    ts = strip_attrs(tokens(open(os.path.join(d, f), encoding='utf8').read()))
                    h = ''
                    for i, t in enumerate(ts):
                        if t.t == 'impl':
                            k = i
                            while ts[k].t not in '{;': k += 1
                            x = ts[i+1:k]
                            if x and x[0].t == '<': x = x[skip_generics(x, 0):]
                            h = key(norm(x))
                        if t.t == 'const' and ts[i+2].t == ':':
                            k = i
                            while ts[k].t not in ('=', ';'): k += 1
                            if ts[k].t == ';': continue
                            e = k
                            while ts[e].t != ';': e = match(ts, e) + 1 if ts[e].t in OPEN else e + 1
                            CONST_TYPES[ts[i+1].t] = text(ts[i+3:k]); CONSTS.setdefault((h, ts[i+1].t), text(ts[k+1:e])); CONSTS.setdefault(('-', ts[i+1].t), text(ts[k+1:e]))
    return CONSTS.get((key(header), name))

def param_name(p):
    ts = [t.t for t in p]
    if 'self' in ts and (':' not in ts or ts.index('self') < ts.index(':')): return 'self'
    if ':' in ts:
        n = ts[:ts.index(':')]
        if n[0] == 'mut': n = n[1:]
        return n[0] if len(n) == 1 else None
    return None

def sig_params(sig):
    ts = tokens(sig)
    k = next(i for i, t in enumerate(ts) if t.t == 'fn') + 2
    if ts[k].t == '<': k = skip_generics(ts, k)
    e = match(ts, k)
    return split_top(ts[k+1:e])

def returns(ts):
    """(index of `return`, end of its expression) of every `return` of the body"""
    out = []
    for a, t in enumerate(ts):
        if t.t != 'return': continue
        b = a + 1
        while b < len(ts) and ts[b].t not in (';', ',', '}', ')'):
            b = match(ts, b) + 1 if ts[b].t in ('(', '[', '{') else b + 1
        if b > a + 1: out.append((a, b))
    return out

def bare_closure(ts):
    """a closure which carries no contract: nothing is known of it where it is called"""
    k = 0
    while k < len(ts):
        if ts[k].t in ('|', '||') and (k == 0 or ts[k-1].t in ('(', ',', '=', '{', ';', 'return', 'move')):
            e = k
            if ts[k].t == '|':
                e = k + 1
                while e < len(ts) and ts[e].t != '|': e += 1
            if e + 1 < len(ts) and ts[e+1].t != '->': return True
            k = e
        k += 1
    return False

class Emitted:
    def __init__(self, name, file, first, last, lost, spec): self.name, self.file, self.first, self.last, self.lost, self.spec = name, file, first, last, lost, spec

LOCK = threading.Lock()
def render(unit, externals=(), vacuity=False):
    with LOCK: return render_(unit, externals, vacuity)

def render_(unit, externals=(), vacuity=False):
    """returns (text, [Emitted]); externals: names of extracted functions whose body is left out (their contract is kept)"""
    idx = index()
    lines, fns = [], []
    def emit(s): lines.extend(s.split('\n'))
    stack, grules = [], []
    def process(path):
        src = expand_for(open(path, encoding='utf8').read()).split('\n')
        i = 0
        while i < len(src):
            l = src[i]
            m = re.match(r'\s*//@include (\w+)', l)
            if m:
                if m.group(1) not in stack: stack.append(m.group(1)); process(os.path.join(HERE, 'verus', m.group(1) + '.vrs'))
                i += 1; continue
            m = re.match(r'\s*//@const (.*?) ?:: (\w+)$', l)
            if m:
                emit(find_const(m.group(1), m.group(2)) or 'compile_error!("constant not found")'); i += 1; continue
            m = re.match(r'\s*//@grule (.*?) ==> ?(.*)', l)
            if m: grules.append((m.group(1), m.group(2))); i += 1; continue
            m = re.match(r'\s*//@fn (.*?) ?:: (\w+)(?: as (\w+))?\s*$', l)
            if not m: emit(l); i += 1; continue
            header, name, alias = key(m.group(1)) if m.group(1) != '-' else '', m.group(2), m.group(3) or m.group(2)
            i += 1
            sig, rules, invs, ins, cur, mac = [], [], [], [], None, None
            subs = {}
            while not re.match(r'\s*//@end', src[i]):
                l = src[i]; i += 1
                if (m := re.match(r'\s*//@rule (.*?) ==> ?(.*)', l)): rules.append((m.group(1), m.group(2))); cur = None
                elif re.match(r'\s*//@inv', l): invs.append([]); cur = invs[-1]
                elif (m := re.match(r'\s*//@(before|after) (?:(\d+|\*) )?(.*)', l)): ins.append((m.group(1), m.group(2) or '1', m.group(3), [])); cur = ins[-1][3]
                elif re.match(r'\s*//@start', l): ins.append(('start', '1', '', [])); cur = ins[-1][3]
                elif re.match(r'\s*//@final', l): ins.append(('final', '1', '', [])); cur = ins[-1][3]
                elif re.match(r'\s*//@post', l): ins.append(('post', '1', '', [])); cur = ins[-1][3]
                elif (m := re.match(r'\s*//@macro (\w+) (\S+)', l)):
                    subs['!'] = m.group(2); mac = m.group(1); margs = macro_args(m.group(1), m.group(2))
                    if margs is None: subs['?'] = 'macro %s!(%s) not found' % m.groups()
                    else: subs.update({k: v for k, v in margs.items()})
                elif (m := re.match(r'\s*//@with (.*)', l)):
                    for kv in m.group(1).split(): a, b = kv.split('=', 1); subs[a] = b
                elif cur is not None: cur.append(l)
                else: sig.append(l)
            i += 1
            cands = [f for f in idx if f.name == name and key(f.header) == header]
            cands = [f for f in cands if f.macro == mac] or cands
            fid = (header + '::' if header else '') + name + ('' if alias == name else ' as ' + alias)
            lost = []
            if '!' in subs: fid += ' ' + subs.pop('!')
            elif subs: fid += ' ' + ' '.join('%s=%s' % x for x in subs.items())
            if '?' in subs: lost.append(subs.pop('?'))
            if len(cands) != 1: lost.append('function %s found %d times' % (fid, len(cands)))
            first = len(lines) + 1
            s = '\n'.join(sig).rstrip()
            if len(cands) != 1 or fid in externals:
                lead = re.match(r'\s*', s).group()
                emit(lead + '#[verifier::external_body]\n' + s + '\n' + lead + '{ unimplemented!() }')
                fns.append(Emitted(fid, cands[0].file if cands else '?', first, len(lines), lost or ['left out'], s)); continue
            f = cands[0]
            ts = [Tok(t.t, t.ws) for t in f.body]
            for a, b in subs.items():
                b = tokens(b) if isinstance(b, str) else b
                ts = [x for t in ts for x in ([Tok(b[0].t, t.ws or ' ')] + b[1:] if t.t == a else [t])]
            ts = forms(inline(ts, f, idx), rules)
            for a, b in DEFAULT_RULES + rules + grules: ts = apply(ts, a, b)
            # parameters: same number, renamed when needed
            mine = [param_name(p) for p in sig_params(s)]; theirs = [param_name(p) for p in f.params]
            pre = ''
            if len(mine) != len(theirs): lost.append('%d parameters instead of %d' % (len(theirs), len(mine)))
            else:
                for a, b, p in zip(mine, theirs, f.params):
                    if b is None: pre += 'let %s = %s; ' % (text(p[:[t.t for t in p].index(':')]), a)
                    elif a != b or p[0].t == 'mut' : pre += 'let %s%s = %s; ' % ('mut ' if p[0].t == 'mut' and b != 'self' else '', b, a) if b != 'self' else ''
            # insertions are placed on the token list, from the end
            if bare_closure(ts): lost.append('a closure without a contract')
            edits, post, gone = [], None, set()
            loops = find_loops(ts)
            if len(loops) != len(invs):
                lost.append('%d loops instead of %d' % (len(loops), len(invs)))
            else:
                for (k, b), inv in zip(loops, invs): edits.append((b, '\n' + '\n'.join(inv) + '\n'))
            for where, nth, p, body in ins:
                t = '\n' + '\n'.join(body) + '\n'
                if where == 'start': edits.append((0, t)); continue
                if where == 'final': edits.append((len(ts), t)); continue
                if where == 'post':
                    post = 'let res_ = {\n'; edits.append((len(ts), '\n};' + t + 'res_\n'))
                    for a, b in returns(ts): edits += [(a, '{ let res_ ='), (b, ';' + t + 'return res_; }')]; gone.add(a)
                    continue
                pp, hits, k = pat(p), [], 0
                while k < len(ts):
                    r = match_at(ts, k, pp)
                    if r: hits.append((k, r[0])); k = max(r[0], k + 1)
                    else: k += 1
                if nth == '*': sel = hits
                else: sel = hits[int(nth)-1:int(nth)]
                if not sel: lost.append('anchor `%s` (%s)' % (p, nth))
                for a, b in sel: edits.append((a if where == 'before' else b, t))
            if post: edits.append((0, post))
            out = []
            for k in range(len(ts) + 1):
                for pos, t in edits:
                    if pos == k: out.append(Tok('\x00' + t))
                if k < len(ts) and k not in gone: out.append(ts[k])
            body = text_mixed(out)
            emit(s + '\n{ ' + ('proof { assert(false); } ' if vacuity else '') + pre + '\n' + body + '\n}')
            fns.append(Emitted(fid, f.file, first, len(lines), lost, s))
    process(os.path.join(HERE, 'verus', unit + '.vrs'))
    return '\n'.join(lines) + '\n}\n', fns  # closes verus!

def text_mixed(ts):
    out, run = [], []
    for t in ts:
        if t.t.startswith('\x00'):
            out.append(text(run)); run = []; out.append(t.t[1:])
        else: run.append(t)
    out.append(text(run))
    return ''.join(out)

if __name__ == '__main__':
    if sys.argv[1] == '--list':
        for f in index(): print(f.file, '|', f.header, '::', f.name, '(', ', '.join(norm(p) for p in f.params), ')')
    else:
        t, fns = render(sys.argv[1], vacuity='--vacuity' in sys.argv)
        sys.stdout.write(t)
        for f in fns:
            if f.lost: print('LOST', f.name, f.lost, file=sys.stderr)

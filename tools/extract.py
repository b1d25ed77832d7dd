#!/usr/bin/env python3
"""Mechanical extraction of Rust items from /repo into Verus (or Kani) units.

A unit template is a Verus source file in which lines starting with `//@` direct the
extraction.  Everything between `//@fn FILE NAME` and `//@end` describes ONE function
whose text is taken verbatim from /repo on every run; the template only supplies the
contract and the proof annotations that are spliced around / into it.

Directives
  //@const FILE NAME            copy a `const NAME ...;` item
  //@type FILE NAME             copy a `type NAME = ...;` item
  //@item FILE KIND NAME [keep=f1,f2,...] [derive=A,B]
                                copy struct/enum; with keep= only these fields are kept
  //@fn FILE NAME [impl=REGEX] [as=NEWNAME] [ret=r] [free=SelfType] [sub=FROM=>TO;FROM=>TO]
  |  requires/ensures/... text (lines starting with `|` after the directive are the contract)
  //@loop N [iter=it]           following `|` lines are spliced before loop N's block
  //@at body-start | body-end | loop N start | loop N end | before-loop N | after-loop N
                                following `|` lines are spliced there
  //@before REGEX / //@after REGEX   following `|` lines spliced before/after the unique match
  //@rewrite REGEX => REPL      a textual rewrite of an unsupported construct
  //@end

What extraction drops: attributes, doc comments and comments, visibility (made `pub`).
`format!`/`write!` with plain `{x}` / `{}` placeholders is rewritten to the equivalent
sequence of display-pushes (see FORMAT).
"""
import re, sys, json, os

class Lost(Exception):
    """an anchor of the template is not in the current source"""

KEYWORDS_LOOP = {"while", "for", "loop"}

TOKEN_RE = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lcomment>//[^\n]*)
 |(?P<bcomment>/\*)
 |(?P<rawstr>b?r(?P<h>\#*)".*?"(?P=h))
 |(?P<str>b?"(?:\\.|[^"\\])*")
 |(?P<char>b?'(?:\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<ident>(?:r\#)?[A-Za-z_]\w*)
 |(?P<num>\d[\w]*(?:\.\d[\w]*)?)
 |(?P<punct>::|->|=>|\.\.=|\.\.\.|\.\.|&&|\|\||[-+*/%^&|=<>!]=|<<=|>>=|.)
''', re.X | re.S)

def tokenize(text):
    out, i, n = [], 0, len(text)
    while i < n:
        m = TOKEN_RE.match(text, i)
        if not m:
            raise Lost("tokenizer stuck")
        k = m.lastgroup
        if k == 'h':
            k = 'rawstr'
        if m.group('rawstr') is not None:
            k = 'rawstr'
        j = m.end()
        if k == 'bcomment':
            depth, j = 1, m.end()
            while depth and j < n:
                if text.startswith('/*', j): depth += 1; j += 2
                elif text.startswith('*/', j): depth -= 1; j += 2
                else: j += 1
        if k not in ('ws', 'lcomment', 'bcomment'):
            out.append((k, text[i:j], i, j))
        i = j
    return out

OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {')', ']', '}'}

def match_close(toks, i):
    """index of the token closing the bracket opened at token i"""
    depth = 0
    for j in range(i, len(toks)):
        t = toks[j][1] if toks[j][0] == 'punct' else None
        if t in OPEN: depth += 1
        elif t in CLOSE:
            depth -= 1
            if depth == 0: return j
    raise Lost("unbalanced brackets")

def strip_comments(text):
    """text with comments blanked (newlines kept)"""
    out, i, n = [], 0, len(text)
    while i < n:
        m = TOKEN_RE.match(text, i)
        k = m.lastgroup
        j = m.end()
        if m.group('bcomment') is not None:
            depth = 1
            while depth and j < n:
                if text.startswith('/*', j): depth += 1; j += 2
                elif text.startswith('*/', j): depth -= 1; j += 2
                else: j += 1
            out.append(' ')
        elif m.group('lcomment') is not None:
            out.append('')
        else:
            out.append(text[i:j])
        i = j
    return ''.join(out)

class Source:
    cache = {}
    def __init__(self, path):
        self.path = path
        with open(path) as f:
            raw = f.read()
        self.text = strip_comments(raw)
        self.toks = tokenize(self.text)

    @classmethod
    def get(cls, path):
        if path not in cls.cache:
            if not os.path.exists(path):
                raise Lost(f"file {path} is gone")
            cls.cache[path] = cls(path)
        return cls.cache[path]

    def containers(self):
        """yield (header_text, open_idx, close_idx) of impl/mod/trait blocks + top level"""
        toks = self.toks
        yield ('', -1, len(toks))
        i = 0
        while i < len(toks):
            k, t, s, e = toks[i]
            if k == 'ident' and t in ('impl', 'mod', 'trait') and (i == 0 or toks[i-1][1] in ('}', ';', ']', ')', 'pub', 'unsafe', '{', '(')):
                j = i
                while j < len(toks) and toks[j][1] not in ('{', ';'):
                    j += 1
                if j < len(toks) and toks[j][1] == '{':
                    c = match_close(toks, j)
                    yield (self.text[s:toks[j][2]].strip(), j, c)
                    i = j + 1
                    continue
            i += 1

    def find_fn(self, name, impl=None):
        toks = self.toks
        hits = []
        for (hdr, o, c) in self.containers():
            if impl is None and hdr != '': continue
            if impl is not None and not re.search(impl, hdr): continue
            i = o + 1
            while i < c:
                t = toks[i][1]
                if toks[i][0] == 'punct' and t in OPEN:
                    i = match_close(toks, i) + 1
                    continue
                if toks[i][0] == 'ident' and t == 'fn' and toks[i+1][1] == name:
                    hits.append(i)
                i += 1
        if len(hits) != 1:
            # cfg-gated duplicates are not resolved: undecided
            raise Lost(f"{len(hits)} definitions of fn {name} (impl={impl}) in {self.path}")
        i = hits[0]
        j = i + 2
        # signature end: first `{` at bracket depth 0 (generics contain no braces)
        while toks[j][1] != '{':
            if toks[j][1] in ('(', '['):
                j = match_close(toks, j)
            elif toks[j][1] == ';':
                raise Lost(f"fn {name} has no body")
            j += 1
        c = match_close(toks, j)
        return i, j, c

    def find_item(self, kind, name):
        toks = self.toks
        for i, (k, t, s, e) in enumerate(toks):
            if k == 'ident' and t == kind and i + 1 < len(toks) and toks[i+1][1] == name:
                j = i + 2
                while toks[j][1] not in ('{', ';', '('):
                    if kind in ('const', 'static', 'type'):
                        # skip to `;` with balanced brackets
                        pass
                    j += 1
                if kind in ('const', 'static', 'type'):
                    j = i
                    while toks[j][1] != ';':
                        if toks[j][1] in OPEN: j = match_close(toks, j)
                        j += 1
                    return i, j
                if toks[j][1] == ';': return i, j
                c = match_close(toks, j)
                if toks[j][1] == '(':
                    return i, c + 1
                return i, c
        raise Lost(f"{kind} {name} not found in {self.path}")

# ---------------------------------------------------------------- format! rewriting
def parse_format_args(inner):
    """split macro args at top-level commas"""
    toks = tokenize(inner)
    parts, start, i = [], 0, 0
    while i < len(toks):
        t = toks[i][1]
        if toks[i][0] == 'punct' and t in OPEN:
            i = match_close(toks, i)
        elif t == ',':
            parts.append(inner[start:toks[i][2]].strip()); start = toks[i][3]
        i += 1
    last = inner[start:].strip()
    if last: parts.append(last)
    return parts

def unescape_lit(lit):
    m = re.match(r'^r(#*)"(.*)"\1$', lit, re.S)
    if m: return m.group(2)
    body = lit[1:-1]
    body = re.sub(r'\\\n\s*', '', body)
    return re.sub(r'\\(.)', lambda m: {'n': '\n', 't': '\t', '"': '"', '\\': '\\', "'": "'", '0': '\0', 'r': '\r'}.get(m.group(1), m.group(0)), body)

def rust_lit(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t').replace('\r', '\\r').replace('\0', '\\0') + '"'

def format_pieces(parts):
    if not re.match(r'^r?#*"', parts[0]): raise Lost("format string is not a literal")
    fmt = unescape_lit(parts[0])
    pos = [p for p in parts[1:] if not re.match(r'^\w+\s*=[^=]', p)]
    named = {m.group(1): m.group(2) for p in parts[1:] for m in [re.match(r'^(\w+)\s*=\s*(.*)$', p, re.S)] if m and not re.match(r'^\w+\s*==', p)}
    out, i, nxt, lit = [], 0, 0, ''
    while i < len(fmt):
        c = fmt[i]
        if c == '{':
            if fmt[i+1:i+2] == '{': lit += '{'; i += 2; continue
            j = fmt.index('}', i)
            spec = fmt[i+1:j]
            if lit: out.append(('lit', lit)); lit = ''
            name, _, f = spec.partition(':')
            if name == '':
                expr = pos[nxt]; nxt += 1
            elif name.isdigit(): expr = pos[int(name)]
            else: expr = named.get(name, name)
            out.append(('arg', expr, f))
            i = j + 1
        elif c == '}':
            lit += '}'; i += 2
        else:
            lit += c; i += 1
    if lit: out.append(('lit', lit))
    return out

def rewrite_macros(text, stats):
    """rewrite format!( .. ) and write!( w, .. ).expect(..) textually, repeatedly"""
    while True:
        toks = tokenize(text)
        for i in range(len(toks) - 2):
            if toks[i][0] == 'ident' and toks[i][1] in ('format', 'write', 'writeln') and toks[i+1][1] == '!' and toks[i+2][1] in OPEN:
                c = match_close(toks, i + 2)
                inner = text[toks[i+2][3]:toks[c][2]]
                parts = parse_format_args(inner)
                name = toks[i][1]
                if name == 'format':
                    pieces = format_pieces(parts)
                    b = ''.join(
                        (f' vp_s.push_str({rust_lit(p[1])}); proof {{ reveal_strlit({rust_lit(p[1])}); }}' if p[0] == 'lit' else
                         f' ({p[1]}).vp_fmt(&mut vp_s);' if p[2] == '' else
                         f' ({p[1]}).vp_fmt_{re.sub("[^A-Za-z0-9]", "_", p[2])}(&mut vp_s);') for p in pieces)
                    rep = '{ let mut vp_s = String::new();' + b + ' vp_s }'
                    stats['format!'] = stats.get('format!', 0) + 1
                    text = text[:toks[i][2]] + rep + text[toks[c][3]:]
                else:
                    w, parts = parts[0], parts[1:]
                    pieces = format_pieces(parts)
                    if name == 'writeln': pieces.append(('lit', '\n'))
                    b = ''.join(
                        (f' proof {{ reveal_strlit({rust_lit(p[1])}); }} vp_w_str({w}, {rust_lit(p[1])});' if p[0] == 'lit' else
                         f' ({p[1]}).vp_write({w});' if p[2] == '' else
                         f' ({p[1]}).vp_write_{re.sub("[^A-Za-z0-9]", "_", p[2])}({w});') for p in pieces)
                    rep = '{' + b + ' vp_ok() }'
                    stats['write!'] = stats.get('write!', 0) + 1
                    text = text[:toks[i][2]] + rep + text[toks[c][3]:]
                break
        else:
            return text

# ---------------------------------------------------------------- function emission
class FnSpec:
    def __init__(self, args):
        self.file, self.name = args[0], args[1]
        self.opts = {}
        for a in args[2:]:
            k, _, v = a.partition('=')
            self.opts[k] = v
        self.contract = []
        self.splices = []      # (where, [lines])
        self.rewrites = []     # (regex, repl)

def apply_edits(text, edits):
    """edits: list of (start, end, replacement); stable for equal positions"""
    edits = sorted(enumerate(edits), key=lambda p: (p[1][0], p[1][1], p[0]))
    out, pos = [], 0
    for _, (s, e, r) in edits:
        if s < pos: raise Lost("overlapping splices")
        out.append(text[pos:s]); out.append(r); pos = e
    out.append(text[pos:])
    return ''.join(out)

def loops_of(toks, lo, hi):
    """loops in token range: list of (kw_idx, open_idx, close_idx), source order"""
    res = []
    for i in range(lo, hi):
        k, t, s, e = toks[i]
        if k == 'ident' and t in KEYWORDS_LOOP:
            if t == 'for' and toks[i+1][1] == '<': continue
            j = i + 1
            while toks[j][1] != '{':
                if toks[j][1] in ('(', '['): j = match_close(toks, j)
                j += 1
            res.append((i, j, match_close(toks, j)))
    return res

def drop_attrs(text):
    toks = tokenize(text)
    edits, i = [], 0
    while i < len(toks):
        if toks[i][1] == '#' and toks[i+1][1] in ('[', '!'):
            j = i + 1 if toks[i+1][1] == '[' else i + 2
            c = match_close(toks, j)
            edits.append((toks[i][2], toks[c][3], ''))
            i = c
        i += 1
    return apply_edits(text, edits)

def emit_fn(repo, fs, stats, canary):
    src = Source.get(os.path.join(repo, fs.file))
    i, o, c = src.find_fn(fs.name, fs.opts.get('impl'))
    sig = src.text[src.toks[i][2]:src.toks[o][2]]
    body = drop_attrs(src.text[src.toks[o][2]:src.toks[c][3]])
    stats.setdefault('functions', []).append(f"{fs.file}::{fs.name}")
    for (rx, rep) in fs.rewrites:
        if rx.startswith('sig:'):
            sig, n = re.subn(rx[4:], rep, sig, flags=re.S)
        else:
            body, n = re.subn(rx, rep, body, flags=re.S)
            if n == 0 and rx.startswith('(?#opt)') is False:
                raise Lost(f"rewrite anchor /{rx}/ not in {fs.name}")
        stats.setdefault('rewrites', []).append(f"{fs.name}: {rx} => {rep}")
    if 'orpat' in fs.opts:
        # `A {..} | B {..} => { body }` becomes one arm per alternative
        def split(m):
            return '\n'.join(f"{p.strip()} => {m.group(2)}" for p in m.group(1).split('|'))
        body, n = re.subn(r'((?:\w+::\w+ ?(?:\{[^{}]*\}|\([^()]*\))\s*\|\s*)+\w+::\w+ ?(?:\{[^{}]*\}|\([^()]*\)))\s*=>\s*(\{[^{}]*\})', split, re.sub(r'//[^\n]*', '', body), flags=re.S)
        if n == 0:
            raise Lost(f"no or-pattern in {fs.name}")
        stats.setdefault('rewrites', []).append(f"{fs.name}: or-patterns split into arms")
    body = rewrite_macros(body, stats)
    toks = tokenize(body)
    loops = loops_of(toks, 1, len(toks) - 1)
    n_spec = {int(w.split()[1]) for (w, _, _) in fs.splices if re.match(r'^(loop|before-loop|after-loop) \d', w)}
    if n_spec and max(n_spec) > len(loops):
        raise Lost(f"{fs.name}: template annotates loop {max(n_spec)}, source has {len(loops)}")
    edits = []
    annotated = set()
    for (where, lines, extra) in fs.splices:
        text = '\n'.join(lines)
        if where == 'body-start':
            edits.append((toks[0][3], toks[0][3], '\n' + text + '\n'))
        elif where == 'body-end':
            edits.append((toks[-1][2], toks[-1][2], '\n' + text + '\n'))
        elif where.startswith('loop '):
            p = where.split()
            k, lo, lc = loops[int(p[1]) - 1]
            if len(p) == 2:
                annotated.add(int(p[1]))
                if extra.get('iter'):
                    if toks[k][1] != 'for': raise Lost(f"{fs.name}: loop {p[1]} is not a for loop")
                    j = k
                    while toks[j][1] != 'in':
                        if toks[j][1] in ('(', '['): j = match_close(toks, j)
                        j += 1
                    edits.append((toks[j][3], toks[j][3], f" {extra['iter']}:"))
                edits.append((toks[lo][2], toks[lo][2], '\n' + text + '\n'))
                if canary:
                    edits.append((toks[lo][3], toks[lo][3], '\n proof { if vp_canary(' + str(stats.setdefault('canary_ids', []).append(1) or len(stats['canary_ids'])) + ') {\n assert(false); /*canary*/ \n} }\n'))
            elif p[2] == 'start':
                edits.append((toks[lo][3], toks[lo][3], '\n' + text + '\n'))
            else:
                edits.append((toks[lc][2], toks[lc][2], '\n' + text + '\n'))
        elif where.startswith('before-loop '):
            k, lo, lc = loops[int(where.split()[1]) - 1]
            kk = k
            if kk >= 2 and toks[kk-1][1] == ':' and toks[kk-2][0] == 'life': kk -= 2
            edits.append((toks[kk][2], toks[kk][2], '\n' + text + '\n'))
        elif where.startswith('after-loop '):
            k, lo, lc = loops[int(where.split()[1]) - 1]
            edits.append((toks[lc][3], toks[lc][3], '\n' + text + '\n'))
        elif where.startswith('before /') or where.startswith('after /'):
            rx = where.split('/', 1)[1].rsplit('/', 1)[0]
            ms = list(re.finditer(rx, body, re.S))
            if len(ms) != 1: raise Lost(f"{fs.name}: hint anchor /{rx}/ matches {len(ms)} times")
            p = ms[0].start() if where.startswith('before') else ms[0].end()
            edits.append((p, p, '\n' + text + '\n'))
        else:
            raise SystemExit(f"bad splice {where}")
    if len(annotated) != len(loops) and 'loops' not in fs.opts:
        raise Lost(f"{fs.name}: {len(loops)} loops in source, {len(annotated)} annotated")
    if 'strlits' in fs.opts:
        # make the characters of the string literals of the body known to the verifier
        lits = sorted({t[1] for t in toks if t[0] == 'str' and not t[1].startswith('b')})
        edits.append((toks[0][3], toks[0][3], '\n proof { ' + ' '.join(f'reveal_strlit({l});' for l in lits) + ' }\n'))
    if canary:
        edits.append((toks[0][3], toks[0][3], '\n proof { if vp_canary(' + str(stats.setdefault('canary_ids', []).append(1) or len(stats['canary_ids'])) + ') {\n assert(false); /*canary*/ \n} }\n'))
        stats['canaries'] = stats.get('canaries', 0) + 1 + len(annotated)
    body = apply_edits(body, edits)
    # signature
    sig = re.sub(r'\s+', ' ', drop_attrs(sig)).strip()
    where_cl = ''
    m = re.search(r'\bwhere\b(.*)$', sig)
    if m:
        where_cl = ' where ' + m.group(1).strip(); sig = sig[:m.start()].strip()
    if 'as' in fs.opts:
        sig = re.sub(r'^fn \w+', 'fn ' + fs.opts['as'], sig)
    if 'ret' in fs.opts:
        # the return arrow is the last one outside brackets and generic arguments
        st, arrow = tokenize(sig), None
        q = next(n for n, t in enumerate(st) if t[1] == '(')
        q = match_close(st, q) + 1
        if q < len(st) and st[q][1] == '->': arrow = st[q]
        if arrow is None: raise Lost(f"{fs.name} returns nothing")
        m = re.compile(r'->\s*(.*)$').match(sig, arrow[2])
        sig = sig[:m.start()] + f"-> ({fs.opts['ret']}: {m.group(1).strip()})"
    attrs = ''.join(a + '\n' for a in fs.opts.get('attr', '').split(';') if a)
    out = f"{attrs}{'' if 'nopub' in fs.opts else 'pub '}{sig}{where_cl}\n" + '\n'.join(fs.contract) + '\n' + body + '\n'
    for s in filter(None, fs.opts.get('sub', '').split(';')):
        a, b = s.split('=>')
        out = re.sub(a, b, out)
    return out

def emit_item(repo, kind, args):
    opts = dict(a.partition('=')[::2] for a in args[2 if kind != 'item' else 3:])
    if kind == 'item':
        file, k, name = args[:3]
    else:
        file, name = args[:2]; k = kind
    src = Source.get(os.path.join(repo, file))
    i, j = src.find_item(k, name)
    text = drop_attrs(src.text[src.toks[i][2]:src.toks[j][3]])
    text = re.sub(r'\bpub(\s*\((crate|super|self)\))?\s+', '', text)
    if k in ('const', 'static'):
        text = re.sub(r'&\s*(?=(str|\[))', "&'static ", text)
    if 'keep' in opts:
        keep = opts['keep'].split(',')
        toks = tokenize(text)
        b = next(n for n, t in enumerate(toks) if t[1] == '{')
        e = match_close(toks, b)
        fields, start, n, depth = [], toks[b][3], b + 1, 0
        while n < e:
            t = toks[n][1]
            if t in OPEN: n = match_close(toks, n)
            elif t == '<': depth += 1
            elif t == '>': depth -= 1
            elif t == ',' and depth == 0:
                fields.append(text[start:toks[n][2]].strip()); start = toks[n][3]
            n += 1
        last = text[start:toks[e][2]].strip()
        if last: fields.append(last)
        got = {f.split(':')[0].strip(): f for f in fields}
        miss = [f for f in keep if f not in got]
        if miss: raise Lost(f"struct {name}: fields {miss} are gone")
        text = text[:toks[b][3]] + ' ' + ', '.join('pub ' + got[f] for f in keep) + ' }'
    elif k == 'struct':
        text = re.sub(r'([{,]\s*)([a-z_]\w*\s*:)', r'\1pub \2', text)
    for s in filter(None, opts.get('sub', '').split(';')):
        a, b = s.split('=>')
        text = re.sub(a, b, text)
    der = f"#[derive({opts['derive']})]\n" if 'derive' in opts else ''
    return der + 'pub ' + text + '\n'

def split_args(s):
    # whitespace separated; `k="v with blanks"` allowed
    out = []
    for m in re.finditer(r'(\w+)="([^"]*)"|(\S+)', s):
        out.append(f"{m.group(1)}={m.group(2)}" if m.group(1) else m.group(3))
    return out

def build(repo, template_path, canary=False):
    """return (unit_text, stats); raises Lost when an anchor is missing"""
    stats = {}
    out, fs, cur = [], None, None
    def load(path):
        for l in open(path).read().split('\n'):
            m = re.match(r'^\s*//@include (\S+)', l)
            if m: yield from load(os.path.join(os.path.dirname(path), m.group(1)))
            else: yield l
    for line in load(template_path):
        m = re.match(r'^\s*//@(\S+)\s*(.*)$', line)
        if fs is not None:
            if m is None:
                if line.lstrip().startswith('|'):
                    cur.append(line.lstrip()[1:])
                elif line.strip() == '' or line.lstrip().startswith('//'): pass
                else: raise SystemExit(f"{template_path}: stray line in //@fn block: {line}")
                continue
            d, rest = m.group(1), m.group(2).strip()
            if d == 'end':
                out.append(emit_fn(repo, fs, stats, canary)); fs = None
            elif d == 'loop':
                p = rest.split(); cur = []
                fs.splices.append((f'loop {p[0]}', cur, dict(a.partition('=')[::2] for a in p[1:])))
            elif d == 'at':
                cur = []; fs.splices.append((rest, cur, {}))
            elif d in ('before', 'after'):
                cur = []; fs.splices.append((f'{d} {rest}', cur, {}))
            elif d == 'rewrite':
                a, b = rest.split(' => ', 1) if ' => ' in rest else (rest[:-3].rstrip(), '')
                fs.rewrites.append((a, b)); cur = []
            else: raise SystemExit(f"bad directive {d}")
            continue
        if m is None:
            out.append(line); continue
        d, rest = m.group(1), m.group(2)
        if d == 'fn':
            fs = FnSpec(split_args(rest)); cur = fs.contract
        elif d in ('const', 'type'):
            out.append(emit_item(repo, d, split_args(rest)))
        elif d == 'item':
            out.append(emit_item(repo, d, split_args(rest)))
        else: raise SystemExit(f"bad directive {d}")
    text = '\n'.join(out)
    if canary: text = re.sub(r'(?m)^verus! \{$', 'verus! {\\npub uninterp spec fn vp_canary(n: int) -> bool;', text, count=1)
    stats.pop('canary_ids', None)
    return text, stats

if __name__ == '__main__':
    t, s = build(sys.argv[1], sys.argv[2], len(sys.argv) > 3 and sys.argv[3] == 'canary')
    print(t); print(json.dumps(s, indent=1), file=sys.stderr)

#!/usr/bin/env python3
"""Stand-in for the ANTLR 4 tool: lexer grammar + parser grammar -> C++ lexer and parser.

usage: antlrgen.py Lexer.g4 Parser.g4 INCLUDE_DIR SOURCE_DIR

Supports the subset of ANTLR 4 that libqasm's grammars use (modes, skip/pushMode/popMode, fragments, non-greedy loops,
alternative labels, EBNF suffixes, direct left recursion with precedence by alternative order and <assoc=right>).
The emitted code follows ANTLR's own code templates (setState / sync / LL(1) switch / adaptivePredict), so that the first
syntax error has the position and text ANTLR gives it; see antlr4-runtime.h for the runtime.
"""
import re
import sys


# ---------------------------------------------------------------------------------------------------------------------
# .g4 front end
# ---------------------------------------------------------------------------------------------------------------------

TOKEN_RE = re.compile(r'''
    (?P<ws>\s+)
  | (?P<lc>//[^\n]*)
  | (?P<bc>/\*.*?\*/)
  | (?P<str>'(?:\\.|[^'\\\n])*')
  | (?P<set>\[(?:\\.|[^\]\\])*\])
  | (?P<arrow>->)
  | (?P<id>[A-Za-z_][A-Za-z0-9_]*)
  | (?P<punct>[{}:;|()<>=*+?~.#,])
''', re.X | re.S)


def tokenize(text):
    pos = 0
    out = []
    while pos < len(text):
        m = TOKEN_RE.match(text, pos)
        if not m:
            raise SystemExit(f'antlrgen: bad character {text[pos]!r} at offset {pos}')
        pos = m.end()
        if m.lastgroup not in ('ws', 'lc', 'bc'):
            out.append((m.lastgroup, m.group()))
    return out


def unescape(s):
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            i += 1
            c = s[i]
            if c == 'u':
                if s[i + 1] == '{':
                    j = s.index('}', i)
                    out.append(int(s[i + 2:j], 16))
                    i = j
                else:
                    out.append(int(s[i + 1:i + 5], 16))
                    i += 4
            else:
                out.append(ord({'n': '\n', 'r': '\r', 't': '\t', 'b': '\b', 'f': '\f'}.get(c, c)))
        else:
            out.append(ord(s[i]))
        i += 1
    return out


def parse_charset(s):
    """[..] -> list of (lo, hi)"""
    body = s[1:-1]
    # Split in items, keeping track of which '-' are range operators.
    items = []
    i = 0
    while i < len(body):
        if body[i] == '\\':
            j = i + 2
            if body[i + 1] == 'u':
                j = body.index('}', i) + 1 if body[i + 2] == '{' else i + 6
            items.append((unescape(body[i:j])[0], True))
            i = j
        else:
            items.append((ord(body[i]), False))
            i += 1
    out = []
    i = 0
    while i < len(items):
        c, _ = items[i]
        if i + 2 < len(items) and items[i + 1] == (ord('-'), False):
            out.append((c, items[i + 2][0]))
            i += 3
        else:
            out.append((c, c))
            i += 1
    return out


def normalise(ranges):
    ranges = sorted(ranges)
    out = []
    for lo, hi in ranges:
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return out


MAXCHAR = 0x10FFFF


def complement(ranges):
    out = []
    pos = 0
    for lo, hi in normalise(ranges):
        if lo > pos:
            out.append((pos, lo - 1))
        pos = hi + 1
    if pos <= MAXCHAR:
        out.append((pos, MAXCHAR))
    return out


class Toks:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def accept(self, text):
        if self.peek()[1] == text and self.peek()[0] != 'str':
            self.i += 1
            return True
        return False

    def expect(self, text):
        t = self.next()
        if t[1] != text:
            raise SystemExit(f'antlrgen: expected {text!r}, got {t[1]!r}')


def strip(x):
    return strip(x[2]) if x[0] == 'label' else x


# Expression AST: ('label', name, x, whether +=) ('alt', [seq..]) ('seq', [elem..]) ('opt'|'star'|'plus', x, greedy) ('str', [codes]) ('set', ranges)
# ('any',) ('ref', name)

def parse_alts(ts, stop):
    alts = [parse_seq(ts, stop)]
    while ts.accept('|'):
        alts.append(parse_seq(ts, stop))
    return ('alt', alts)


def parse_seq(ts, stop):
    elems = []
    opts = {}
    label = None
    if ts.peek()[1] == '<':
        ts.next()
        while not ts.accept('>'):
            k = ts.next()[1]
            ts.expect('=')
            opts[k] = ts.next()[1]
            ts.accept(',')
    while True:
        kind, text = ts.peek()
        if kind is None:
            raise SystemExit('antlrgen: unexpected end of grammar')
        if kind == 'arrow' or (kind == 'punct' and text in ('|', ')', ';')):
            break
        if kind == 'punct' and text == '#':
            ts.next()
            label = ts.next()[1]
            continue
        elems.append(parse_elem(ts))
    return ('seq', elems, opts, label)


def parse_elem(ts):
    if ts.peek()[0] == 'id' and ts.peek(1) == ('punct', '='):
        name = ts.next()[1]
        ts.next()
        return ('label', name, parse_elem(ts), False)
    if ts.peek()[0] == 'id' and ts.peek(1) == ('punct', '+') and ts.peek(2) == ('punct', '='):
        name = ts.next()[1]
        ts.next()
        ts.next()
        return ('label', name, parse_elem(ts), True)
    x = parse_atom(ts)
    if ts.peek()[1] in ('?', '*', '+') and ts.peek()[0] == 'punct':
        op = ts.next()[1]
        greedy = not ts.accept('?')
        return ({'?': 'opt', '*': 'star', '+': 'plus'}[op], x, greedy)
    return x


def parse_atom(ts):
    kind, text = ts.next()
    if kind == 'str':
        if ts.peek() == ('punct', '.') and ts.peek(1) == ('punct', '.') and ts.peek(2)[0] == 'str':
            ts.next()
            ts.next()
            return ('set', normalise([(unescape(text[1:-1])[0], unescape(ts.next()[1][1:-1])[0])]))
        return ('str', unescape(text[1:-1]))
    if kind == 'set':
        return ('set', normalise(parse_charset(text)))
    if kind == 'id':
        return ('ref', text)
    if text == '.':
        return ('any',)
    if text == '~':
        inner = parse_atom(ts)
        if inner[0] == 'set':
            return ('set', complement(inner[1]))
        if inner[0] == 'str' and len(inner[1]) == 1:
            return ('set', complement([(inner[1][0], inner[1][0])]))
        if inner[0] == 'alt' and all(len(s[1]) == 1 for s in inner[1]):
            ranges = []
            for s in inner[1]:
                x = s[1][0]
                if x[0] == 'set':
                    ranges += x[1]
                elif x[0] == 'str' and len(x[1]) == 1:
                    ranges.append((x[1][0], x[1][0]))
                else:
                    raise SystemExit('antlrgen: unsupported negation')
            return ('set', complement(normalise(ranges)))
        raise SystemExit('antlrgen: unsupported negation')
    if text == '(':
        a = parse_alts(ts, ')')
        ts.expect(')')
        return a
    raise SystemExit(f'antlrgen: unexpected {text!r}')


def parse_grammar(path):
    ts = Toks(tokenize(open(path).read()))
    kind = ts.next()[1]  # lexer | parser
    ts.expect('grammar')
    name = ts.next()[1]
    ts.expect(';')
    rules = []  # (name, fragment, mode, alts, commands)
    mode = 'DEFAULT_MODE'
    while ts.peek()[0] is not None:
        if ts.peek()[1] == 'options':
            ts.next()
            ts.expect('{')
            while not ts.accept('}'):
                ts.next()
            continue
        if ts.peek()[1] == 'mode' and ts.peek(1)[0] == 'id':
            ts.next()
            mode = ts.next()[1]
            ts.expect(';')
            continue
        fragment = False
        if ts.peek()[1] == 'fragment':
            ts.next()
            fragment = True
        rule = ts.next()[1]
        ts.expect(':')
        alts = parse_alts(ts, ';')
        commands = []
        if ts.accept('->'):
            while True:
                cmd = ts.next()[1]
                arg = None
                if ts.accept('('):
                    arg = ts.next()[1]
                    ts.expect(')')
                commands.append((cmd, arg))
                if not ts.accept(','):
                    break
        ts.expect(';')
        rules.append((rule, fragment, mode, alts, commands))
    return kind, name, rules


# ---------------------------------------------------------------------------------------------------------------------
# Lexer back end: one NFA with ordered epsilon transitions per mode
# ---------------------------------------------------------------------------------------------------------------------

class Nfa:
    def __init__(self):
        self.eps = []      # state -> ordered targets
        self.chars = []    # state -> (ranges, target) or None
        self.nongreedy = []
        self.accept = []   # state -> rule index or -1

    def new(self):
        self.eps.append([])
        self.chars.append(None)
        self.nongreedy.append(False)
        self.accept.append(-1)
        return len(self.eps) - 1


def build_nfa(nfa, rules, x, start, depth=0):
    """Adds x after state start, returns the end state."""
    if depth > 100:
        raise SystemExit('antlrgen: recursive lexer rules are not supported')
    kind = x[0]
    if kind == 'alt':
        if len(x[1]) == 1:
            return build_nfa(nfa, rules, x[1][0], start, depth)
        end = nfa.new()
        for alt in x[1]:
            s = nfa.new()
            nfa.eps[start].append(s)
            e = build_nfa(nfa, rules, alt, s, depth)
            nfa.eps[e].append(end)
        return end
    if kind == 'seq':
        cur = start
        for e in x[1]:
            nxt = nfa.new()
            nfa.eps[cur].append(nxt)
            cur = build_nfa(nfa, rules, e, nxt, depth)
        return cur
    if kind == 'str':
        cur = start
        for c in x[1]:
            nxt = nfa.new()
            nfa.chars[cur] = ([(c, c)], nxt)
            cur = nxt
        return cur
    if kind in ('set', 'any'):
        nxt = nfa.new()
        nfa.chars[start] = (x[1] if kind == 'set' else [(0, MAXCHAR)], nxt)
        return nxt
    if kind == 'ref':
        if x[1] == 'EOF':
            raise SystemExit('antlrgen: EOF in lexer rules is not supported')
        return build_nfa(nfa, rules, rules[x[1]], start, depth + 1)
    if kind == 'opt':
        end = nfa.new()
        d = nfa.new()
        nfa.eps[start].append(d)
        nfa.nongreedy[d] = not x[2]
        s = nfa.new()
        nfa.eps[d] += [s, end] if x[2] else [end, s]
        e = build_nfa(nfa, rules, x[1], s, depth)
        nfa.eps[e].append(end)
        return end
    if kind in ('star', 'plus'):
        end = nfa.new()
        d = nfa.new()
        nfa.nongreedy[d] = not x[2]
        s = nfa.new()
        if kind == 'star':
            nfa.eps[start].append(d)
        else:
            nfa.eps[start].append(s)
        nfa.eps[d] += [s, end] if x[2] else [end, s]
        e = build_nfa(nfa, rules, x[1], s, depth)
        nfa.eps[e].append(d)
        return end
    raise SystemExit(f'antlrgen: cannot handle {kind} in a lexer rule')


def cstr(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\r', '\\r') \
        .replace('\t', '\\t') + '"'


def lexer_vocabulary(rules):
    names = ['<INVALID>']
    literals = [None]
    for name, fragment, _mode, alts, _commands in rules:
        if fragment:
            continue
        names.append(name)
        lit = None
        if len(alts[1]) == 1 and len(alts[1][0][1]) == 1 and alts[1][0][1][0][0] == 'str':
            lit = "'" + ''.join(map(chr, alts[1][0][1][0][1])) + "'"
        literals.append(lit)
    return names, literals


def gen_lexer(name, rules, inc, src):
    names, literals = lexer_vocabulary(rules)
    modes = []
    for r in rules:
        if r[2] not in modes:
            modes.append(r[2])
    bodies = {r[0]: r[3] for r in rules}
    h = ['#pragma once', '#include "antlr4-runtime.h"', f'class {name} : public antlr4::Lexer {{', 'public:', '    enum {']
    h += [f'        {n} = {i},' for i, n in enumerate(names) if i]
    h += ['    };', '    enum {'] + [f'        {m} = {i},' for i, m in enumerate(modes) if i] + ['    };']
    h += [f'    explicit {name}(antlr4::CharStream* input);', '};', '']
    open(f'{inc}/{name}.h', 'w').write('\n'.join(h))

    c = [f'#include "libqasm/v3x/{name}.h"', 'namespace {', 'const antlr4::shim::LexerTables& tables() {',
         '    static const antlr4::shim::LexerTables t = [] {', '        antlr4::shim::LexerTables r;']
    types = {n: i for i, n in enumerate(names)}
    c.append('        r.names = {' + ', '.join(cstr(n) for n in names) + '};')
    for m in modes:
        nfa = Nfa()
        start = nfa.new()
        for r in rules:
            if r[2] != m or r[1]:
                continue
            s = nfa.new()
            nfa.eps[start].append(s)
            e = build_nfa(nfa, bodies, r[3], s)
            # A state of its own, so that two rules never share their accept state.
            acc = nfa.new()
            nfa.eps[e].append(acc)
            nfa.accept[acc] = types[r[0]]
        c.append('        {')
        c.append('            antlr4::shim::LexerMode m;')
        c.append('            m.eps = {' + ', '.join('{' + ','.join(map(str, e)) + '}' for e in nfa.eps) + '};')
        c.append('            m.chars = {' + ', '.join(
            '{{}, -1}' if ch is None else
            '{{' + ', '.join(f'{{{lo}u, {hi}u}}' for lo, hi in ch[0]) + f'}}, {ch[1]}}}' for ch in nfa.chars) + '};')
        c.append('            m.nongreedy = {' + ','.join('1' if x else '0' for x in nfa.nongreedy) + '};')
        c.append('            m.accept = {' + ','.join(map(str, nfa.accept)) + '};')
        c.append('            r.modes.push_back(std::move(m));')
        c.append('        }')
    for r in rules:
        for cmd, arg in r[4]:
            if r[1]:
                raise SystemExit('antlrgen: commands in fragments are not supported')
            code = {'skip': 'SKIP', 'popMode': 'POP', 'pushMode': 'PUSH', 'mode': 'MODE', 'more': None,
                    'type': None, 'channel': None}[cmd]
            if code is None:
                raise SystemExit(f'antlrgen: lexer command {cmd} is not supported')
            a = modes.index(arg) if arg is not None else 0
            c.append(f'        r.commands[{types[r[0]]}].push_back({{antlr4::shim::LexerCommand::{code}, {a}}});')
    c += ['        return r;', '    }();', '    return t;', '}', '}  // namespace',
          f'{name}::{name}(antlr4::CharStream* input) : antlr4::Lexer{{ input, tables() }} {{}}', '']
    open(f'{src}/{name}.cpp', 'w').write('\n'.join(c))
    return names, literals


# ---------------------------------------------------------------------------------------------------------------------
# Parser back end
# ---------------------------------------------------------------------------------------------------------------------

class Atn:
    def __init__(self):
        self.type = []
        self.rule = []
        self.trans = []  # list of ('eps', target) ('set', {types}, target) ('rule', rule, target, follow, prec)

    def new(self, typ, rule):
        self.type.append(typ)
        self.rule.append(rule)
        self.trans.append([])
        return len(self.type) - 1

    def eps(self, a, b):
        self.trans[a].append(('eps', b))


EPSILON = -2
EOF = -1


class ParserGen:
    def __init__(self, name, rules, names, literals):
        self.name = name
        self.rules = [(r[0], r[3]) for r in rules]
        self.rule_index = {r[0]: i for i, r in enumerate(self.rules)}
        self.names, self.literals = names, literals
        self.types = {n: i for i, n in enumerate(names) if i}
        self.types['EOF'] = EOF
        self.atn = Atn()
        self.start, self.stop = [], []
        for i, _ in enumerate(self.rules):
            self.start.append(self.atn.new('RULE_START', i))
            self.stop.append(self.atn.new('RULE_STOP', i))
        self.decisions = []  # state of each decision
        self.code = {}
        self.leftrec = {}

    # -- helpers on the grammar AST
    def is_token(self, x):
        return x[0] == 'ref' and x[1] in self.types

    def as_set(self, alts):
        """A block of single-token alternatives is a set."""
        if alts[0] != 'alt' or len(alts[1]) < 2:
            return None
        out = []
        for seq in alts[1]:
            if len(seq[1]) != 1 or not self.is_token(seq[1][0]) or seq[3] is not None or seq[1][0][1] == 'EOF':
                return None
            out.append(self.types[seq[1][0][1]])
        return out

    # -- ATN + IR; IR nodes carry the state numbers that the emitted code needs
    # ('match', state, type) ('set', state, [types]) ('call', state, rule, prec) ('seq', [ir])
    # ('choice', state, decision, [ir]) ('opt', state, decision, [ir]) ('star', entry, loopback, decision, [ir])
    # ('plus', blockstart, loopback, decision, [ir])
    def element(self, x, rule, cur, prec=None):
        """Adds x after ATN state cur; returns (IR, end state)."""
        atn = self.atn
        if x[0] == 'label':
            ir, end = self.element(x[2], rule, cur, prec)
            if ir[0] == 'seq' and len(ir[1]) == 1:
                ir = ir[1][0]
            if ir[0] not in ('match', 'set', 'call'):
                raise SystemExit(f'antlrgen: cannot handle the label {x[1]}')
            return ('label', x[1], ir, x[3]), end
        if x[0] == 'ref':
            end = atn.new('BASIC', rule)
            if x[1] in self.types:
                atn.trans[cur].append(('set', {self.types[x[1]]}, end))
                return ('match', cur, x[1]), end
            if x[1] not in self.rule_index:
                raise SystemExit(f'antlrgen: unknown rule {x[1]}')
            callee = self.rule_index[x[1]]
            atn.trans[cur].append(('rule', callee, self.start[callee], end, prec or 0))
            return ('call', cur, x[1], prec), end
        if x[0] == 'alt':
            s = self.as_set(x)
            if s is not None:
                end = atn.new('BASIC', rule)
                atn.trans[cur].append(('set', set(s), end))
                return ('set', cur, s), end
            if len(x[1]) == 1:
                return self.sequence(x[1][0][1], rule, cur)
            return self.block(x[1], rule, cur)
        if x[0] in ('opt', 'star', 'plus'):
            if not x[2]:
                raise SystemExit('antlrgen: non-greedy loops in parser rules are not supported')
            inner = x[1]
            alts = inner[1] if inner[0] == 'alt' and self.as_set(inner) is None else [('seq', [inner], {}, None)]
            if x[0] == 'opt':
                bs = atn.new('BLOCK_START', rule)
                be = atn.new('BLOCK_END', rule)
                atn.eps(cur, bs)
                irs = self.alternatives(alts, rule, bs, be)
                atn.eps(bs, be)
                self.decisions.append(bs)
                return ('opt', bs, len(self.decisions) - 1, irs), be
            if x[0] == 'star':
                entry = atn.new('STAR_LOOP_ENTRY', rule)
                bs = atn.new('STAR_BLOCK_START', rule)
                be = atn.new('BLOCK_END', rule)
                back = atn.new('STAR_LOOP_BACK', rule)
                end = atn.new('LOOP_END', rule)
                atn.eps(cur, entry)
                atn.eps(entry, bs)
                atn.eps(entry, end)
                irs = self.alternatives(alts, rule, bs, be)
                atn.eps(be, back)
                atn.eps(back, entry)
                d_block = None
                if len(alts) > 1:
                    self.decisions.append(bs)
                    d_block = len(self.decisions) - 1
                self.decisions.append(entry)
                return ('star', entry, back, len(self.decisions) - 1, irs, bs, d_block), end
            bs = atn.new('PLUS_BLOCK_START', rule)
            be = atn.new('BLOCK_END', rule)
            back = atn.new('PLUS_LOOP_BACK', rule)
            end = atn.new('LOOP_END', rule)
            atn.eps(cur, bs)
            irs = self.alternatives(alts, rule, bs, be)
            atn.eps(be, back)
            atn.eps(back, bs)
            atn.eps(back, end)
            d_block = None
            if len(alts) > 1:
                self.decisions.append(bs)
                d_block = len(self.decisions) - 1
            self.decisions.append(back)
            return ('plus', bs, back, len(self.decisions) - 1, irs, d_block), end
        raise SystemExit(f'antlrgen: cannot handle {x[0]} in a parser rule')

    def alternatives(self, alts, rule, bs, be):
        irs = []
        for seq in alts:
            s = self.atn.new('BASIC', rule)
            self.atn.eps(bs, s)
            ir, e = self.sequence(seq[1], rule, s)
            self.atn.eps(e, be)
            irs.append(ir)
        return irs

    def block(self, alts, rule, cur):
        bs = self.atn.new('BLOCK_START', rule)
        be = self.atn.new('BLOCK_END', rule)
        self.atn.eps(cur, bs)
        irs = self.alternatives(alts, rule, bs, be)
        self.decisions.append(bs)
        return ('choice', bs, len(self.decisions) - 1, irs), be

    def sequence(self, elems, rule, cur, precs=None):
        out = []
        for i, e in enumerate(elems):
            # Consecutive elements get a state of their own, joined by an epsilon.
            ir, end = self.element(e, rule, cur, (precs or {}).get(i))
            out.append(ir)
            cur = self.atn.new('BASIC', rule)
            self.atn.eps(end, cur)
        return ('seq', out), cur

    def build(self):
        for i, (name, alts) in enumerate(self.rules):
            seqs = alts[1]
            rec = [s for s in seqs if s[1] and strip(s[1][0]) == ('ref', name)]
            if rec:
                self.build_leftrec(i, name, seqs)
                continue
            s = self.atn.new('BASIC', i)
            self.atn.eps(self.start[i], s)
            st = self.as_set(alts)
            if st is not None:
                ir, e = self.element(alts, i, s)
            elif len(seqs) == 1:
                ir, e = self.sequence(seqs[0][1], i, s)
            else:
                ir, e = self.block(seqs, i, s)
            self.atn.eps(e, self.stop[i])
            self.code[name] = ir
        # Global follow links.
        self.follow = [[] for _ in self.rules]
        for trs in self.atn.trans:
            for t in trs:
                if t[0] == 'rule':
                    self.follow[t[1]].append(t[3])

    def build_leftrec(self, i, name, seqs):
        atn = self.atn
        n = len(seqs)
        primary, ops = [], []
        for k, seq in enumerate(seqs):
            prec = n - k  # numAlts - alt + 1, alt = k + 1
            right = seq[2].get('assoc') == 'right'
            elems = seq[1]
            starts = strip(elems[0]) == ('ref', name)
            ends = len(elems) > 1 and strip(elems[-1]) == ('ref', name)
            if starts:
                nextp = prec if right else prec + 1
                precs = {len(elems) - 2: nextp} if ends else {}
                ops.append((seq, prec, elems[1:], precs))
            else:
                precs = {len(elems) - 1: prec} if ends else {}
                primary.append((seq, elems, precs))
        s = atn.new('BASIC', i)
        atn.eps(self.start[i], s)
        bs = atn.new('BLOCK_START', i)
        be = atn.new('BLOCK_END', i)
        atn.eps(s, bs)
        prim_ir = []
        for seq, elems, precs in primary:
            a = atn.new('BASIC', i)
            atn.eps(bs, a)
            ir, e = self.sequence(elems, i, a, precs)
            atn.eps(e, be)
            prim_ir.append((seq, ir))
        d_prim = None
        if len(primary) > 1:
            self.decisions.append(bs)
            d_prim = len(self.decisions) - 1
        entry = atn.new('STAR_LOOP_ENTRY', i)
        sbs = atn.new('STAR_BLOCK_START', i)
        sbe = atn.new('BLOCK_END', i)
        back = atn.new('STAR_LOOP_BACK', i)
        end = atn.new('LOOP_END', i)
        atn.eps(be, entry)
        atn.eps(entry, sbs)
        atn.eps(entry, end)
        op_ir = []
        for seq, prec, elems, precs in ops:
            a = atn.new('BASIC', i)
            atn.eps(sbs, a)
            b = atn.new('BASIC', i)
            atn.eps(a, b)  # the precedence predicate
            ir, e = self.sequence(elems, i, b, precs)
            atn.eps(e, sbe)
            op_ir.append((seq, prec, ir, a))
        atn.eps(sbe, back)
        atn.eps(back, entry)
        atn.eps(end, self.stop[i])
        self.leftrec[name] = (bs, d_prim, prim_ir, entry, sbs, op_ir)
        self.code[name] = None

    # -- LL(1) analysis, as ANTLR's LL1Analyzer.getDecisionLookahead (no predicates are crossed here except precedence
    # predicates, which make the lookahead unusable)
    def look(self, s, stack, seen, out):
        key = (s, stack)
        if key in seen:
            return
        seen.add(key)
        atn = self.atn
        if atn.type[s] == 'RULE_STOP':
            if stack:
                self.look(stack[0], stack[1:], seen, out)
            else:
                for f in self.follow[atn.rule[s]]:
                    self.look(f, (), seen, out)
            return
        for t in atn.trans[s]:
            if t[0] == 'eps':
                self.look(t[1], stack, seen, out)
            elif t[0] == 'set':
                out |= t[1]
            else:
                if len(stack) > 50 or (t[3],) == stack[:1]:
                    continue
                self.look(t[2], (t[3],) + stack, seen, out)

    def decision_look(self, state):
        ret = []
        for t in self.atn.trans[state]:
            out = set()
            self.look(t[1], (), set(), out)
            ret.append(out)
        return ret

    @staticmethod
    def disjoint(sets):
        total = set()
        for s in sets:
            if not s or s & total:
                return False
            total |= s
        return True

    # -- labels and accessors
    def contexts(self):
        """[(class name, base rule or None, rule, [seqs])]"""
        out = []
        for name, alts in self.rules:
            labels = []
            for seq in alts[1]:
                if seq[3] and seq[3] not in labels:
                    labels.append(seq[3])
            out.append((name, None, name, [] if labels else alts[1]))
            for lab in labels:
                out.append((lab, name, name, [s for s in alts[1] if s[3] == lab]))
        return out

    def freq(self, x):
        """name -> (0..2), 2 meaning more than one"""
        def add(a, b):
            r = dict(a)
            for k, v in b.items():
                r[k] = min(2, r.get(k, 0) + v)
            return r

        def mx(a, b):
            r = dict(a)
            for k, v in b.items():
                r[k] = max(r.get(k, 0), v)
            return r
        if x[0] == 'label':
            return self.freq(x[2])
        if x[0] == 'ref':
            return {x[1]: 1}
        if x[0] == 'seq':
            r = {}
            for e in x[1]:
                r = add(r, self.freq(e))
            return r
        if x[0] == 'alt':
            r = {}
            for s in x[1]:
                r = mx(r, self.freq(s))
            return r
        if x[0] == 'opt':
            return self.freq(x[1])
        return {k: 2 for k in self.freq(x[1])}

    def labels(self, x, out):
        """Fields for the labels in x: name -> type"""
        if x[0] == 'label':
            y = strip(x)
            typ = 'antlr4::Token' if y[0] != 'ref' or y[1] in self.types else f'{self.title(y[1])}Context'
            out[x[1]] = f'std::vector<{typ}*> {x[1]};' if x[3] else f'{typ}* {x[1]} = nullptr;'
            x = x[2]
        if x[0] in ('seq', 'alt'):
            for y in x[1]:
                self.labels(y, out)
        elif x[0] in ('opt', 'star', 'plus'):
            self.labels(x[1], out)
        return out

    @staticmethod
    def title(s):
        return s[:1].upper() + s[1:]

    def emit(self, inc, src):
        P = self.name
        T = self.title
        ctxs = self.contexts()
        visits = [c for c in ctxs if c[1] is not None or c[3]]
        # visitor
        v = ['#pragma once', '#include "antlr4-runtime.h"', f'#include "{P}.h"',
             f'class {P}Visitor : public antlr4::tree::AbstractParseTreeVisitor {{', 'public:']
        v += [f'    virtual std::any visit{T(c[0])}({P}::{T(c[0])}Context* context) = 0;' for c in visits]
        v += ['};', '']
        open(f'{inc}/{P}Visitor.h', 'w').write('\n'.join(v))
        v = ['#pragma once', '#include "antlr4-runtime.h"', f'#include "{P}Visitor.h"',
             f'class {P}BaseVisitor : public {P}Visitor {{', 'public:']
        v += [f'    std::any visit{T(c[0])}({P}::{T(c[0])}Context* context) override {{ return visitChildren(context); }}'
              for c in visits]
        v += ['};', '']
        open(f'{inc}/{P}BaseVisitor.h', 'w').write('\n'.join(v))

        # header
        h = ['#pragma once', '#include "antlr4-runtime.h"', f'class {P} : public antlr4::Parser {{', 'public:', '    enum {']
        h += [f'        {n} = {i},' for i, n in enumerate(self.names) if i]
        h += ['    };', '    enum {'] + [f'        Rule{T(r[0])} = {i},' for i, r in enumerate(self.rules)] + ['    };']
        h.append(f'    explicit {P}(antlr4::TokenStream* input);')
        for c in ctxs:
            h.append(f'    class {T(c[0])}Context;')
        for cname, base, rule, seqs in ctxs:
            b = f'{T(base)}Context' if base else 'antlr4::ParserRuleContext'
            h.append(f'    class {T(cname)}Context : public {b} {{')
            h.append('    public:')
            if base:
                h.append(f'        explicit {T(cname)}Context({T(base)}Context* context) {{ copyFrom(context); }}')
            else:
                h.append(f'        {T(cname)}Context() = default;')
                h.append(f'        {T(cname)}Context(antlr4::ParserRuleContext* parent, size_t invokingState) : '
                         f'antlr4::ParserRuleContext(parent, invokingState) {{}}')
                h.append(f'        size_t getRuleIndex() const override {{ return Rule{T(rule)}; }}')
            fields = {}
            for s in seqs:
                self.labels(s, fields)
            h += [f'        {f}' for f in fields.values()]
            counts = {}
            for s in seqs:
                for k, n in self.freq(s).items():
                    counts[k] = max(counts.get(k, 0), n)
            for k, n in counts.items():
                if k in self.types:
                    if n == 1:
                        h.append(f'        antlr4::tree::TerminalNode* {k}() {{ return getToken({self.types[k]}, 0); }}')
                    else:
                        h.append(f'        std::vector<antlr4::tree::TerminalNode*> {k}() '
                                 f'{{ return getTokens({self.types[k]}); }}')
                        h.append(f'        antlr4::tree::TerminalNode* {k}(size_t i) '
                                 f'{{ return getToken({self.types[k]}, i); }}')
                else:
                    cc = f'{T(k)}Context'
                    if n == 1:
                        h.append(f'        {cc}* {k}();')
                    else:
                        h.append(f'        std::vector<{cc}*> {k}();')
                        h.append(f'        {cc}* {k}(size_t i);')
            if base or seqs:
                h.append('        std::any accept(antlr4::tree::ParseTreeVisitor* visitor) override;')
            h.append('    };')
        for name, _ in self.rules:
            arg = 'int precedence' if name in self.leftrec else ''
            h.append(f'    {T(name)}Context* {name}({arg});')
            if name in self.leftrec:
                h.append(f'    {T(name)}Context* {name}() {{ return {name}(0); }}')
        h += ['};', '']
        open(f'{inc}/{P}.h', 'w').write('\n'.join(h))

        # source
        c = [f'#include "libqasm/v3x/{P}.h"', f'#include "libqasm/v3x/{P}Visitor.h"', 'namespace {',
             'const antlr4::shim::ParserTables& tables() {',
             '    static const antlr4::shim::ParserTables t = [] {', '        antlr4::shim::ParserTables r;']
        disp = []
        for i, n in enumerate(self.names):
            disp.append(cstr(self.literals[i] if self.literals[i] else n))
        c.append('        r.display = {' + ', '.join(disp) + '};')
        c.append(f'        r.states.resize({len(self.atn.type)});')
        for i, typ in enumerate(self.atn.type):
            trs = []
            for t in self.atn.trans[i]:
                if t[0] == 'eps':
                    trs.append(f'antlr4::shim::eps({t[1]})')
                elif t[0] == 'set':
                    trs.append('antlr4::shim::set({' + ','.join(map(str, sorted(t[1]))) + f'}}, {t[2]})')
                else:
                    trs.append(f'antlr4::shim::rule({t[1]}, {t[2]}, {t[3]})')
            c.append(f'        r.states[{i}] = {{antlr4::shim::{typ}, {self.atn.rule[i]}, {{{", ".join(trs)}}}}};')
        c.append('        r.follow = {' + ', '.join('{' + ','.join(map(str, f)) + '}' for f in self.follow) + '};')
        c.append('        r.start = {' + ','.join(map(str, self.start)) + '};')
        c.append('        r.stop = {' + ','.join(map(str, self.stop)) + '};')
        c.append('        r.decisions = {' + ','.join(map(str, self.decisions)) + '};')
        c += ['        return r;', '    }();', '    return t;', '}', '}  // namespace',
              f'{P}::{P}(antlr4::TokenStream* input) : antlr4::Parser{{ input, tables() }} {{}}']
        for cname, base, rule, seqs in ctxs:
            counts = {}
            for s in seqs:
                for k, n in self.freq(s).items():
                    counts[k] = max(counts.get(k, 0), n)
            C = f'{P}::{T(cname)}Context'
            for k, n in counts.items():
                if k in self.types:
                    continue
                cc = f'{P}::{T(k)}Context'
                if n == 1:
                    c.append(f'{cc}* {C}::{k}() {{ return getRuleContext<{cc}>(0); }}')
                else:
                    c.append(f'std::vector<{cc}*> {C}::{k}() {{ return getRuleContexts<{cc}>(); }}')
                    c.append(f'{cc}* {C}::{k}(size_t i) {{ return getRuleContext<{cc}>(i); }}')
            if base or seqs:
                c.append(f'std::any {C}::accept(antlr4::tree::ParseTreeVisitor* visitor) {{\n'
                         f'    if (auto v = dynamic_cast<{P}Visitor*>(visitor)) return v->visit{T(cname)}(this);\n'
                         f'    return visitor->visitChildren(this);\n}}')
        for name, alts in self.rules:
            c += self.emit_rule(name, alts)
        c.append('')
        open(f'{src}/{P}.cpp', 'w').write('\n'.join(c))

    def tset(self, types):
        return '(' + ' || '.join(f'la == {t if t != EOF else "antlr4::Token::EOF"}' for t in sorted(types)) + ')'

    def emit_ir(self, ir, ind, out):
        p = '    ' * ind
        k = ir[0]
        if k == 'seq':
            for x in ir[1]:
                self.emit_ir(x, ind, out)
        elif k == 'label':
            field = f'static_cast<{self.ctx}*>(_localctx)->{ir[1]}'
            assign = (lambda v: f'{field}.push_back({v});') if ir[3] else (lambda v: f'{field} = {v};')
            if ir[2][0] == 'call':
                arg = '' if ir[2][2] not in self.leftrec else str(ir[2][3] or 0)
                out.append(f'{p}setState({ir[2][1]}); {assign(f"{ir[2][2]}({arg})")}')
            else:
                if ir[2][0] == 'match' and ir[2][2] == 'EOF':
                    raise SystemExit('antlrgen: cannot handle a label of EOF')
                out.append(f'{p}{assign("getTokenStream()->LT(1)")}')
                self.emit_ir(ir[2], ind, out)
        elif k == 'match':
            t = 'antlr4::Token::EOF' if ir[2] == 'EOF' else ir[2]
            out.append(f'{p}setState({ir[1]}); match({t});')
        elif k == 'set':
            out.append(f'{p}setState({ir[1]}); {{ size_t la = LA(1); if (!{self.tset(ir[2])}) recoverInline(); '
                       f'else consume(); }}')
        elif k == 'call':
            arg = '' if ir[2] not in self.leftrec else str(ir[3] or 0)
            out.append(f'{p}setState({ir[1]}); {ir[2]}({arg});')
        elif k == 'choice':
            self.emit_choice(ir[1], ir[2], [(None, x) for x in ir[3]], ind, out)
        elif k == 'opt':
            state, dec, alts = ir[1], ir[2], ir[3]
            looks = self.decision_look(state)
            out.append(f'{p}setState({state}); sync();')
            if self.disjoint(looks):
                out.append(f'{p}{{ size_t la = LA(1);')
                for i, x in enumerate(alts):
                    out.append(f'{p}{"else " if i else ""}if {self.tset(looks[i])} {{')
                    self.emit_ir(x, ind + 1, out)
                    out.append(f'{p}}}')
                out.append(f'{p}}}')
            else:
                out.append(f'{p}switch (adaptivePredict({dec})) {{')
                for i, x in enumerate(alts):
                    out.append(f'{p}case {i + 1}: {{')
                    self.emit_ir(x, ind + 1, out)
                    out.append(f'{p}break; }}')
                out.append(f'{p}default: break;\n{p}}}')
        elif k == 'star':
            _, entry, back, dec, alts, bs, d_block = ir
            looks = self.decision_look(entry)
            ll1 = self.disjoint(looks)
            cond = f'[&] {{ size_t la = LA(1); return {self.tset(looks[0])}; }}()' if ll1 else \
                f'adaptivePredict({dec}) == 1'
            out.append(f'{p}setState({entry}); sync();')
            out.append(f'{p}while ({cond}) {{')
            if len(alts) == 1:
                self.emit_ir(alts[0], ind + 1, out)
            else:
                self.emit_choice(bs, d_block, [(None, x) for x in alts], ind + 1, out)
            out.append(f'{p}    setState({back}); sync();')
            out.append(f'{p}}}')
        elif k == 'plus':
            _, bs, back, dec, alts, d_block = ir
            looks = self.decision_look(back)
            ll1 = self.disjoint(looks)
            cond = f'[&] {{ size_t la = LA(1); return {self.tset(looks[0])}; }}()' if ll1 else \
                f'adaptivePredict({dec}) == 1'
            out.append(f'{p}setState({bs}); sync();')
            out.append(f'{p}do {{')
            if len(alts) == 1:
                self.emit_ir(alts[0], ind + 1, out)
            else:
                self.emit_choice(bs, d_block, [(None, x) for x in alts], ind + 1, out)
            out.append(f'{p}    setState({back}); sync();')
            out.append(f'{p}}} while ({cond});')
        else:
            raise SystemExit(k)

    def emit_choice(self, state, dec, alts, ind, out, classes=None):
        """alts: [(code line to emit first or None, ir)]; classes: of the context of each"""
        p = '    ' * ind
        looks = self.decision_look(state)
        out.append(f'{p}setState({state}); sync();')
        if self.disjoint(looks):
            out.append(f'{p}{{ size_t la = LA(1);')
            for i, (first, x) in enumerate(alts):
                out.append(f'{p}{"else " if i else ""}if {self.tset(looks[i])} {{')
                if classes:
                    self.ctx = classes[i]
                if first:
                    out.append(f'{p}    {first}')
                self.emit_ir(x, ind + 1, out)
                out.append(f'{p}}}')
            out.append(f'{p}else noViableAlt();')
            out.append(f'{p}}}')
        else:
            out.append(f'{p}switch (adaptivePredict({dec})) {{')
            for i, (first, x) in enumerate(alts):
                out.append(f'{p}case {i + 1}: {{')
                if classes:
                    self.ctx = classes[i]
                if first:
                    out.append(f'{p}    {first}')
                self.emit_ir(x, ind + 1, out)
                out.append(f'{p}break; }}')
            out.append(f'{p}default: noViableAlt();\n{p}}}')

    def emit_rule(self, name, alts):
        T = self.title
        C = f'{T(name)}Context'
        P = self.name
        out = []
        if name not in self.leftrec:
            out.append(f'{P}::{C}* {P}::{name}() {{')
            out.append(f'    {C}* _localctx = createInstance<{C}>(_ctx, getState());')
            out.append(f'    enterRule(_localctx, {self.start[self.rule_index[name]]});')
            seqs = alts[1]
            labelled = any(s[3] for s in seqs)

            self.ctx = C

            def relabel(seq):
                if not seq[3]:
                    return None
                return f'_localctx = replaceContext<{T(seq[3])}Context>(_localctx);'
            ir = self.code[name]
            if labelled and len(seqs) == 1:
                out.append('    ' + relabel(seqs[0]))
                self.ctx = f'{T(seqs[0][3])}Context'
                self.emit_ir(ir, 1, out)
            elif labelled:
                self.emit_choice(ir[1], ir[2], [(relabel(s), x) for s, x in zip(seqs, ir[3])], 1, out,
                                 [f'{T(s[3])}Context' if s[3] else C for s in seqs])
            else:
                self.emit_ir(ir, 1, out)
            out.append('    exitRule();')
            out.append('    return _localctx;\n}')
            return out
        bs, d_prim, prim, entry, sbs, ops = self.leftrec[name]
        out.append(f'{P}::{C}* {P}::{name}(int precedence) {{')
        out.append('    antlr4::ParserRuleContext* parentContext = _ctx;')
        out.append('    size_t parentState = getState();')
        out.append(f'    {C}* _localctx = createInstance<{C}>(_ctx, parentState);')
        out.append(f'    enterRecursionRule(_localctx, {self.start[self.rule_index[name]]}, precedence);')

        def rl(seq):
            if not seq[3]:
                return None
            return f'_localctx = replaceContext<{T(seq[3])}Context>(_localctx);'
        classes = [f'{T(s[3])}Context' if s[3] else C for s, _ in prim]
        self.ctx = classes[0]
        if len(prim) > 1:
            self.emit_choice(bs, d_prim, [(rl(s), ir) for s, ir in prim], 1, out, classes)
        else:
            if rl(prim[0][0]):
                out.append('    ' + rl(prim[0][0]))
            self.emit_ir(prim[0][1], 1, out)
        out.append('    stopHere();')
        out.append(f'    setState({entry}); sync();')
        out.append('    for (;;) {')
        out.append('        size_t la = LA(1);')
        first = True
        for seq, prec, ir, a in ops:
            look = set()
            self.look(a, (), set(), look)
            out.append(f'        {"" if first else "else "}if (precpred({prec}) && {self.tset(look)}) {{')
            first = False
            if seq[3]:
                out.append(f'            _localctx = createInstance<{T(seq[3])}Context>('
                           f'createInstance<{C}>(parentContext, parentState));')
            else:
                out.append(f'            _localctx = createInstance<{C}>(parentContext, parentState);')
            self.ctx = f'{T(seq[3])}Context' if seq[3] else C
            if seq[1][0][0] == 'label':
                left = f'static_cast<{self.ctx}*>(_localctx)->{seq[1][0][1]}'
                v = f'static_cast<{C}*>(_ctx)'
                out.append(f'            {left}.push_back({v});' if seq[1][0][3] else f'            {left} = {v};')
            out.append('            pushNewRecursionContext(_localctx);')
            self.emit_ir(ir, 3, out)
            out.append('        }')
        out.append('        else break;')
        out.append('        stopHere();')
        out.append(f'        setState({entry}); sync();')
        out.append('    }')
        out.append('    unrollRecursionContexts(parentContext);')
        out.append('    return _localctx;\n}')
        return out


def main():
    lexer_g4, parser_g4, inc, src = sys.argv[1:5]
    kind, lname, lrules = parse_grammar(lexer_g4)
    if kind != 'lexer':
        raise SystemExit('antlrgen: first grammar is not a lexer grammar')
    names, literals = gen_lexer(lname, lrules, inc, src)
    kind, pname, prules = parse_grammar(parser_g4)
    if kind != 'parser':
        raise SystemExit('antlrgen: second grammar is not a parser grammar')
    g = ParserGen(pname, prules, names, literals)
    g.build()
    g.emit(inc, src)


if __name__ == '__main__':
    main()

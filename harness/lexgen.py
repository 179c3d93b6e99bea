#!/usr/bin/env python3
"""C13: random lexer specifications, run through the real reflex generator, compiled (with sanitizers) and executed on
random inputs; the printed actions are compared with an interpreter of the specification written from the manual.
Each specification is generated as a table, a full and a fast scanner, and sometimes as a Flex-compatible one."""
import argparse, hashlib, json, os, random, re, struct, subprocess, sys, time

VP_REFLEX, VP_LIB = os.environ.get('VP_REFLEX'), os.environ.get('VP_LIB')
CXX = os.environ.get('VP_CXX', '').split()

# ---------------------------------------------------------------- regular expressions
# nodes: ('s',text) ('c',neg,set) ('.',) ('&',[..]) ('|',[..]) ('r',n,lo,hi) ('i',n) ('d',name,n) ('b',) word boundary
ALPHA = 'abcdxAB01_ -+/".*\n\n  ab'


def other(ch):
    return ch.swapcase() if ch.isascii() and ch.isalpha() else ch


class Sem:
    """match ends of a node at a position, on a sequence of characters"""
    def __init__(self, text, dotall, icase):
        self.t, self.n, self.dotall, self.icase = text, len(text), dotall, icase
        self.memo = {}

    def ends(self, node, i, ic):
        k = (id(node), i, ic)
        v = self.memo.get(k)
        if v is None:
            v = self.memo[k] = frozenset(self._ends(node, i, ic))
        return v

    def _ends(self, x, i, ic):
        t, n = self.t, self.n
        op = x[0]
        if op == 's':
            s = x[1]
            if i + len(s) > n: return ()
            for a, b in zip(s, t[i:i + len(s)]):
                if a != b and not (ic and other(a) == b): return ()
            return (i + len(s),)
        if op == 'c':
            if i >= n: return ()
            c = t[i]
            m = c in x[2] or (ic and other(c) in x[2])
            return (i + 1,) if m != x[1] else ()
        if op == '.':
            return (i + 1,) if i < n and (self.dotall or t[i] != '\n') else ()
        if op == '&':
            cur = {i}
            for y in x[1]:
                nxt = set()
                for j in cur: nxt |= self.ends(y, j, ic)
                cur = nxt
                if not cur: break
            return cur
        if op == '|':
            r = set()
            for y in x[1]: r |= self.ends(y, i, ic)
            return r
        if op == 'r':
            _, y, lo, hi = x
            res = set()
            cur, k, seen = {i}, 0, set()
            while cur:
                if k >= lo: res |= cur
                if hi is not None and k >= hi: break
                nxt = set()
                for j in cur: nxt |= self.ends(y, j, ic)
                k += 1
                if hi is None and k > lo:
                    nxt -= seen
                    seen |= nxt
                cur = nxt
            return res
        if op == 'i': return self.ends(x[1], i, True)
        if op == 'd': return self.ends(x[2], i, ic)
        raise AssertionError(op)


def nullable(x):
    op = x[0]
    if op == 's': return not x[1]
    if op in 'c.': return False
    if op == '&': return all(nullable(y) for y in x[1])
    if op == '|': return any(nullable(y) for y in x[1])
    if op == 'r': return x[2] == 0 or nullable(x[1])
    if op == 'i': return nullable(x[1])
    return nullable(x[2])


def sample(r, x, alpha):
    op = x[0]
    if op == 's': return ''.join(c if r.random() < .9 else other(c) for c in x[1])
    if op == 'c':
        if x[1]:
            for _ in range(6):
                c = r.choice(alpha)
                if c not in x[2]: return c
            return 'a'
        return r.choice(sorted(x[2])) if x[2] else ''
    if op == '.': return r.choice(alpha.replace('\n', 'a'))
    if op == '&': return ''.join(sample(r, y, alpha) for y in x[1])
    if op == '|': return sample(r, r.choice(x[1]), alpha)
    if op == 'r':
        k = x[2] + (r.choice([0, 0, 1, 2, 3]) if x[3] is None else r.randint(0, min(3, x[3] - x[2])))
        return ''.join(sample(r, x[1], alpha) for _ in range(k))
    return sample(r, x[-1], alpha)


META = set('\\"/.*+?()[]{}|^$<> -')


def uses(x, c):
    """true if a character can be part of a match: a trailing context that overlaps its pattern is ambiguous"""
    op = x[0]
    if op == 's': return c in x[1] or other(c) in x[1]
    if op == 'c': return x[1] or c in x[2] or other(c) in x[2]
    if op == '.': return c != '\n'
    if op in '&|': return any(uses(y, c) for y in x[1])
    if op == 'd': return uses(x[2], c)
    return uses(x[1], c)


class Gen:
    def __init__(self, r, uni, free, flex, icase):
        self.ic = self.ic0 = 1 if icase else 0
        self.r, self.uni, self.free, self.flex = r, uni, free, flex
        self.alpha = ALPHA + ('éλ€😀é' if uni else '')
        self.defs = []      # (name, text, node)
        self.cdefs = []     # names of definitions that are character classes

    def ch(self, c):
        if c == '\n': return '\\n'
        if c == ' ': return self.r.choice(['\\x20', '" "', '[ ]'])
        if c in META: return self.r.choice(['\\' + c, '"%s"' % (c if c not in '"\\' else '\\' + c)])
        return c

    def lit(self):
        r = self.r
        s = ''.join(r.choice(self.alpha.replace('\n', '')) for _ in range(r.choice([1, 1, 2, 2, 3, 4])))
        if r.random() < .35:
            return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"', ('s', s)
        return ''.join(self.ch(c) for c in s), ('s', s)

    def cset(self, depth=0):
        """a bracket list: text without the brackets, negation, set"""
        r = self.r
        s, items = set(), []
        for _ in range(r.randint(1, 3)):
            k = r.randint(0, 9)
            if k < 4:
                c = r.choice(self.alpha)
                s.add(c)
                items.append('\\n' if c == '\n' else '\\' + c if c in '-"^[]\\/&|{}+.*' else c)
            elif k < 7:
                a, b = r.choice(['ac', 'bd', 'ad', 'AB', '01', 'xz'])
                s |= {chr(k) for k in range(ord(a), ord(b) + 1)}
                items.append('%s-%s' % (a, b))
            elif k == 7:
                n, v = r.choice([('[:digit:]', '0123456789'), ('[:lower:]', 'abcdefghijklmnopqrstuvwxyz'), ('[:xdigit:]', '0123456789abcdefABCDEF')])
                s |= set(v)
                items.append(n)
            elif k == 8:
                s |= set('0123456789')
                items.append('\\d')
            elif self.uni:
                c = r.choice('éλ€😀')
                s.add(c)
                items.append(c)
            else:
                s |= set(' \t\n\r\f\v')
                items.append('\\s')
        neg = depth == 0 and r.random() < .25
        txt = ('^' if neg else '') + ''.join(items)
        if not neg and depth == 0 and not self.ic and r.random() < .25:   # set operations before or after folding differ
            op = r.choice(['--', '&&', '||'])
            s |= set('abc')
            txt += 'a-c'
            if self.cdefs and r.random() < .4:
                n, s2 = r.choice(self.cdefs)
                t2 = '{%s}' % n
            else:
                t2, _, s2 = self.cset(1)
                t2 = '[%s]' % t2
            s3 = s - s2 if op == '--' else s & s2 if op == '&&' else s | s2
            if s3: return txt + op + t2, False, s3
        return txt, neg, s

    def cls(self):
        t, neg, s = self.cset()
        return '[' + t + ']', ('c', neg, frozenset(s))

    def atom(self, d):
        r = self.r
        k = r.randint(0, 19)
        if k < 8: return self.lit()
        if k < 13: return self.cls()
        if k == 13: return ('[^\\n]', ('c', True, frozenset('\n'))) if self.uni else ('.', ('.',))   # . also matches invalid UTF-8 in unicode mode
        if k == 14 and self.defs and self.ic == self.ic0:
            n, t, x = r.choice(self.defs)
            return '{%s}' % n, ('d', n, x)
        if k == 15:
            c, s = r.choice([('\\d', '0123456789'), ('\\w', None), ('\\s', ' \t\n\r\f\v')])
            if s is None or self.uni:
                c, s = '[0-9]', '0123456789'
            return c, ('c', False, frozenset(s))
        if d <= 0: return self.lit()
        if k < 18:
            t, x = self.alt(d - 1)
            return ('(%s)' if r.random() < .6 else '(?:%s)') % t, x
        if k == 18:
            self.ic += 1
            t, x = self.alt(d - 1)
            self.ic -= 1
            return '(?i:%s)' % t, ('i', x)
        return self.lit()

    def rep(self, d):
        r = self.r
        t, x = self.atom(d)
        if r.random() < .35:
            if len(t) > 1 and t[0] not in '([{' and not re.fullmatch(r'\\.|"(\\.|[^"\\])"', t, re.S) and not (t[0] == '"' and t[-1] == '"' and '"' not in t[1:-1]): t = '(%s)' % t
            elif t[0] in '([{' and not self.single(t): t = '(%s)' % t
            k = r.randint(0, 9)
            if k < 3: return t + '*', ('r', x, 0, None)
            if k < 6: return t + '+', ('r', x, 1, None)
            if k < 8: return t + '?', ('r', x, 0, 1)
            lo = r.randint(0, 2)
            hi = r.choice([lo, lo + 1, lo + 2, None])
            if hi == 0: hi = 1
            return t + ('{%d}' % lo if hi == lo else '{%d,%s}' % (lo, '' if hi is None else hi)), ('r', x, lo, hi)
        return t, x

    @staticmethod
    def single(t):
        """one group, class or name"""
        d, i = 0, 0
        while i < len(t):
            c = t[i]
            if c == '\\': i += 2; continue
            if c in '([{': d += 1
            elif c in ')]}':
                d -= 1
                if d == 0: return i == len(t) - 1
            elif c == '"' : return False
            i += 1
        return False

    def cat(self, d):
        ts, xs = [], []
        for _ in range(self.r.choice([1, 1, 2, 2, 3])):
            t, x = self.rep(d)
            ts.append(t)
            xs.append(x)
        sep = ' ' if self.free and self.r.random() < .5 else ''
        return sep.join(ts), ('&', xs) if len(xs) > 1 else xs[0]

    def alt(self, d):
        ts, xs = [], []
        for _ in range(self.r.choice([1, 1, 1, 2, 3])):
            t, x = self.cat(d)
            ts.append(t)
            xs.append(x)
        sep = ' | ' if self.free and self.r.random() < .5 else '|'
        return sep.join(ts), ('|', xs) if len(xs) > 1 else xs[0]

    def regex(self):
        for _ in range(50):
            t, x = self.alt(2)
            if not nullable(x) and len(t) < 120: return t, x
        return 'a', ('s', 'a')


class Rule:
    pass


# code that must not be taken for the end of an action, and comments between rules
TRICKY = ['/* } */', '/*/ { */', '/* \\*/', '(void)"}";', "(void)'{';", "(void)'\\'';", '(void)"\\"{";', '/* "\' */', '(void)"/*";', '/** } **/', '(void)"//";', "(void)'\"';", '{ /***/ }']
COMMENTS = ['/* c */', '/*/ <<EOF>> */', '// a   { }', '/**/', '/* two\n   lines */', '/*\n * x\n **/']

class Spec:
    """one random specification, its text per configuration and its meaning"""
    def __init__(self, seed, k):
        r = self.r = random.Random(seed)
        self.k = k
        self.dotall, self.icase, self.uni = r.random() < .15, r.random() < .2, r.random() < .2
        self.free, self.flex = r.random() < .2, r.random() < .3
        self.more = r.random() < .3
        self.nodefault = r.random() < .15
        g = self.g = Gen(r, self.uni, self.free, self.flex, self.icase)
        self.deftext = []
        for i in range(r.randint(0, 4)):
            name = r.choice(['D', 'ws', 'id_', 'N9', 'expr']) + str(i)
            if r.random() < .5:
                t, x = g.cls()
                if not x[1] and not self.uni: g.cdefs.append((name, x[2]))
            else:
                t, x = g.regex()
            self.deftext.append((name, t))
            g.defs.append((name, t, x))
        ns = r.choice([0, 0, 1, 2, 3])
        self.states = ['INITIAL'] + ['S%d' % i for i in range(ns)]
        self.excl = {s: s != 'INITIAL' and r.random() < .5 for s in self.states}
        self.rules = []
        self.items = []          # rules and scopes in textual order
        self.blocks = []         # initial code blocks: (states, number)
        self.nr = 0
        n = r.randint(2, 9)
        if r.random() < .25: self.items.append(self.block(frozenset(), None))
        while n > 0:
            if ns and r.random() < .25:
                m = r.randint(1, 3)
                st = self.pick()
                body = []
                if r.random() < .2: body.append(self.block(st, st))
                for _ in range(m):
                    if r.random() < .2 and '*' not in st:
                        st2 = frozenset([r.choice(self.states)])
                        body.append(('scope', st2, [self.rule(st | st2, None) for _ in range(r.randint(1, 2))]))
                    else:
                        body.append(self.rule(st, None))
                    n -= 1
                self.items.append(('scope', st, body))
            else:
                st = self.pick() if ns and r.random() < .4 else None
                self.items.append(self.rule(st, st))
                n -= 1
        if r.random() < .3:
            # an end-of-file rule of all start conditions, the exclusive ones included
            x = Rule()
            x.states, x.prefix, x.eof, x.alts, x.share = frozenset(), None, True, [], False
            x.ops = [('say',), ('state',), ('ret0',)]
            self.number(x)
            self.items.append(('rule', x))
        if self.more or self.uni or r.random() < .3:
            x = Rule()
            x.states, x.eof, x.alts = frozenset('*'), False, [('.|\\n', ('|', [('.',), ('s', '\n')]), False, False, None)]
            x.prefix, x.ops, x.share = x.states, [('say',)], False
            self.number(x)
            self.items.append(('rule', x))
        # the last action is not shared with a next rule
        last = None
        for x in self.rules: last = x
        if last: last.share = False
        self.counters = 0

    def number(self, x):
        self.nr += 1
        x.no = self.nr
        self.rules.append(x)

    def pick(self):
        r = self.r
        if r.random() < .15: return frozenset('*')
        return frozenset(r.sample(self.states, r.randint(1, min(2, len(self.states)))))

    def block(self, st, own):
        self.blocks.append((st, len(self.blocks)))
        return ('block', len(self.blocks) - 1)

    def rule(self, st, prefix):
        r, g = self.r, self.g
        x = Rule()
        x.states = st if st is not None else frozenset()
        x.prefix = prefix
        x.eof = r.random() < .08
        x.share = False
        if x.eof:
            x.alts = []
            x.ops = r.choice([[('say',), ('ret0',)], [('say',), ('eofpop',), ('ret0',)], [('say',), ('ret0',)]])
        else:
            x.alts = []
            t, y = g.regex()
            bol = eol = False
            la = None
            if not self.more:
                if r.random() < .12: bol = True
                k = r.random()
                if k < .1: eol = True
                elif k < .2:
                    cs = [c for c in 'abx0 \n-/_B' if not uses(y, c)]
                    if cs:
                        c = r.choice(cs)
                        la = (g.ch(c), ('s', c))
                        if r.random() < .4: la = ('[%s]' % ''.join('\\' + 'n' * (d == '\n') + d * (d in '-/') if d in '\n-/' else d for d in cs), ('c', False, frozenset(cs)))
            x.alts.append((t, y, bol, eol, la))
            ops = []
            k = r.random()
            if k < .85: ops.append(('say',))
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                s = r.choice(self.states)
                ops.append(r.choice([('start', s), ('start', s), ('push', s), ('pop',), ('echo',), ('line',), ('ret', r.randint(1, 9)), ('top',), ('accept',),
                                     ('input',), ('less', r.randint(1, 3)), ('nth', r.randint(2, 4), s), ('size',), ('state',), ('bol',)] + ([('more',)] * 4 if self.more else [])))
            # what consumes or changes the match comes last, and only one of these
            late = [o for o in ops if o[0] in ('input', 'less', 'more', 'ret')]
            ops = [o for o in ops if o not in late and not (self.more and o[0] in ('line', 'bol'))]
            if late:
                o = late[0]
                if o[0] == 'less' and (self.more or self.uni): o = ('echo',)
                if o[0] == 'input' and (self.more or self.uni): o = ('echo',)
                ops.append(o)
                if o[0] == 'less' and r.random() < .5: ops.append(('say',))
            x.ops = ops
            x.share = r.random() < .1
        self.number(x)
        return ('rule', x)

    # ------------------------------------------------------------ text
    def text(self, variant):
        k, flex = self.k, variant == 'flex'
        S = lambda s: s if s == 'INITIAL' else 'Z%d%s_%s' % (k, variant, s)
        o = []
        o.append('%%option lexer=L%d_%s' % (k, variant))
        if self.dotall: o.append('%option dotall')
        if self.icase: o.append('%option case-insensitive')
        if self.uni: o.append('%option unicode')
        if self.free: o.append('%option freespace')
        if self.nodefault: o.append('%option nodefault')
        if variant in ('full', 'fast'): o.append('%%option %s' % variant)
        if flex: o.append('%option flex noyywrap')
        o.append('%%class{\npublic:\n int cnt[%d] = { 0 };\n}' % (self.nr + 1))
        for s in self.states[1:]:
            o.append('%%%s %s' % ('x' if self.excl[s] else 's', S(s)))
        for n, t in self.deftext: o.append('%-8s%s' % (n, t))
        o.append('%%')

        def action(x):
            if x.share: return '|'
            c = []
            for op in x.ops:
                a = op[0]
                if a == 'say': c.append('%s << "<%d:" << matcher().str() << ">";' % ('*yyout' if flex else 'out()', x.no) if not flex else '*yyout << "<%d:" << std::string(yytext, yyleng) << ">";' % x.no)
                elif a == 'echo': c.append('ECHO;' if flex else 'echo();')
                elif a == 'start': c.append('BEGIN %s;' % S(op[1]) if flex else 'start(%s);' % S(op[1]))
                elif a == 'push': c.append('%s(%s);' % ('yy_push_state' if flex else 'push_state', S(op[1])))
                elif a == 'pop': c.append('yy_pop_state();' if flex else 'pop_state();')
                elif a == 'top': c.append('%s << "<t" << %s << ">";' % (('*yyout', 'yy_top_state()') if flex else ('out()', 'top_state()')))
                elif a == 'state': c.append('%s << "<s" << %s << ">";' % (('*yyout', 'YY_START') if flex else ('out()', 'start()')))
                elif a == 'line': c.append('%s << "<l" << %s << ">";' % (('*yyout', 'matcher().lineno()') if flex else ('out()', 'lineno()')))
                elif a == 'size': c.append('%s << "<z" << %s << ">";' % (('*yyout', 'yyleng') if flex else ('out()', 'size()')))
                elif a == 'bol': c.append('%s << "<b" << (%s ? 1 : 0) << ">";' % (('*yyout', 'YY_AT_BOL()') if flex else ('out()', 'matcher().at_bol()')))
                elif a == 'accept': c.append('%s << "<a" << matcher().accept() << ">";' % ('*yyout' if flex else 'out()'))
                elif a == 'ret': c.append('return %d;' % op[1])
                elif a == 'ret0': c.append('yyterminate();' if flex else 'return 0;')
                elif a == 'input': c.append('{ int ch = matcher().input(); %s << "<i" << ch << ">"; }' % ('*yyout' if flex else 'out()'))
                elif a == 'less': c.append('yyless(%d);' % op[1] if flex else 'matcher().less(%d);' % op[1])
                elif a == 'more': c.append('yymore();' if flex else 'matcher().more();')
                elif a == 'nth': c.append('if (++cnt[%d] %% %d == 0) %s;' % (x.no, op[1], 'BEGIN ' + S(op[2]) if flex else 'start(%s)' % S(op[2])))
                elif a == 'eofpop': c.append('if (%s) { %s; break; }' % (('!states_empty()', 'yy_pop_state()') if flex else ('!states_empty()', 'pop_state()')))
            # the unshared, single line form needs at least one statement
            q = hashlib.md5(('%d+%d+%d' % (self.k, self.case, x.no)).encode()).digest()
            if q[0] % 3 == 0: c.insert(q[1] % (len(c) + 1), TRICKY[q[2] % len(TRICKY)])
            t = ' '.join(c) or ';'
            h = hashlib.md5(('%d-%d' % (self.k, x.no)).encode()).digest()[0] % 4
            if self.free or h == 0 or '\n' in t: return '{ ' + t + ' }'
            if h == 1: return '{\n    ' + '\n    '.join(c or [';']) + '\n  }'
            if h == 2: return t + '  // rule } {'
            return t

        def pre(st):
            if st is None or not st: return ''
            return '<' + ','.join(S(s) if s != '*' else '*' for s in sorted(st)) + '>'

        def emit(items, ind):
            for it in items:
                if it[0] == 'rule':
                    x = it[1]
                    if x.eof: p = '<<EOF>>'
                    else:
                        t, _, bol, eol, la = x.alts[0]
                        grp = '|' in t and (bol or eol or la)
                        p = ('^' if bol else '') + ('(%s)' % t if grp else t) + ('$' if eol else '') + ('/' + la[0] if la else '')
                    q = hashlib.md5(('%d-%d-%d' % (self.k, self.case, x.no)).encode()).digest()
                    if q[0] % 6 == 0: o.append(COMMENTS[q[1] % len(COMMENTS)])
                    o.append(pre(x.prefix) + p + '   ' + action(x))
                elif it[0] == 'block':
                    o.append('%%{\n  %s << "<I%d>";\n%%}' % ('*yyout' if flex else 'out()', it[1]))
                else:
                    o.append(pre(it[1]) + '{')
                    emit(it[2], ind)
                    o.append('}')
        emit(self.items, 0)
        o.append('%%')
        return '\n'.join(o) + '\n'

    # ------------------------------------------------------------ meaning
    def active(self, x, s):
        if not x.states: return x.eof or not self.excl[s]
        return '*' in x.states or s in x.states

    def run(self, text):
        """what the scanner prints for an input (a str of characters or of latin-1 bytes)"""
        enc = 'utf-8' if self.uni else 'latin-1'
        sem = Sem(text, self.dotall, self.icase)
        out = []
        st, stack, pos, cnt = 'INITIAL', [], 0, {}
        pending = ''
        act = {s: [x for x in self.rules if self.active(x, s)] for s in self.states}
        num = {s: i for i, s in enumerate(self.states)}
        evs = 0
        entering = True
        n = len(text)
        start0 = 0
        while evs < 4000:
            evs += 1
            if entering:
                entering = False
                for sts, b in self.blocks:
                    if (not sts and not self.excl[st]) or '*' in sts or st in sts: out.append('<I%d>' % b)
            best, bl, bt = None, 0, 0
            idx = 0
            for x in act[st]:
                if x.eof: continue
                idx += 1
                t, y, bol, eol, la = x.alts[0]
                if bol and pos > 0 and text[pos - 1] != '\n': continue
                for e in sem.ends(y, pos, self.icase):
                    if e == pos: continue
                    if eol and not (e == n or text[e] == '\n'): continue
                    tot = e
                    if la:
                        f = sem.ends(la[1], e, self.icase)
                        if not f: continue
                        tot = max(f)
                    if best is None or tot > bt or (tot == bt and best is x and e > bl):
                        best, bl, bt, bi = x, e, tot, idx
            if best is None:
                pending = ''
                if pos >= n:
                    ops, no = None, 0
                    for j, x in enumerate(self.rules):
                        if x.eof and self.active(x, st):
                            ops, no = x.ops, x.no
                            break
                    if ops is None:
                        out.append('{0}')
                        break
                    txt = ''
                else:
                    if self.nodefault:
                        out.append('!')
                        break
                    out.append(text[pos])
                    pos += 1
                    continue
            else:
                x = best
                # shared actions: that of the next rule active in this state
                i = act[st].index(x)
                while act[st][i].share and i + 1 < len(act[st]): i += 1
                if act[st][i].share: ops, no = [], x.no
                else: ops, no = act[st][i].ops, act[st][i].no
                txt = pending + text[pos:bl]
                begin = pos
                pos = bl
                pending = ''
            done = False
            for op in ops:
                a = op[0]
                if a == 'say': out.append('<%d:%s>' % (no, txt))
                elif a == 'echo': out.append(txt)
                elif a == 'start': st = op[1]
                elif a == 'push': stack.append(st); st = op[1]
                elif a == 'pop':
                    if stack: st = stack.pop()
                elif a == 'top': out.append('<t%d>' % (num[stack[-1]] if stack else 0))
                elif a == 'state': out.append('<s%d>' % num[st])
                elif a == 'line': out.append('<l%d>' % (1 + text.count('\n', 0, begin)))
                elif a == 'size': out.append('<z%d>' % len(txt.encode(enc)))
                elif a == 'bol': out.append('<b%d>' % (pos == 0 or text[pos - 1] == '\n'))
                elif a == 'accept': out.append('<a%d>' % bi)
                elif a == 'ret': out.append('{%d}' % op[1]); entering = True
                elif a == 'ret0': out.append('{0}'); done = True
                elif a == 'input':
                    if pos < n:
                        out.append('<i%d>' % text[pos].encode(enc)[0])
                        pos += 1
                    else: out.append('<i-1>')
                elif a == 'less':
                    if op[1] < len(txt):
                        pos = begin + op[1]
                        txt = txt[:op[1]]
                elif a == 'more': pending = txt
                elif a == 'nth':
                    cnt[no] = cnt.get(no, 0) + 1
                    if cnt[no] % op[1] == 0: st = op[2]
                elif a == 'eofpop':
                    if stack:
                        st = stack.pop()
                        break
            if done: break
        if evs >= 4000: return None
        return ''.join(out).encode(enc)

    def inputs(self, n):
        r = self.r
        res = ['']
        pool = [x for x in self.rules if not x.eof]
        for i in range(n):
            s = ''
            m = r.choice([3, 10, 40, 120])
            while len(s) < m:
                if pool and r.random() < .8:
                    x = r.choice(pool)
                    t, y, bol, eol, la = x.alts[0]
                    if bol and r.random() < .7: s += '\n'
                    s += sample(r, y, self.g.alpha)
                    if eol and r.random() < .7: s += '\n'
                    if la: s += sample(r, la[1], self.g.alpha)
                else:
                    s += r.choice(self.g.alpha)
            s = s.replace('<', '').replace('>', '').replace('\r', '')
            if not self.uni: s = ''.join(c if ord(c) < 256 else 'x' for c in s)
            res.append(s)
        return res


RUNNER = r'''
#include <cstdio>
#include <sstream>
#include <string>
#include <vector>
#include <fstream>
#include <iostream>
typedef std::vector<std::string> Ins;
template<class L> int lex_of(L& l, long) { return l.lex(); }
template<class L> void run_one(const char *name, const Ins& ins) {
  for (size_t i = 0; i < ins.size(); ++i) {
    std::ostringstream os;
    std::istringstream is(ins[i]);
    FILE *f = nullptr;
    std::string tail;
    {
      L l;
      l.out(os);
      int kind = i % 4;
      if (kind == 0) l.in(reflex::Input(ins[i].c_str(), ins[i].size()));
      else if (kind == 1) l.in(reflex::Input(is));
      else if (kind == 2 && !ins[i].empty()) { f = tmpfile(); fwrite(ins[i].data(), 1, ins[i].size(), f); rewind(f); l.in(reflex::Input(f, reflex::Input::file_encoding::plain)); }
      else l.in(reflex::Input(ins[i]));
      try {
        for (int k = 0; k < 5000; ++k) { int t = LEX(l); os << '{' << t << '}'; if (t == 0) break; }
      } catch (const std::exception&) { os << '!'; }
    }
    if (f) fclose(f);
    std::string o = os.str();
    printf("%s %zu ", name, i);
    for (unsigned char c : o) printf("%02x", c);
    printf(".\n");
    fflush(stdout);
  }
}
static Ins load(const char *file) {
  std::ifstream s(file, std::ios::binary);
  std::string all((std::istreambuf_iterator<char>(s)), std::istreambuf_iterator<char>());
  Ins r;
  size_t p = 0;
  while (p + 4 <= all.size()) { unsigned n; memcpy(&n, &all[p], 4); r.push_back(all.substr(p + 4, n)); p += 4 + n; }
  return r;
}
'''


def hexd(b):
    return b.decode('latin-1').encode('unicode_escape').decode()


class Harness:
    def __init__(self, a):
        self.a = a
        self.wd = a.workdir
        self.fails = {}
        self.counters = {}
        self.ev = 0
        self.hashes = set()
        self.samples = []
        self.pf = open(a.progress, 'w+b') if a.progress else None

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def note(self, case, idx, s):
        if self.pf:
            self.pf.seek(0)
            self.pf.write(struct.pack('<QQ', case & (2**64 - 1), idx) + s.encode('utf-8', 'replace')[:4000] + b'\0')
            self.pf.flush()

    def fail(self, key, case, detail):
        n = self.fails[key] = self.fails.get(key, 0) + 1
        if n <= 3: print('FAIL %s case=%d %s' % (key, case, detail.replace('\n', '\\n')[:1800]), flush=True)

    def batch(self, cases):
        wd = self.wd
        specs = []
        variants = {}
        for j, case in enumerate(cases):
            sp = Spec(case, j)
            sp.case = case
            vs = ['full', 'fast'] + (['flex', 'flex'] if sp.flex and not sp.nodefault else [])
            vs = sorted(set(['tab', sp.r.choice(vs)] + ([sp.r.choice(vs)] if sp.r.random() < .3 else [])))
            ok = True
            for v in vs:
                t = sp.text(v)
                fn = os.path.join(wd, 's%d_%s.l' % (j, v))
                with open(fn, 'w') as f: f.write(t)
                self.note(case, j, t)
                try:
                    p = subprocess.run([VP_REFLEX, '-L', '-w', '-o', fn[:-2] + '.cpp', fn], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, cwd=wd)
                except subprocess.TimeoutExpired:
                    self.fail('lex-generator-hang', case, t)
                    ok = False
                    break
                if p.returncode != 0:
                    self.fail('lex-generator-rejects', case, 'reflex exits %d: %s | %s' % (p.returncode, p.stderr.decode('utf8', 'replace')[-400:], t))
                    ok = False
                    break
                self.count('scanners generated')
            if not ok: continue
            ins = sp.inputs(14)
            enc = 'utf-8' if sp.uni else 'latin-1'
            want = []
            keep = []
            for s in ins:
                w = sp.run(s)
                if w is not None:
                    keep.append(s.encode(enc))
                    want.append(w)
            with open(os.path.join(wd, 's%d.in' % j), 'wb') as f:
                for s in keep: f.write(struct.pack('<I', len(s)) + s)
            sp.ins, sp.want, sp.vs = keep, want, vs
            specs.append(sp)
        # two programs, as flex-compatible scanners define macros
        got = {}
        for kind in ('std', 'flex'):
            todo = [(sp, v) for sp in specs for v in sp.vs if (v == 'flex') == (kind == 'flex')]
            if not todo: continue
            self.build(kind, todo, got)
        for sp in specs:
            for v in sp.vs:
                for i, w in enumerate(sp.want):
                    g = got.get('L%d_%s %d' % (sp.k, v, i))
                    if g is None: continue
                    self.ev += 1
                    self.count('runs ' + v)
                    self.hashes.add(hashlib.blake2b(sp.text(v).encode() + b'|' + sp.ins[i], digest_size=8).digest())
                    if g != w:
                        c = next((k for k in range(min(len(g), len(w))) if g[k] != w[k]), min(len(g), len(w)))
                        self.fail('lex-actions-' + v, sp.case, 'input "%s": prints "%s" expected "%s" (differs at %d) | %s' % (hexd(sp.ins[i])[:300], hexd(g)[:300], hexd(w)[:300], c, sp.text(v)))
                        break
            if len(self.samples) < 2: self.samples.append('%s | input "%s" prints "%s"' % (sp.text('tab')[:500], hexd(sp.ins[-1])[:120], hexd(sp.want[-1])[:200]))
            for x in sp.rules:
                for o in x.ops: self.count('action ' + o[0])
            self.count('specifications')
            self.count('start conditions', len(sp.states))

    def build(self, kind, todo, got):
        wd = self.wd
        src = ['#define LEX(l) (l).%s()' % ('yylex' if kind == 'flex' else 'lex')]
        src.append('#include <cstring>')
        for sp, v in todo:
            src.append('#include "s%d_%s.cpp"' % (sp.k, v))
        src.append(RUNNER)
        src.append('int main() {\n' + '\n'.join('  run_one<L%d_%s>("L%d_%s", load("s%d.in"));' % (sp.k, v, sp.k, v, sp.k) for sp, v in todo) + '\n}')
        fn, exe = os.path.join(wd, kind + '.cpp'), os.path.join(wd, kind + '.exe')
        with open(fn, 'w') as f: f.write('\n'.join(src))
        cxx = [x for x in CXX if not re.match(r'-O|-g', x)] + ['-O0']
        p = subprocess.run(cxx + ['-I' + wd, fn, VP_LIB, '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            if len(todo) == 1:
                self.fail('lex-does-not-compile', todo[0][0].case, p.stdout.decode('utf8', 'replace')[:700] + ' | ' + todo[0][0].text(todo[0][1]))
            else:
                for t in todo: self.build(kind, [t], got)
            return
        self.note(todo[0][0].case, todo[0][0].k, 'running %s of cases %s' % (kind, [sp.case for sp, v in todo]))
        try:
            p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=wd, timeout=200)
        except subprocess.TimeoutExpired as e:
            self.parse(e.stdout or b'', got)
            self.fail('lex-scanner-hang', self.where(todo, got).case, self.where(todo, got).text(todo[0][1]))
            return
        self.parse(p.stdout, got)
        if p.returncode != 0:
            sp = self.where(todo, got)
            er = p.stderr.decode('utf8', 'replace')
            m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)|runtime error: (.*)', er)
            self.fail('lex-scanner-crash', sp.case, 'exit %d %s | %s' % (p.returncode, m.group(0) if m else er[-300:], sp.text('tab')))

    def parse(self, out, got):
        for line in out.decode('latin-1').split('\n'):
            m = re.fullmatch(r'(\S+) (\d+) ([0-9a-f]*)\.', line)
            if m: got[m[1] + ' ' + m[2]] = bytes.fromhex(m[3])

    def where(self, todo, got):
        for sp, v in todo:
            for i in range(len(sp.ins)):
                if 'L%d_%s %d' % (sp.k, v, i) not in got: return sp
        return todo[-1][0]

    def finish(self):
        if self.a.hashes:
            with open(self.a.hashes, 'ab') as f:
                for h in sorted(self.hashes): f.write(h)
        print('STATS ' + json.dumps(dict(evaluations=self.ev, counters=self.counters, fails=sum(self.fails.values()), samples=self.samples)), flush=True)
        sys.exit(1 if self.fails else 0)


def main():
    ap = argparse.ArgumentParser()
    for o in ('seed', 'shard', 'cases', 'start', 'hang', 'deadline', 'shards'): ap.add_argument('--' + o, type=int, default=0)
    for o in ('progress', 'hashes', 'case'): ap.add_argument('--' + o)
    ap.add_argument('--workdir', default='.')
    ap.add_argument('--nofixed', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    h = Harness(a)
    if a.case:
        h.batch([int(a.case)])
        return h.finish()
    size = 6
    for i in range(a.start, a.cases, size):
        if a.deadline and time.time() - t0 > a.deadline: break
        h.batch([(a.seed << 40) | (a.shard << 24) | j for j in range(i, min(i + size, a.cases))])
    h.finish()


main()

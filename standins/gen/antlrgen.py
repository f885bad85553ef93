#!/usr/bin/env python3
"""Stand-in for the ANTLR 4 tool (not available offline): builds the ATNs of a lexer and a parser grammar the way the tool does
(left-recursion elimination, blocks, loops, tail-epsilon removal, LL(1) analysis) and writes
  OUT/antlr_tables.inc          serialised ATNs, vocabulary, rule programs (what the generated functions do)
  OUT/libqasm/v3x/*.h           the classes the library is compiled against
usage: antlrgen.py Lexer.g4 Parser.g4 OUT NAMESPACE"""
import os
import re
import sys

BASIC, RULE_START, BLOCK_START, PLUS_BLOCK_START, STAR_BLOCK_START, TOKEN_START, RULE_STOP, BLOCK_END, STAR_LOOP_BACK, STAR_LOOP_ENTRY, PLUS_LOOP_BACK, LOOP_END = range(1, 13)
EPS, RANGE, RULE, PRED, ATOM, ACTION, SET, NOT_SET, WILD, PREC = range(1, 11)
EOF, EPSILON = -1, -2
SKIP, MORE, POPMODE, PUSHMODE, MODE = 6, 3, 4, 5, 2


class El:
    def __init__(self, kind, value=None):
        self.kind, self.value, self.suffix, self.greedy, self.prec, self.label = kind, value, "", True, 0, None


class Alt:
    def __init__(self):
        self.els, self.label, self.assoc, self.cmds, self.pred = [], None, "left", [], None


class Rule:
    def __init__(self, name, fragment=False, mode="DEFAULT_MODE"):
        self.name, self.fragment, self.mode, self.alts, self.leftrec = name, fragment, mode, [], False


TOK = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|(?P<lit>'(?:\\.|[^'\\])*')|(?P<set>\[(?:\\.|[^\]\\])*\])|(?P<id>[A-Za-z_]\w*)|(?P<arrow>->)|(?P<opt><[^>]*>)|(?P<action>\{[^}]*\})|(?P<p>[:;|()?*+~.#,=@])""", re.S | re.X)


def unescape(s):
    def r(m):
        c = m.group(1)
        if c[0] == "u":
            return chr(int(c[1:].strip("{}"), 16))
        return {"n": "\n", "r": "\r", "t": "\t", "b": "\b", "f": "\f"}.get(c, c)
    return re.sub(r"\\(u[0-9A-Fa-f]{4}|u\{[0-9A-Fa-f]+\}|.)", r, s, flags=re.S)


def charset(body):
    out, i = [], 0
    chars = []
    while i < len(body):
        if body[i] == "\\":
            m = re.match(r"\\(u[0-9A-Fa-f]{4}|u\{[0-9A-Fa-f]+\}|.)", body[i:], re.S)
            chars.append((unescape(m.group(0)), True))
            i += len(m.group(0))
        else:
            chars.append((body[i], False))
            i += 1
    i = 0
    while i < len(chars):
        if i + 2 < len(chars) and chars[i + 1] == ("-", False):
            out.append((ord(chars[i][0]), ord(chars[i + 2][0])))
            i += 3
        else:
            out.append((ord(chars[i][0]),) * 2)
            i += 1
    return norm(out)


def norm(iv):
    r = []
    for a, b in sorted(iv):
        if r and a <= r[-1][1] + 1:
            r[-1] = (r[-1][0], max(b, r[-1][1]))
        else:
            r.append((a, b))
    return r


class G4:
    def __init__(self, text):
        self.t = []
        pos = 0
        while pos < len(text):
            m = TOK.match(text, pos)
            if not m:
                raise SystemExit(f"cannot read the grammar at {text[pos:pos + 40]!r}")
            pos = m.end()
            for k in ("lit", "set", "id", "arrow", "opt", "action", "p"):
                if m.group(k) is not None:
                    self.t.append((k, m.group(k)))
        self.i = 0
        self.rules, self.modes = [], ["DEFAULT_MODE"]
        self.lexer = False
        self.parse()

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("end", "")

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def expect(self, v):
        t = self.next()
        if t[1] != v:
            raise SystemExit(f"grammar: expected {v}, found {t[1]}")

    def parse(self):
        kind = self.next()[1]
        self.lexer = kind == "lexer"
        self.expect("grammar")
        self.name = self.next()[1]
        self.expect(";")
        mode = "DEFAULT_MODE"
        while self.peek()[0] != "end":
            k, v = self.next()
            if v == "options":
                self.next()
            elif v == "mode":
                mode = self.next()[1]
                self.modes.append(mode)
                self.expect(";")
            else:
                frag = v == "fragment"
                name = self.next()[1] if frag else v
                r = Rule(name, frag, mode)
                self.expect(":")
                r.alts = self.alts()
                self.expect(";")
                self.rules.append(r)

    def alts(self):
        out = [self.alt()]
        while self.peek()[1] == "|" and self.peek()[0] == "p":
            self.next()
            out.append(self.alt())
        return out

    def alt(self):
        a = Alt()
        while True:
            k, v = self.peek()
            if k == "opt":
                self.next()
                if "right" in v:
                    a.assoc = "right"
            elif k == "p" and v in "|;)":
                break
            elif k == "p" and v == "#":
                self.next()
                a.label = self.next()[1]
            elif k == "arrow":
                self.next()
                while True:
                    c = self.next()[1]
                    arg = None
                    if self.peek()[1] == "(":
                        self.next()
                        arg = self.next()[1]
                        self.expect(")")
                    a.cmds.append((c, arg))
                    if self.peek()[1] != ",":
                        break
                    self.next()
            else:
                a.els.append(self.element())
        return a

    def element(self):
        if self.peek()[0] == "id" and self.peek(1)[1] == "=":
            raise SystemExit("grammar: element labels are not supported by this stand-in")
        k, v = self.next()
        if v == "~" and k == "p":
            k2, v2 = self.next()
            if v2 == "(":
                alts = self.alts()
                self.expect(")")
                e = El("not", norm([iv for a in alts for iv in self.as_set(a.els[0])]) if self.lexer else [a.els[0].value for a in alts])
            else:
                e = El("not", charset(v2[1:-1]) if k2 == "set" else ([(ord(unescape(v2[1:-1])),) * 2] if k2 == "lit" else [v2]))
        elif k == "lit":
            e = El("lit", unescape(v[1:-1]))
        elif k == "set":
            e = El("set", charset(v[1:-1]))
        elif k == "id":
            e = El("tok" if v[0].isupper() and not self.lexer else "ref", v)
            if v == "EOF":
                e = El("tok", v)
        elif v == ".":
            e = El("wild")
        elif v == "(":
            e = El("block", self.alts())
            self.expect(")")
        else:
            raise SystemExit(f"grammar: unexpected {v}")
        if self.peek()[0] == "p" and self.peek()[1] in ("?", "*", "+"):
            e.suffix = self.next()[1]
            if self.peek() == ("p", "?"):
                self.next()
                e.greedy = False
        return e

    @staticmethod
    def as_set(e):
        return e.value if e.kind == "set" else [(ord(e.value),) * 2]


class Atn:
    def __init__(self, lexer):
        self.lexer = lexer
        self.states = []  # [type, rule, arg]
        self.tr = []      # per state list of [type, target, a, b, c]
        self.decisions = []
        self.nongreedy = []
        self.sets = []
        self.rule_start, self.rule_stop, self.rule_tok = [], [], []
        self.prec_rules = []
        self.mode_start = []
        self.actions = []
        self.removed = set()
        self.rule = -1
        self.dec_of = {}

    def new(self, type_):
        self.states.append([type_, self.rule, None])
        self.tr.append([])
        return len(self.states) - 1

    def eps(self, a, b):
        self.tr[a].append([EPS, b, 0, 0, 0])

    def decide(self, s):
        self.dec_of[s] = len(self.decisions)
        self.decisions.append(s)

    def set_index(self, iv):
        if iv not in self.sets:
            self.sets.append(iv)
        return self.sets.index(iv)

    def connect(self, els):
        """elemList: concatenates handles, avoiding epsilon edges where the tool does."""
        for (l, r), (l2, _) in zip(els, els[1:]):
            t = self.tr[l][0] if len(self.tr[l]) == 1 else None
            if self.states[l][0] == BASIC and self.states[r][0] == BASIC and t is not None and ((t[0] == RULE and t[4] == r) or (t[0] != RULE and t[1] == r)):
                if t[0] == RULE:
                    t[4] = l2
                else:
                    t[1] = l2
                self.removed.add(r)
            else:
                self.eps(r, l2)
        return els[0][0], els[-1][1]

    def make_block(self, start, alts):
        end = self.new(BLOCK_END)
        self.states[start][2] = end
        for l, r in alts:
            self.eps(start, l)
            self.eps(r, end)
            self.tail(l, set())
        return start, end

    def tail(self, p, seen):
        if p in seen:
            return
        seen.add(p)
        if self.states[p][0] == BASIC and len(self.tr[p]) == 1:
            t = self.tr[p][0]
            q = t[4] if t[0] == RULE else t[1]
            if self.states[q][0] == BASIC and len(self.tr[q]) == 1 and self.tr[q][0][0] == EPS:
                r = self.tr[q][0][1]
                if self.states[r][0] in (BLOCK_END, PLUS_LOOP_BACK, STAR_LOOP_BACK):
                    if t[0] == RULE:
                        t[4] = r
                    else:
                        t[1] = r
                    self.removed.add(q)
        for t in self.tr[p]:
            self.tail(t[4] if t[0] == RULE else t[1], seen)

    def follow_links(self):
        self.follow = {}
        for s in range(len(self.states)):
            if s in self.removed:
                continue
            for t in self.tr[s]:
                if t[0] == RULE:
                    self.follow.setdefault(t[2], []).append(t[4])

    def serialise(self, max_tok):
        o = [4, 0 if self.lexer else 1, max_tok, len(self.states)]
        for i, (t, r, arg) in enumerate(self.states):
            if i in self.removed:
                o.append(0)
                continue
            o += [t, r if r >= 0 else 65535]
            if t in (LOOP_END, BLOCK_START, PLUS_BLOCK_START, STAR_BLOCK_START):
                o.append(arg)
        o += [len(self.nongreedy), *self.nongreedy]
        o += [len(self.prec_rules), *[self.rule_start[r] for r in self.prec_rules]]
        o.append(len(self.rule_start))
        for i, s in enumerate(self.rule_start):
            o.append(s)
            if self.lexer:
                o.append(self.rule_tok[i])
        o += [len(self.mode_start), *self.mode_start]
        o.append(len(self.sets))
        for iv in self.sets:
            iv2 = [(a, b) for a, b in iv]
            has = any(a == EOF for a, b in iv2)
            iv2 = [(max(a, 0) if b >= 0 else a, b) for a, b in iv2 if b >= 0]
            o += [len(iv2), 1 if has else 0]
            for a, b in iv2:
                o += [a, b]
        edges = []
        for s in range(len(self.states)):
            if s in self.removed or self.states[s][0] == RULE_STOP:
                continue
            for t in self.tr[s]:
                if t[0] == RULE:
                    edges.append([s, self.rule_start[t[2]], RULE, t[4] * 0 + t[2], t[3], t[4]])
                else:
                    edges.append([s, t[1], t[0], t[2], t[3], t[4]])
        o.append(len(edges))
        for s, trg, ty, a, b, c in edges:
            if ty == RULE:
                o += [s, trg, ty, a, c, b] if False else [s, c, ty, trg, a, b]
            elif ty == ATOM and a == EOF:
                o += [s, trg, ty, 0, 0, 1]
            else:
                o += [s, trg, ty, a, b, c]
        o += [len(self.decisions), *self.decisions]
        if self.lexer:
            o.append(len(self.actions))
            for a in self.actions:
                o += list(a)
        return o


class LexerBuilder:
    def __init__(self, g):
        self.g = g
        self.a = a = Atn(True)
        self.rules = g.rules
        self.index = {r.name: i for i, r in enumerate(g.rules)}
        self.types = {}
        for r in g.rules:
            if not r.fragment:
                self.types[r.name] = len(self.types) + 1
        for m in g.modes:
            a.mode_start.append(a.new(TOKEN_START))
        for i, r in enumerate(g.rules):
            a.rule = i
            a.rule_start.append(a.new(RULE_START))
            a.rule_stop.append(a.new(RULE_STOP))
            a.rule_tok.append(self.types.get(r.name, 0))
        for i, r in enumerate(g.rules):
            a.rule = i
            l, e = self.block(r.alts)
            a.eps(a.rule_start[i], l)
            a.eps(e, a.rule_stop[i])
            a.tail(a.rule_start[i], set())
        a.rule = -1
        for m, s in zip(g.modes, a.mode_start):
            for i, r in enumerate(g.rules):
                if r.mode == m and not r.fragment:
                    a.eps(s, a.rule_start[i])
            a.decide(s)
        a.follow_links()

    def block(self, alts, start_type=None):
        a = self.a
        if start_type is None and len(alts) == 1:
            return self.alt(alts[0])
        start = a.new(start_type or BLOCK_START)
        if len(alts) > 1 and start_type != "x":
            a.decide(start)
        return a.make_block(start, [self.alt(x) for x in alts])

    def alt(self, alt):
        a = self.a
        els = [self.element(e) for e in alt.els]
        if not els:
            l, r = a.new(BASIC), a.new(BASIC)
            a.eps(l, r)
            els = [(l, r)]
        h = a.connect(els)
        for c, arg in alt.cmds:
            act = {"skip": (SKIP, 0, 0), "more": (MORE, 0, 0), "popMode": (POPMODE, 0, 0)}.get(c)
            if c in ("pushMode", "mode"):
                act = (PUSHMODE if c == "pushMode" else MODE, self.g.modes.index(arg), 0)
            if act is None:
                raise SystemExit(f"grammar: lexer command {c} is not supported by this stand-in")
            if act not in a.actions:
                a.actions.append(act)
            l, r = a.new(BASIC), a.new(BASIC)
            a.tr[l].append([ACTION, r, a.rule, a.actions.index(act), 0])
            a.eps(h[1], l)
            h = (h[0], r)
        return h

    def atom(self, e):
        a = self.a
        if e.kind == "lit" and len(e.value) != 1:
            first = prev = a.new(BASIC)
            for c in e.value:
                n = a.new(BASIC)
                a.tr[prev].append([ATOM, n, ord(c), 0, 0])
                prev = n
            return first, prev
        l, r = a.new(BASIC), a.new(BASIC)
        if e.kind == "lit":
            a.tr[l].append([ATOM, r, ord(e.value), 0, 0])
        elif e.kind == "set":
            if len(e.value) == 1:
                x, y = e.value[0]
                a.tr[l].append([ATOM, r, x, 0, 0] if x == y else [RANGE, r, x, y, 0])
            else:
                a.tr[l].append([SET, r, a.set_index(e.value), 0, 0])
        elif e.kind == "not":
            a.tr[l].append([NOT_SET, r, a.set_index(e.value), 0, 0])
        elif e.kind == "wild":
            a.tr[l].append([WILD, r, 0, 0, 0])
        elif e.kind == "tok":
            a.tr[l].append([ATOM, r, EOF, 0, 0])
        elif e.kind == "ref":
            i = self.index[e.value]
            a.tr[l].append([RULE, a.rule_start[i], i, 0, r])
        return l, r

    def set_alts(self, alts):
        """Blocks of single characters become one set."""
        if len(alts) > 1 and all(len(x.els) == 1 and not x.els[0].suffix and not x.cmds and (x.els[0].kind == "set" or (x.els[0].kind == "lit" and len(x.els[0].value) == 1)) for x in alts):
            return [Alt1(El("set", norm([iv for x in alts for iv in G4.as_set(x.els[0])])))]
        return alts

    def element(self, e):
        a = self.a
        if e.kind == "block":
            alts = self.set_alts(e.value)
            if not e.suffix:
                return self.block(alts)
        else:
            if not e.suffix:
                return self.atom(e)
            one = El(e.kind, e.value)
            alts = [Alt1(one)]
        return loop(a, e, alts, self.alt)[:2]


def Alt1(el):
    x = Alt()
    x.els = [el]
    return x


def loop(a, e, alts, alt_fn):
    """optional / star / plus, as in ParserATNFactory.  Returns left, right, info."""
    if e.suffix == "?":
        start = a.new(BLOCK_START)
        a.decide(start)
        hs = [alt_fn(x) for x in alts]
        l, end = a.make_block(start, hs)
        if e.greedy:
            a.eps(start, end)
        else:
            a.nongreedy.append(start)
            a.tr[start].insert(0, [EPS, end, 0, 0, 0])
        return start, end, {"start": start, "hs": hs}
    if e.suffix == "*":
        start = a.new(STAR_BLOCK_START)
        if len(alts) > 1:
            a.decide(start)
        hs = [alt_fn(x) for x in alts]
        blk, blkend = a.make_block(start, hs)
        entry, end, back = a.new(STAR_LOOP_ENTRY), a.new(LOOP_END), a.new(STAR_LOOP_BACK)
        a.decide(entry)
        a.states[end][2] = back
        if e.greedy:
            a.eps(entry, blk)
            a.eps(entry, end)
        else:
            a.nongreedy.append(entry)
            a.eps(entry, end)
            a.eps(entry, blk)
        a.eps(blkend, back)
        a.eps(back, entry)
        return entry, end, {"start": start, "entry": entry, "back": back, "hs": hs}
    start = a.new(PLUS_BLOCK_START)
    if len(alts) > 1:
        a.decide(start)
    hs = [alt_fn(x) for x in alts]
    blk, blkend = a.make_block(start, hs)
    back, end = a.new(PLUS_LOOP_BACK), a.new(LOOP_END)
    a.decide(back)
    a.states[end][2] = back
    a.eps(blkend, back)
    if e.greedy:
        a.eps(back, blk)
        a.eps(back, end)
    else:
        a.nongreedy.append(back)
        a.eps(back, end)
        a.eps(back, blk)
    return start, end, {"start": start, "back": back, "hs": hs}


(OP_SEQ, OP_TOK, OP_SET, OP_CALL, OP_LL1ALT, OP_LL1OPT, OP_LL1STAR, OP_LL1PLUS, OP_ALT, OP_OPT, OP_STAR, OP_PLUS, OP_LABEL, OP_PRIMARY, OP_RECLOOP, OP_PRECPRED, OP_OUTER) = range(17)


class ParserBuilder:
    def __init__(self, g, types):
        self.g, self.types = g, dict(types)
        self.a = a = Atn(False)
        self.index = {r.name: i for i, r in enumerate(g.rules)}
        self.labels = []  # (label, rule)
        for r in g.rules:
            for x in r.alts:
                if x.label and (x.label, r.name) not in self.labels:
                    self.labels.append((x.label, r.name))
            r.leftrec = any(x.els and x.els[0].kind == "ref" and x.els[0].value == r.name and not x.els[0].suffix for x in r.alts)
        for i, r in enumerate(g.rules):
            a.rule = i
            a.rule_start.append(a.new(RULE_START))
            a.rule_stop.append(a.new(RULE_STOP))
            if r.leftrec:
                a.prec_rules.append(i)
        self.prog = []
        for i, r in enumerate(g.rules):
            a.rule = i
            l, e, op = self.leftrec(r) if r.leftrec else self.rule_block(r)
            a.eps(a.rule_start[i], l)
            a.eps(e, a.rule_stop[i])
            a.tail(a.rule_start[i], set())
            self.prog.append(op)
        a.follow_links()
        self.prog = [self.finish(p) for p in self.prog]

    def label_index(self, alt, rule):
        return self.labels.index((alt.label, rule.name)) if alt.label else -1

    def rule_block(self, r):
        a = self.a
        alts = r.alts
        if len(alts) > 1 and all(len(x.els) == 1 and x.els[0].kind == "tok" and not x.els[0].suffix and x.els[0].value != "EOF" and not x.label for x in alts):
            l, e, op = self.atom_set([x.els[0].value for x in alts])
            return l, e, ("outer", 1, -1, op)
        if len(alts) == 1:
            l, e, op = self.alt(alts[0])
            return l, e, ("outer", 1, self.label_index(alts[0], r), op)
        start = a.new(BLOCK_START)
        a.decide(start)
        hs = [self.alt(x) for x in alts]
        l, e = a.make_block(start, [(h[0], h[1]) for h in hs])
        return l, e, ("choice", start, [("outer", n + 1, self.label_index(x, r), h[2]) for n, (x, h) in enumerate(zip(alts, hs))])

    def leftrec(self, r):
        """LeftRecursiveRuleTransformer: primary and prefix alternatives, then a loop over binary and suffix ones."""
        a = self.a
        n = len(r.alts)
        prim, ops = [], []

        def rec(e):
            return e.kind == "ref" and e.value == r.name and not e.suffix

        def setprec(els, p):
            refs = []

            def walk(es):
                for e in es:
                    if e.kind == "ref":
                        refs.append(e)
                    elif e.kind == "block":
                        for x in e.value:
                            walk(x.els)
            walk(els)
            if refs and refs[-1].value == r.name:
                refs[-1].prec = p
        for k, x in enumerate(r.alts):
            prec = n - (k + 1) + 1
            first, last = rec(x.els[0]), rec(x.els[-1])
            if first and len(x.els) > 1:
                els = x.els[1:]
                if last:
                    setprec(els, prec if x.assoc == "right" else prec + 1)
                ops.append((x, prec, els))
            else:
                if last and len(x.els) > 1:
                    setprec(x.els, prec)
                prim.append(x)
        if len(prim) == 1:
            pl, pe, pop = self.alt(prim[0])
            pop = ("primary", self.label_index(prim[0], r), pop)
        else:
            start = a.new(BLOCK_START)
            a.decide(start)
            hs = [self.alt(x) for x in prim]
            pl, pe = a.make_block(start, [(h[0], h[1]) for h in hs])
            pop = ("choice", start, [("primary", self.label_index(x, r), h[2]) for x, h in zip(prim, hs)])
        opl = []

        def opalt(item):
            x, prec, els = item
            l, e = a.new(BASIC), a.new(BASIC)
            a.tr[l].append([PREC, e, prec, 0, 0])
            parts = [(l, e, ("precpred", l, prec))] + [self.element(y) for y in els]
            h = a.connect([(p[0], p[1]) for p in parts])
            opl.append(("recalt", self.label_index(x, r), ("seq", [p[2] for p in parts])))
            return h
        star = El("block")
        star.suffix = "*"
        ll, le, info = loop(a, star, ops, opalt)
        h = a.connect([(pl, pe), (ll, le)])
        return h[0], h[1], ("rec", pop, ("recloop", info["entry"], info["back"], info["start"], opl))

    def alt(self, alt):
        a = self.a
        parts = [self.element(e) for e in alt.els]
        if not parts:
            l, r = a.new(BASIC), a.new(BASIC)
            a.eps(l, r)
            return l, r, ("seq", [])
        h = a.connect([(p[0], p[1]) for p in parts])
        return h[0], h[1], ("seq", [p[2] for p in parts])

    def tok(self, name):
        if name == "EOF":
            return EOF
        if name not in self.types:
            raise SystemExit(f"grammar: unknown token {name}")
        return self.types[name]

    def atom_set(self, names):
        a = self.a
        l, r = a.new(BASIC), a.new(BASIC)
        ts = sorted(self.tok(n) for n in names)
        a.tr[l].append([SET, r, a.set_index(norm([(t, t) for t in ts])), 0, 0])
        return l, r, ("set", l, ts)

    def element(self, e):
        a = self.a
        if not e.suffix:
            if e.kind == "tok":
                l, r = a.new(BASIC), a.new(BASIC)
                a.tr[l].append([ATOM, r, self.tok(e.value), 0, 0])
                return l, r, ("tok", l, self.tok(e.value))
            if e.kind == "ref":
                if e.value not in self.index:
                    raise SystemExit(f"grammar: unknown rule {e.value}")
                l, r = a.new(BASIC), a.new(BASIC)
                i = self.index[e.value]
                a.tr[l].append([RULE, a.rule_start[i], i, e.prec, r])
                return l, r, ("call", l, i, e.prec)
            if e.kind != "block":
                raise SystemExit(f"grammar: {e.kind} is not supported in parser rules by this stand-in")
            alts = e.value
            if len(alts) > 1 and all(len(x.els) == 1 and x.els[0].kind == "tok" and not x.els[0].suffix for x in alts):
                return self.atom_set([x.els[0].value for x in alts])
            if len(alts) == 1:
                return self.alt(alts[0])
            start = a.new(BLOCK_START)
            a.decide(start)
            hs = [self.alt(x) for x in alts]
            l, end = a.make_block(start, [(h[0], h[1]) for h in hs])
            return l, end, ("choice", start, [h[2] for h in hs])
        if e.kind == "block":
            alts = e.value
            if len(alts) > 1 and all(len(x.els) == 1 and x.els[0].kind == "tok" and not x.els[0].suffix for x in alts):
                s = El("block", alts)
                alts = [Alt1(s)]
        else:
            one = El(e.kind, e.value)
            one.prec = e.prec
            alts = [Alt1(one)]
        ops = []

        def fn(x):
            h = self.alt(x)
            ops.append(h[2])
            return h[0], h[1]
        l, r, info = loop(a, e, alts, fn)
        if e.suffix == "?":
            return l, r, ("opt", info["start"], ops)
        if e.suffix == "*":
            return l, r, ("star", info["entry"], info["back"], info["start"], ops)
        return l, r, ("plus", info["start"], info["back"], ops)

    # LL(1) analysis ------------------------------------------------------------------------------------------------
    def look(self, s):
        """Lookahead of every alternative of decision state s; None when a predicate is met (as the tool does)."""
        out = []
        for t in self.a.tr[s]:
            res, hit = set(), [False]
            self._look(t[1], (), res, set(), set(), hit)
            out.append(None if hit[0] or not res else res)
        return out

    def _look(self, s, ctx, res, busy, called, hit):
        a = self.a
        if (s, ctx) in busy:
            return
        busy.add((s, ctx))
        if a.states[s][0] == RULE_STOP:
            if ctx:
                rule = a.states[s][1]
                self._look(ctx[-1], ctx[:-1], res, busy, called - {rule}, hit)
                return
            for f in a.follow.get(a.states[s][1], []):
                self._look(f, (), res, busy, called, hit)
            return
        for t in a.tr[s]:
            if t[0] == RULE:
                if t[2] in called:
                    continue
                self._look(a.rule_start[t[2]], ctx + (t[4],), res, busy, called | {t[2]}, hit)
            elif t[0] == PREC:
                hit[0] = True
            elif t[0] == EPS:
                self._look(t[1], ctx, res, busy, called, hit)
            elif t[0] == ATOM:
                res.add(t[2])
            elif t[0] == SET:
                for x, y in a.sets[t[2]]:
                    res.update(range(x, y + 1))

    @staticmethod
    def disjoint(ls):
        if any(x is None for x in ls):
            return False
        seen = set()
        for x in ls:
            if seen & x:
                return False
            seen |= x
        return True

    def finish(self, op):
        """Turns the tree of a rule into the flat program the generated function would run."""
        k = op[0]
        d = self.a.dec_of
        if k == "seq":
            out = [OP_SEQ, len(op[1])]
            for x in op[1]:
                out += self.finish(x)
            return out
        if k == "tok":
            return [OP_TOK, op[1], op[2]]
        if k == "set":
            return [OP_SET, op[1], len(op[2]), *op[2]]
        if k == "call":
            return [OP_CALL, op[1], op[2], op[3]]
        if k == "outer":
            return [OP_OUTER, op[1], op[2]] + self.finish(op[3])
        if k == "primary":
            return [OP_PRIMARY, op[1]] + self.finish(op[2])
        if k == "recalt":
            return [OP_LABEL, op[1]] + self.finish(op[2])
        if k == "precpred":
            return [OP_PRECPRED, op[1], op[2]]
        if k == "rec":
            return [OP_SEQ, 2] + self.finish(op[1]) + self.finish(op[2])
        if k == "recloop":
            _, entry, back, start, alts = op
            out = [OP_RECLOOP, entry, back, d[entry], start, d.get(start, -1), len(alts)]
            for x in alts:
                out += self.sized(x)
            return out
        if k in ("choice", "opt"):
            start, alts = op[1], op[2]
            ls = self.look(start)
            ll1 = self.disjoint(ls)
            out = [{("choice", True): OP_LL1ALT, ("choice", False): OP_ALT, ("opt", True): OP_LL1OPT, ("opt", False): OP_OPT}[(k, ll1)], start, d[start], len(alts)]
            for n, x in enumerate(alts):
                lk = sorted(ls[n]) if ll1 else []
                out += [len(lk), *lk] + self.sized(x)
            return out
        if k == "star":
            _, entry, back, start, alts = op
            ls = self.look(entry)
            if self.disjoint(ls) and len(alts) == 1:
                return [OP_LL1STAR, entry, back, len(ls[0]), *sorted(ls[0])] + self.sized(alts[0])
            out = [OP_STAR, entry, back, d[entry], start, d.get(start, -1), len(alts)]
            for x in alts:
                out += self.sized(x)
            return out
        if k == "plus":
            _, start, back, alts = op
            ls = self.look(back)
            if self.disjoint(ls) and len(alts) == 1:
                return [OP_LL1PLUS, start, back, len(ls[0]), *sorted(ls[0])] + self.sized(alts[0])
            out = [OP_PLUS, start, back, d[back], start, d.get(start, -1), len(alts)]
            for x in alts:
                out += self.sized(x)
            return out
        raise AssertionError(k)

    def sized(self, op):
        p = self.finish(op)
        return [len(p)] + p


# ---- classes the library is compiled against --------------------------------------------------------------------------
def uses(alts):
    """(name, kind, many) of every token and rule mentioned in the alternatives, in order."""
    def count(els):
        c = {}
        for e in els:
            if e.kind in ("tok", "ref"):
                k = (e.value, e.kind)
                c[k] = c.get(k, 0) + (2 if e.suffix in ("*", "+") else 1)
            elif e.kind == "block":
                m = {}
                for x in e.value:
                    for k, v in count(x.els).items():
                        m[k] = max(m.get(k, 0), v)
                for k, v in m.items():
                    c[k] = c.get(k, 0) + (2 * v if e.suffix in ("*", "+") else v)
        return c
    out = {}
    for x in alts:
        for k, v in count(x.els).items():
            out[k] = max(out.get(k, 0), v)
    return [(n, k, v > 1) for (n, k), v in out.items()]


def cap(s):
    return s[0].upper() + s[1:]


def accessors(alts, own):
    o = []
    for n, k, many in uses(alts):
        if k == "tok":
            t = "antlr4::Token::EOF" if n == "EOF" else f"CqasmParser::{n}"
            if many:
                o.append(f"    std::vector<antlr4::tree::TerminalNode*> {n}() {{ return getTokens({t}); }}")
                o.append(f"    antlr4::tree::TerminalNode* {n}(size_t i) {{ return getToken({t}, i); }}")
            else:
                o.append(f"    antlr4::tree::TerminalNode* {n}() {{ return getToken({t}, 0); }}")
        else:
            c = cap(n) + "Context"
            if many:
                o.append(f"    std::vector<{c}*> {n}() {{ return getRuleContexts<{c}>(); }}")
                o.append(f"    {c}* {n}(size_t i) {{ return getRuleContext<{c}>(i); }}")
            else:
                o.append(f"    {c}* {n}() {{ return getRuleContext<{c}>(0); }}")
    return o


def headers(lex, par, ns, lname, pname):
    g = par.g
    vis, fwd = [], []
    for r in g.rules:
        labels = []
        for x in r.alts:
            if x.label and x.label not in labels:
                labels.append(x.label)
        vis += labels or [r.name]
    lh = ["// Generated by the ANTLR stand-in.", "#pragma once", "#include \"antlr4-runtime.h\"", f"namespace {ns} {{", f"class {lname} : public antlr4::Lexer {{", "public:",
          "    enum { " + ", ".join(f"{n} = {t}" for n, t in lex.types.items()) + " };",
          f"    explicit {lname}(antlr4::CharStream* input) : antlr4::Lexer(input) {{}}", "};", f"}}  // namespace {ns}"]
    ph = ["// Generated by the ANTLR stand-in.", "#pragma once", "#include \"antlr4-runtime.h\"", f"namespace {ns} {{", f"class {pname}Visitor;", f"class {pname} : public antlr4::Parser {{", "public:",
          "    enum { " + ", ".join(f"{n} = {t}" for n, t in lex.types.items()) + " };",
          "    enum { " + ", ".join(f"Rule{cap(r.name)} = {i}" for i, r in enumerate(g.rules)) + " };",
          f"    explicit {pname}(antlr4::TokenStream* input);"]
    for r in g.rules:
        ph.append(f"    class {cap(r.name)}Context;")
    for r in g.rules:
        labels = []
        for x in r.alts:
            if x.label and x.label not in labels:
                labels.append(x.label)
        c = cap(r.name) + "Context"
        ph.append(f"    class {c} : public antlr4::ParserRuleContext {{\n    public:\n        using antlr4::ParserRuleContext::ParserRuleContext;")
        ph.append(f"        size_t getRuleIndex() const override {{ return Rule{cap(r.name)}; }}")
        if not labels:
            ph += ["    " + x for x in accessors(r.alts, r.name)]
            ph.append("        std::any accept(antlr4::tree::ParseTreeVisitor* visitor) override;")
        ph.append("    };")
        for lb in labels:
            ph.append(f"    class {cap(lb)}Context : public {c} {{\n    public:\n        using {c}::{c};")
            ph += ["    " + x for x in accessors([x for x in r.alts if x.label == lb], r.name)]
            ph.append("        std::any accept(antlr4::tree::ParseTreeVisitor* visitor) override;\n    };")
    first = g.rules[0].name
    for i, r in enumerate(g.rules):
        ph.append(f"    {cap(r.name)}Context* {r.name}() {{ return static_cast<{cap(r.name)}Context*>(runRule({i})); }}")
    ph += ["};", f"}}  // namespace {ns}"]
    vh = ["// Generated by the ANTLR stand-in.", "#pragma once", "#include \"antlr4-runtime.h\"", f"#include \"libqasm/v3x/{pname}.h\"", f"namespace {ns} {{", f"class {pname}Visitor : public antlr4::tree::AbstractParseTreeVisitor {{", "public:"]
    for v in vis:
        vh.append(f"    virtual std::any visit{cap(v)}({pname}::{cap(v)}Context* context) = 0;")
    vh += ["};", f"}}  // namespace {ns}"]
    return "\n".join(lh) + "\n", "\n".join(ph) + "\n", "\n".join(vh) + "\n", vis


def main():
    lg, pg, out, ns = G4(open(sys.argv[1]).read()), G4(open(sys.argv[2]).read()), sys.argv[3], sys.argv[4]
    lex = LexerBuilder(lg)
    par = ParserBuilder(pg, lex.types)
    ntok = len(lex.types)
    literal = {}
    dup = set()
    for r in lg.rules:
        if not r.fragment and len(r.alts) == 1 and len(r.alts[0].els) == 1 and r.alts[0].els[0].kind == "lit" and not r.alts[0].els[0].suffix:
            lit = r.alts[0].els[0].value
            if lit in literal.values():
                dup.add(lit)
            literal[r.name] = lit
    literal = {k: v for k, v in literal.items() if v not in dup}

    def quote(s):
        return "'" + s.replace("\\", "\\\\").replace("'", "\\'").replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t") + "'"
    display = ["<INVALID>"] + [quote(literal[n]) if n in literal else n for n in lex.types]
    lh, ph, vh, vis = headers(lex, par, ns, lg.name, pg.name)
    inc = os.path.join(out, "libqasm", "v3x")
    os.makedirs(inc, exist_ok=True)

    def put(path, text):
        with open(path, "w") as f:
            f.write(text)
    put(os.path.join(inc, lg.name + ".h"), lh)
    put(os.path.join(inc, pg.name + ".h"), ph)
    put(os.path.join(inc, pg.name + "Visitor.h"), vh)

    def ints(name, xs):
        return f"static const int {name}[] = {{{','.join(map(str, xs))}}};\nstatic const size_t {name}_n = {len(xs)};\n"
    prog, offs = [], []
    for p in par.prog:
        offs.append(len(prog))
        prog += p
    esc = lambda s: '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r") + '"'
    text = "// Generated by the ANTLR stand-in.\n"
    text += ints("lexer_atn", lex.a.serialise(ntok)) + ints("parser_atn", par.a.serialise(ntok)) + ints("rule_prog", prog) + ints("rule_prog_at", offs)
    text += ints("rule_leftrec", [1 if r.leftrec else 0 for r in pg.rules])
    text += "static const char* const token_display[] = {" + ", ".join(esc(x) for x in display) + "};\n"
    text += "static const char* const rule_names[] = {" + ", ".join(esc(r.name) for r in pg.rules) + "};\n"
    put(os.path.join(out, "antlr_tables.inc"), text)
    # glue: contexts by rule and by label, and accept
    c = [f'#include "libqasm/v3x/{pg.name}.h"', f'#include "libqasm/v3x/{pg.name}Visitor.h"', f"namespace {ns} {{", f"using P = {pg.name};"]
    for r in pg.rules:
        for x in ([v for v in dict.fromkeys(a.label for a in r.alts)] if r.alts[0].label else [r.name]):
            c.append(f"std::any P::{cap(x)}Context::accept(antlr4::tree::ParseTreeVisitor* v) {{ return dynamic_cast<{pg.name}Visitor&>(*v).visit{cap(x)}(this); }}")
    c.append("static antlr4::ParserRuleContext* make_rule(size_t r) {\n    switch (r) {")
    for i, r in enumerate(pg.rules):
        c.append(f"    case {i}: return new P::{cap(r.name)}Context();")
    c.append("    }\n    return nullptr;\n}\nstatic antlr4::ParserRuleContext* make_label(size_t l) {\n    switch (l) {")
    for i, (lb, _) in enumerate(par.labels):
        c.append(f"    case {i}: return new P::{cap(lb)}Context();")
    c.append("    }\n    return nullptr;\n}")
    c.append(f"P::{pg.name}(antlr4::TokenStream* input) : antlr4::Parser(input, &make_rule, &make_label) {{}}")
    c.append(f"}}  // namespace {ns}")
    put(os.path.join(out, "antlr_glue.cpp"), "\n".join(c) + "\n")
    if len(sys.argv) > 5:  # for the comparison with ANTLR's own Java runtime
        with open(sys.argv[5], "w") as f:
            for name, xs in (("lexer", lex.a.serialise(ntok)), ("parser", par.a.serialise(ntok)), ("prog", prog), ("at", offs), ("leftrec", [1 if r.leftrec else 0 for r in pg.rules])):
                f.write(name + " " + " ".join(map(str, xs)) + "\n")
            f.write("display " + " ".join(x.replace(" ", "\u00a0") for x in display) + "\n")
            f.write("modes " + " ".join(lg.modes) + "\n")
            f.write("lrules " + " ".join(r.name for r in lg.rules) + "\n")
            f.write("prules " + " ".join(r.name for r in pg.rules) + "\n")


if __name__ == "__main__":
    main()

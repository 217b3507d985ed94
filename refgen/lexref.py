#!/usr/bin/env python3
"""Reference automata of scan.l, one per start condition, by following flex's rules (independent of /repo's
generator): lexref.py scan.l out.rs. Byte 0 stands for the end of the input, as in /repo.
The accepted rule is numbered as in scan.l; rules whose action is `|` count as the rule after them."""
import re, sys


def lines_of(path):
    return open(path, encoding="utf-8", errors="surrogateescape").read().split("\n")


def parse_file(path):
    ls = lines_of(path)
    defs, starts, rules = {}, ["INITIAL"], []
    i, incode = 0, False
    while not ls[i].startswith("%%"):
        l = ls[i]
        if incode:
            incode = not l.startswith("%}")
        elif l.startswith("%{") or l.startswith("%top{"):
            incode = l.startswith("%{")
            if not incode:
                while not ls[i].startswith("}"):
                    i += 1
        elif l.startswith("%x "):
            starts.append(l[3:].strip())
        elif l.startswith("/*"):
            while "*/" not in ls[i]:
                i += 1
        elif re.match(r"[A-Za-z_]", l):
            m = re.match(r"([A-Za-z_][\w]*)[ \t]+(.*?)\s*$", l)
            if m:
                defs[m.group(1)] = m.group(2)
        i += 1
    i += 1
    group = None
    while i < len(ls) and not ls[i].startswith("%%"):
        l = ls[i]
        if not l.strip() or l[0] in " \t":
            i += 1
            continue
        if group is not None and l.startswith("}"):
            group = None
            i += 1
            continue
        sc = group or ["INITIAL"]
        if l.startswith("<") and not l.startswith("<<"):
            e = l.index(">")
            sc = l[1:e].split(",")
            l = l[e + 1 :]
            if l.strip() == "{":
                group = sc
                i += 1
                continue
        # the pattern ends at the first white space outside quotes and brackets
        j, q, b = 0, False, False
        while j < len(l):
            c = l[j]
            if c == "\\":
                j += 2
                continue
            if q:
                q = c != '"'
            elif b:
                b = c != "]"
            elif c == '"':
                q = True
            elif c == "[":
                b = True
            elif c in " \t":
                break
            j += 1
        pat, act = l[:j], l[j:]
        if act.strip() == "|":
            rules.append((sc, pat, True))
            i += 1
            continue
        rules.append((sc, pat, False))
        depth = 0
        while True:
            # braces of the action; those in literals and comments are balanced in scan.l
            depth += act.count("{") - act.count("}")
            i += 1
            if depth <= 0:
                break
            act = ls[i]
    return defs, starts, rules


class NFA:
    def __init__(self):
        self.eps, self.tr = [], []

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1


ALL = ((1 << 256) - 1) & ~1  # no pattern but <<EOF>> matches the end of the input


class Pat:
    def __init__(self, text, defs):
        self.s, self.i, self.defs = text.encode("utf-8", "surrogateescape"), 0, defs

    def peek(self):
        return self.s[self.i : self.i + 1]

    def esc(self):
        c = self.s[self.i : self.i + 1]
        self.i += 1
        t = {b"a": 7, b"b": 8, b"f": 12, b"n": 10, b"r": 13, b"t": 9, b"v": 11}
        if c in t:
            return t[c]
        if c == b"x":
            m = re.match(rb"[0-9a-fA-F]{1,2}", self.s[self.i :])
            self.i += m.end()
            return int(m.group(), 16)
        if c in b"01234567":
            m = re.match(rb"[0-7]{1,3}", self.s[self.i - 1 :])
            self.i += m.end() - 1
            return int(m.group(), 8)
        return c[0]

    def cls(self):
        neg = self.peek() == b"^"
        if neg:
            self.i += 1
        m = 0
        first = True
        while first or self.peek() != b"]":
            first = False
            lo = self.one()
            if self.peek() == b"-" and self.s[self.i + 1 : self.i + 2] != b"]":
                self.i += 1
                hi = self.one()
            else:
                hi = lo
            for k in range(lo, hi + 1):
                m |= 1 << k
        self.i += 1
        return ALL & ~m if neg else m

    def one(self):
        c = self.s[self.i]
        self.i += 1
        return self.esc() if c == 92 else c

    def alt(self):
        a = [self.cat()]
        while self.peek() == b"|":
            self.i += 1
            a.append(self.cat())
        return a[0] if len(a) == 1 else ("alt", a)

    def cat(self):
        r = []
        while self.i < len(self.s) and self.peek() not in (b"|", b")"):
            r.append(self.rep())
        return ("cat", r)

    def rep(self):
        x = self.atom()
        while True:
            c = self.peek()
            if c == b"*":
                x = ("star", x)
            elif c == b"+":
                x = ("cat", [x, ("star", x)])
            elif c == b"?":
                x = ("alt", [x, ("cat", [])])
            elif re.match(rb"\{\d+(,\d*)?\}", self.s[self.i :]):
                m = re.match(rb"\{(\d+)(,(\d*))?\}", self.s[self.i :])
                lo = int(m.group(1))
                self.i += m.end() - 1
                if m.group(2) is None:
                    x = ("cat", [x] * lo)
                elif not m.group(3):
                    x = ("cat", [x] * lo + [("star", x)])
                else:
                    x = ("cat", [x] * lo + [("alt", [x, ("cat", [])])] * (int(m.group(3)) - lo))
            else:
                return x
            self.i += 1

    def atom(self):
        c = self.peek()
        self.i += 1
        if c == b"(":
            x = self.alt()
            assert self.peek() == b")"
            self.i += 1
            return x
        if c == b"[":
            return ("set", self.cls())
        if c == b".":
            return ("set", ALL & ~(1 << 10))
        if c == b'"':
            r = []
            while self.peek() != b'"':
                r.append(("set", 1 << self.one()))
            self.i += 1
            return ("cat", r)
        if c == b"{":
            e = self.s.index(b"}", self.i)
            n = self.s[self.i : e].decode()
            self.i = e + 1
            return Pat(self.defs[n], self.defs).whole()
        if c == b"\\":
            return ("set", 1 << self.esc())
        return ("set", 1 << c[0])

    def whole(self):
        x = self.alt()
        assert self.i == len(self.s), self.s
        return x


def build(n, x, a, b):
    k = x[0]
    if k == "set":
        n.tr[a].append((x[1], b))
    elif k == "alt":
        for y in x[1]:
            build(n, y, a, b)
    elif k == "cat":
        for y in x[1]:
            m = n.new()
            build(n, y, a, m)
            a = m
        n.eps[a].append(b)
    else:
        m = n.new()
        n.eps[a].append(m)
        build(n, x[1], m, m2 := n.new())
        n.eps[m2].append(m)
        n.eps[m].append(b)


def dfa(rules, defs):
    n = NFA()
    start, acc = n.new(), {}
    for idx, pat in rules:
        e = n.new()
        s = n.new()
        n.eps[start].append(s)
        build(n, ("set", 1) if pat == "<<EOF>>" else Pat(pat, defs).whole(), s, e)
        acc[e] = idx

    def close(ss):
        st, seen = list(ss), set(ss)
        while st:
            for y in n.eps[st.pop()]:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return frozenset(seen)

    # bytes no set tells apart
    sets = sorted({m for t in n.tr for m, _ in t})
    classes = {}
    for c in range(256):
        classes.setdefault(tuple(m >> c & 1 for m in sets), []).append(c)
    order, ids, rows = [close([start])], {}, []
    ids[order[0]] = 0
    for cur in order:
        row = [0xFFFF] * 256
        for cl in classes.values():
            t = {y for x in cur for m, y in n.tr[x] if m >> cl[0] & 1}
            if not t:
                continue
            t = close(t)
            if t not in ids:
                ids[t] = len(order)
                order.append(t)
            for c in cl:
                row[c] = ids[t]
        rows.append(row)
    return rows, [min([acc[x] for x in s if x in acc], default=0xFFFF) for s in order]


def main():
    defs, starts, rules = parse_file(sys.argv[1])
    action = list(range(len(rules)))
    for i in range(len(rules) - 2, -1, -1):
        if rules[i][2]:
            action[i] = action[i + 1]
    o = ["/// rule -> the rule whose action it has", "pub static LEX_ACTION: &[u16] = &%s;" % action]
    o.append("pub static LEX_STARTS: &[&str] = &[%s];" % ",".join('"%s"' % s for s in starts))
    o.append("pub static LEX_DFA: &[(&[[u16; 256]], &[u16])] = &[")
    for s in starts:
        rows, acc = dfa([(i, p) for i, (sc, p, _) in enumerate(rules) if s in sc], defs)
        o.append("(&[%s],&%s)," % (",".join("[%s]" % ",".join(map(str, r)) for r in rows), acc))
    o.append("];")
    open(sys.argv[2], "w").write("\n".join(o) + "\n")


main()

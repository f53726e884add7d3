"""Symbolic matching of CPython regular expressions.

The pattern is parsed by CPython's own `re._parser`; the resulting tree is
matched against a sequence of symbolic characters with the backtracking order
of `sre`.  Every one-character test becomes a domain mask obtained by running
the real `re` compiler on that single node, so character-class semantics
(categories, IGNORECASE, ranges, negation) are CPython's own.  The matcher
enumerates successful matches in priority order as (end, groups, condition);
the caller forks on the conditions in that order, merging neighbours that
produce the same captures."""
import re
from re import _parser, _compiler, _constants as K
from .core import ENG, DOM, NDOM, FULL, t_and, t_or, t_not, t_unary, T, F, EngineError
from .values import (SymStr, SChar, mk_str, elems, elem_eq, is_strlike, SYM, SymInt,
                     str_join, _PRED_CACHE)

FLAGMASK = re.I | re.A | re.U | re.M | re.S | re.L
_MASKS = {}
_CHARS = {}


def node_regex(node, flags):
    key = (repr(node), flags & (re.I | re.A | re.U | re.S))
    r = _MASKS.get(key)
    if r is None:
        st = _parser.State()
        st.flags = key[1]
        st.str = ""
        sp = _parser.SubPattern(st, [node])
        r = _compiler.compile(sp, key[1])
        _MASKS[key] = r
    return key, r


def node_mask(node, flags, table):
    key, r = node_regex(node, flags)
    k2 = (key, table)
    m = _CHARS.get(k2)
    if m is None:
        m = 0
        src = DOM if table is None else table
        for i in range(NDOM):
            if r.match(chr(src[i])):
                m |= 1 << i
        _CHARS[k2] = m
    return m


def node_char(node, flags, cp):
    key, r = node_regex(node, flags)
    k2 = (key, cp)
    m = _CHARS.get(k2)
    if m is None:
        m = _CHARS[k2] = bool(r.match(chr(cp)))
    return m


class _S(object):
    """constraint environment of one enumeration branch"""
    __slots__ = ("env", "extra")

    def __init__(self, env, extra):
        self.env = env
        self.extra = extra

    def need(self, var, mask):
        cur = self.env.get(var)
        if cur is None:
            cur = ENG.dom.get(var, var.dom0)
        new = cur & mask
        if new == 0:
            return None
        if new == cur:
            return self
        e = dict(self.env)
        e[var] = new
        return _S(e, self.extra)

    def need_tree(self, t):
        k = t[0]
        if k == "T":
            return self
        if k == "F":
            return None
        if k == "u":
            return self.need(t[1], t[2])
        if k == "and":
            s = self
            for x in t[1]:
                s = s.need_tree(x)
                if s is None:
                    return None
            return s
        # decide by env where possible
        r = ENG.dom_decide(t)
        if r is True:
            return self
        if r is False:
            return None
        return _S(self.env, self.extra + (t,))

    def tree(self):
        items = [t_unary(v, m) for v, m in self.env.items()]
        items.extend(self.extra)
        return t_and(items)


EMPTY = _S({}, ())


def _single(op):
    return op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN)


class Matcher(object):
    def __init__(self, tree, flags, ngroups):
        self.tree = tree
        self.flags = flags
        self.steps = 0

    # one-character test; returns new state or None
    def one(self, node, flags, cs, pos, st):
        c = cs[pos]
        if c.__class__ is int:
            return st if node_char(node, flags, c) else None
        return st.need(c.var, node_mask(node, flags, c.table))

    def seq(self, nodes, i, flags, cs, pos, g, st, k):
        self.steps += 1
        if self.steps > 2000000:
            raise EngineError("regex enumeration too large")
        n = len(nodes)
        while i < n:
            op, av = nodes[i]
            if op is K.LITERAL or op is K.NOT_LITERAL or op is K.ANY or op is K.IN:
                if pos >= len(cs):
                    return
                st = self.one(nodes[i], flags, cs, pos, st)
                if st is None:
                    return
                pos += 1
                i += 1
                continue
            if op is K.AT:
                done = False
                for st2 in self.at(av, flags, cs, pos, st):
                    if st2 is st:
                        done = True
                        break
                    yield from self.seq(nodes, i + 1, flags, cs, pos, g, st2, k)
                else:
                    return
                if done:
                    i += 1
                    continue
                return
            if op is K.MAX_REPEAT or op is K.MIN_REPEAT:
                lo, hi, sub = av
                if hi is K.MAXREPEAT:
                    hi = 1 << 30
                nxt = lambda p, gg, s, i=i: self.seq(nodes, i + 1, flags, cs, p, gg, s, k)
                if len(sub) == 1 and _single(sub[0][0]):
                    yield from self.rep1(sub[0], flags, lo, hi, op is K.MAX_REPEAT, cs, pos, g, st, nxt)
                else:
                    yield from self.rep(sub, flags, lo, hi, op is K.MAX_REPEAT, 0, -1, cs, pos, g, st, nxt)
                return
            if op is K.POSSESSIVE_REPEAT:
                lo, hi, sub = av
                if hi is K.MAXREPEAT:
                    hi = 1 << 30
                last = lambda p, gg, s: iter(((p, gg, s),))
                inner = self.rep(sub, flags, lo, hi, True, 0, -1, cs, pos, g, EMPTY, last)
                yield from self.atomic(inner, st, lambda p, gg, s, i=i: self.seq(nodes, i + 1, flags, cs, p, gg, s, k))
                return
            if op is K.SUBPATTERN:
                group, add, dele, p = av
                f2 = (flags | add) & ~dele
                if group is None:
                    yield from self.seq(p, 0, f2, cs, pos, g, st,
                                        lambda e, gg, s, i=i: self.seq(nodes, i + 1, flags, cs, e, gg, s, k))
                else:
                    def close(e, gg, s, i=i, pos=pos):
                        g2 = dict(gg)
                        g2[group] = (pos, e)
                        return self.seq(nodes, i + 1, flags, cs, e, g2, s, k)
                    yield from self.seq(p, 0, f2, cs, pos, g, st, close)
                return
            if op is K.BRANCH:
                for alt in av[1]:
                    yield from self.seq(alt, 0, flags, cs, pos, g, st,
                                        lambda e, gg, s, i=i: self.seq(nodes, i + 1, flags, cs, e, gg, s, k))
                return
            if op is K.GROUPREF:
                if av not in g:
                    return
                b, e = g[av]
                ln = e - b
                if pos + ln > len(cs):
                    return
                for x, y in zip(cs[b:e], cs[pos:pos + ln]):
                    if flags & re.I:
                        raise EngineError("case-insensitive back reference")
                    st = st.need_tree(elem_eq(x, y))
                    if st is None:
                        return
                pos += ln
                i += 1
                continue
            if op is K.GROUPREF_EXISTS:
                cond, yes, no = av
                br = yes if cond in g else no
                if br is None:
                    i += 1
                    continue
                yield from self.seq(br, 0, flags, cs, pos, g, st,
                                    lambda e, gg, s, i=i: self.seq(nodes, i + 1, flags, cs, e, gg, s, k))
                return
            if op is K.ASSERT or op is K.ASSERT_NOT:
                direction, p = av
                start = pos
                dead = False
                if direction < 0:
                    lo, hi = p.getwidth()
                    start = pos - lo
                    if start < 0:
                        dead = True
                last = lambda e, gg, s: iter(((e, gg, s),))
                inner = [] if dead else self.seq(p, 0, flags, cs, start, g, EMPTY, last)
                if op is K.ASSERT:
                    yield from self.atomic(inner, st, lambda e, gg, s, i=i, pos=pos: self.seq(nodes, i + 1, flags, cs, pos, gg, s, k))
                    return
                conds = []
                for (e, gg, s) in inner:
                    t = s.tree()
                    if t[0] == "T":
                        return
                    conds.append(t)
                st = st.need_tree(t_not(t_or(conds)))
                if st is None:
                    return
                i += 1
                continue
            if op is K.ATOMIC_GROUP:
                last = lambda e, gg, s: iter(((e, gg, s),))
                inner = self.seq(av, 0, flags, cs, pos, g, EMPTY, last)
                yield from self.atomic(inner, st, lambda e, gg, s, i=i: self.seq(nodes, i + 1, flags, cs, e, gg, s, k))
                return
            if op is K.FAILURE:
                return
            raise EngineError("regex op %s" % op)
        yield from k(pos, g, st)

    def atomic(self, inner, st, nxt):
        """commit to the first successful inner outcome"""
        neg = []
        for (e, gg, s) in inner:
            t = s.tree()
            st2 = st.need_tree(t)
            for q in neg:
                if st2 is None:
                    break
                st2 = st2.need_tree(t_not(q))
            if st2 is not None:
                yield from nxt(e, gg, st2)
            if t[0] == "T":
                return
            neg.append(t)

    def rep1(self, node, flags, lo, hi, greedy, cs, pos, g, st, nxt):
        n = len(cs)
        # states[j] = state after consuming j characters
        states = [st]
        j = 0
        while j < hi and pos + j < n:
            if not greedy and j >= lo:
                break
            s2 = self.one(node, flags, cs, pos + j, states[-1])
            if s2 is None:
                break
            states.append(s2)
            j += 1
        if greedy:
            for j in range(len(states) - 1, lo - 1, -1):
                yield from nxt(pos + j, g, states[j])
        else:
            if len(states) - 1 < lo:
                return
            j = lo
            s = states[lo]
            while True:
                yield from nxt(pos + j, g, s)
                if j >= hi or pos + j >= n:
                    return
                s = self.one(node, flags, cs, pos + j, s)
                if s is None:
                    return
                j += 1

    def rep(self, sub, flags, lo, hi, greedy, count, lastpos, cs, pos, g, st, nxt):
        def again(e, gg, s):
            if e == pos and count >= lo:
                return iter(())      # zero width iteration makes no progress
            return self.rep(sub, flags, lo, hi, greedy, count + 1, pos, cs, e, gg, s, nxt)
        if count < lo:
            yield from self.seq(sub, 0, flags, cs, pos, g, st, again)
            return
        if greedy:
            if count < hi:
                yield from self.seq(sub, 0, flags, cs, pos, g, st, again)
            yield from nxt(pos, g, st)
        else:
            yield from nxt(pos, g, st)
            if count < hi:
                yield from self.seq(sub, 0, flags, cs, pos, g, st, again)

    def at(self, av, flags, cs, pos, st):
        n = len(cs)
        if av is K.AT_BEGINNING or av is K.AT_BEGINNING_STRING:
            if pos == 0:
                yield st
            elif av is K.AT_BEGINNING and flags & re.M:
                s = st.need_tree(elem_eq(cs[pos - 1], 10))
                if s is not None:
                    yield s
            return
        if av is K.AT_END or av is K.AT_END_STRING:
            if pos == n:
                yield st
                return
            if av is K.AT_END_STRING:
                return
            if flags & re.M or pos == n - 1:
                s = st.need_tree(elem_eq(cs[pos], 10))
                if s is not None:
                    yield s
            return
        if av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            node = (K.IN, [(K.CATEGORY, K.CATEGORY_WORD)])
            nnode = (K.IN, [(K.NEGATE, None), (K.CATEGORY, K.CATEGORY_WORD)])
            want = av is K.AT_BOUNDARY
            combos = ((1, 0), (0, 1)) if want else ((1, 1), (0, 0))
            if n == 0:
                if not want and False:
                    yield st
                return
            for a, b in combos:
                s = st
                if pos == 0:
                    if a:
                        continue
                else:
                    s = self.one(node if a else nnode, flags, cs, pos - 1, s)
                if s is not None:
                    if pos == n:
                        if b:
                            continue
                    else:
                        s = self.one(node if b else nnode, flags, cs, pos, s)
                if s is not None:
                    yield s
                    if s is st:
                        return
            return
        raise EngineError("regex AT %s" % av)


_TREES = {}


def tree_for(pat):
    if isinstance(pat, SymPattern):
        return pat.tree
    key = (pat.pattern, pat.flags)
    t = _TREES.get(key)
    if t is None:
        t = _TREES[key] = _parser.parse(pat.pattern, pat.flags)
    return t


class SymPattern(object):
    """pattern whose text is (partly) symbolic, parsed by the instrumented
    copy of re._parser"""

    def __init__(self, pattern, flags, tree):
        self.pattern = pattern
        self.tree = tree
        self.flags = tree.state.flags
        self.groups = tree.state.groups - 1
        self.groupindex = dict(tree.state.groupdict)


class SymMatch(object):
    def __init__(self, pat, string, cs, start, end, groups, pos, endpos):
        self.re = pat
        self.string = string
        self._cs = cs
        self._g = groups
        self._s = start
        self._e = end
        self.pos = pos
        self.endpos = endpos

    def _idx(self, i):
        if isinstance(i, (str, SymStr)):
            from . import models
            try:
                return models.getitem(self.re.groupindex, i)
            except KeyError:
                raise IndexError("no such group")
        i = int(i)
        if i < 0 or i > self.re.groups:
            raise IndexError("no such group")
        return i

    def span(self, i=0):
        i = self._idx(i)
        if i == 0:
            return (self._s, self._e)
        return self._g.get(i, (-1, -1))

    def start(self, i=0):
        return self.span(i)[0]

    def end(self, i=0):
        return self.span(i)[1]

    def _one(self, i, default=None):
        b, e = self.span(i)
        if b < 0:
            return default
        return mk_str(self._cs[b:e])

    def group(self, *idx):
        if not idx:
            idx = (0,)
        r = tuple(self._one(i) for i in idx)
        return r[0] if len(r) == 1 else r

    def __getitem__(self, i):
        return self._one(i)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(i, default) for k, i in self.re.groupindex.items()}

    @property
    def lastindex(self):
        best = None
        for i, (b, e) in self._g.items():
            if best is None or e >= self._g[best][1]:
                best = i
        return best

    def expand(self, template):
        return expand(self, template)

    def __bool__(self):
        return True

    def __deepcopy__(self, memo):
        return self


def _run(pat, string, start, endpos, mode, must_advance=False):
    """mode: 'match' | 'search' | 'full'; returns SymMatch or None (forks)"""
    cs = elems(string)
    n = len(cs)
    if endpos is not None:
        cs2 = cs[:max(0, min(endpos, n))]
    else:
        cs2 = cs
    tree = tree_for(pat)
    flags = tree.state.flags | (pat.flags if isinstance(pat.flags, int) else 0)
    m = Matcher(tree, flags, pat.groups)
    start = max(0, start)
    if start > len(cs2):
        return None
    starts = range(start, len(cs2) + 1) if mode == "search" else (start,)
    last = lambda p, g, s: iter(((p, g, s),))
    for b in starts:
        pend = None
        for (e, g, s) in m.seq(tree, 0, flags, cs2, b, {}, EMPTY, last):
            if mode == "full" and e != len(cs2):
                continue
            if must_advance and b == start and e == b:
                continue
            t = s.tree()
            if pend is not None and pend[0] == e and pend[1] == g:
                pend[2].append(t)
            else:
                if pend is not None:
                    if ENG.fork(t_or(pend[2])):
                        return SymMatch(pat, string, cs, b, pend[0], pend[1], start, len(cs2))
                pend = [e, g, [t]]
            if t[0] == "T":
                break
        if pend is not None and ENG.fork(t_or(pend[2])):
            return SymMatch(pat, string, cs, b, pend[0], pend[1], start, len(cs2))
    return None


def search(pat, string, pos=0, endpos=None):
    return _run(pat, string, pos, endpos, "search")


def match(pat, string, pos=0, endpos=None):
    return _run(pat, string, pos, endpos, "match")


def fullmatch(pat, string, pos=0, endpos=None):
    return _run(pat, string, pos, endpos, "full")


def finditer(pat, string, pos=0, endpos=None):
    cs = elems(string)
    p = pos
    must = False
    while p <= len(cs):
        m = _run(pat, string, p, endpos, "search", must)
        if m is None:
            return
        yield m
        must = m._e == m._s
        p = m._e


def findall(pat, string, pos=0, endpos=None):
    out = []
    for m in finditer(pat, string, pos, endpos):
        if pat.groups == 0:
            out.append(m.group())
        elif pat.groups == 1:
            out.append(m._one(1, ""))
        else:
            out.append(m.groups(""))
    return out


def split(pat, string, maxsplit=0):
    cs = elems(string)
    out = []
    b = 0
    for m in finditer(pat, string):
        if maxsplit and len(out) // (pat.groups + 1) >= maxsplit:
            break
        out.append(mk_str(cs[b:m._s]))
        out.extend(m.groups())
        b = m._e
    out.append(mk_str(cs[b:]))
    return out


class _FakePat(object):
    pass


def expand(m, template):
    if isinstance(template, SymStr):
        # symbolic replacement text: fork on the presence of a backslash
        for c in template.cs:
            if ENG.fork(elem_eq(c, 92)):
                raise EngineError("symbolic replacement template with backslash")
        return template
    if "\\" not in template:
        return template
    parsed = _parser.parse_template(template, m.re) if not isinstance(m.re, SymPattern) else \
        _parser.parse_template(template, m.re)
    out = []
    if isinstance(parsed, list):
        for x in parsed:
            if isinstance(x, int):
                v = m._one(x, "")
                out.extend(elems(v))
            elif x:
                out.extend(elems(x))
        return mk_str(out)
    raise EngineError("re template format")


def subn(pat, repl, string, count=0):
    cs = elems(string)
    out = []
    b = 0
    n = 0
    for m in finditer(pat, string):
        if count and n >= count:
            break
        out.extend(cs[b:m._s])
        r = repl(m) if callable(repl) else expand(m, repl)
        if r is not None:
            out.extend(elems(r))
        b = m._e
        n += 1
    out.extend(cs[b:])
    return mk_str(out), n


def sub(pat, repl, string, count=0):
    return subn(pat, repl, string, count)[0]


_SPECIAL = "".join(chr(c) for c in re._special_chars_map)


def escape(s):
    out = []
    for c in elems(s):
        if isinstance(c, int):
            out.extend(map(ord, re.escape(chr(c))))
        else:
            from .values import elem_in
            if ENG.fork(elem_in(c, _SPECIAL)):
                out.append(92)
            out.append(c)
    return mk_str(out)

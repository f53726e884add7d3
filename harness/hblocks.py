"""Block reference: which line goes to which record, from the documentation."""


# shape: name, start keys [(key, var or None)], values [(key, var, join)], end key, children
def template_of(sh, checks=None):
    """checks: {variable: text added after it}"""
    checks = checks or {}
    name, starts, vals, end, children = sh
    out = ['<group name="%s">' % name]
    for k, v in starts:
        if v is None:
            out.append("%s {{ _start_ }}" % k)
        else:
            out.append("%s {{ %s%s | _start_ }}" % (k, v, checks.get(v, "")))
    for k, v, j in vals:
        out.append("%s {{ %s%s%s }}" % (k, v, checks.get(v, ""), ' | joinmatches(",")' if j else ""))
    if end:
        out.append("%s {{ _end_ }}" % end)
    for c in children:
        out.append(template_of(c, checks))
    out.append("</group>")
    return "\n".join(out)


def keys_of(sh):
    name, starts, vals, end, children = sh
    out = [k for k, v in starts] + [k for k, v, j in vals] + ([end] if end else [])
    for c in children:
        out += keys_of(c)
    return out


class Ref(object):
    """documented block semantics, line by line"""

    def __init__(self, sh):
        self.roles = {}
        self.index(sh, None)
        self.open = []        # [(shape, record)] outermost first
        self.top = []
        self.odd = False
        self.merge_finding = False
        self.last_empty = {}

    def index(self, sh, parent):
        name, starts, vals, end, children = sh
        for k, v in starts:
            self.roles[k] = ("start", sh, v, parent)
        for k, v, j in vals:
            self.roles[k] = ("join" if j else "val", sh, v, parent)
        if end:
            self.roles[end] = ("end", sh, None, parent)
        for c in children:
            self.index(c, sh)

    def depth(self, sh):
        for i, (s, r) in enumerate(self.open):
            if s is sh:
                return i
        return -1

    def line(self, key, val, ok=True):
        role = self.roles.get(key)
        if role is None:
            return
        kind, sh, var, parent = role
        if not ok:
            d = self.depth(sh)
            if kind == "start" and d >= 0:
                self.open = self.open[:d]
            return
        if kind == "start":
            if parent is None:
                self.open = []
                home = self.top
            else:
                d = self.depth(parent)
                if d < 0:
                    if self.open:
                        self.odd = True      # a grandchild without its parent: not specified
                    return
                self.open = self.open[:d + 1]
                prec = self.open[d][1]
                cname = sh[0].rstrip("*")
                if cname not in prec:
                    prec[cname] = []
                home = prec[cname]
            rec = {}
            if var is not None:
                rec[var] = val
            home.append(rec)
            self.open.append((sh, rec))
            return
        d = self.depth(sh)
        if d < 0:
            return
        if kind == "end":
            self.open = self.open[:d]
            return
        closed = d + 1 < len(self.open)
        self.open = self.open[:d + 1]
        rec = self.open[d][1]
        if kind == "val":
            if var in rec:
                return               # first match wins
            rec[var] = val
        else:
            rec[var] = rec[var] + "," + val if var in rec else val


def prune(recs, sh):
    """records with nothing in them are not kept"""
    out = []
    for r in recs:
        for c in sh[4]:
            n = c[0].rstrip("*")
            if n in r:
                r[n] = prune(r[n], c)
        if len(r):
            out.append(r)
    return out

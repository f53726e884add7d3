"""P17: parsing in several processes gives the results of parsing in one."""
from hlib import *
import sys

from ttp import ttp as Parser
T = sys.modules["ttp.ttp"]

COVERS = ["several workers", "one worker", "out of order", "idle worker", "chosen by size", "many items"]
BOUNDS = {
    "quick": "1-3 workers, 2-3 data items of 2-3 lines with arbitrary values in 1-2 inputs and 1-2 templates; every assignment of items to workers and every order in which results arrive; 9 templates (defaults, joins, nested and dynamic groups, "
             "lookups, variables, getters, macros, registered functions of every scope beside built-in ones, input functions and selections, group outputs); 12-23 items on 2-8 workers in three orders of arrival",
    "thorough": "up to 4 data items; 105 items on 4 workers",
}
ASSUMPTIONS = ["a worker process is run in this process to its end, on the items assigned to it; queues deliver every item once, unchanged; results of one worker arrive in the order it sent them (multiprocessing itself is not encoded)"]
NL = "\n"


# --------------------------------------------- processes under a chosen schedule
class Sched(object):
    t = None
    cpus = 1
    few = False           # many items: a few schedules only


class Tasks(object):
    """stands for JoinableQueue"""

    def __init__(self, *a, **k):
        self.items = []
        self.workers = []
        self.current = None
        self.open = 0
        Tasks.last = self

    def put(self, x):
        self.items.append(x)
        self.open += 1

    def get(self, *a, **k):
        return self.current.pop(0)

    def task_done(self):
        self.open -= 1

    def join(self):
        run_all(self)


class Results(object):
    """stands for Queue"""

    def __init__(self, *a, **k):
        self.items = []
        Results.last = self

    def put(self, x):
        self.items.append(x)

    def get(self, *a, **k):
        return self.items.pop(0)

    def empty(self):
        return not self.items


def start(self):
    self.task_queue.workers.append(self)


def modules():
    return [m for n, m in list(sys.modules.items()) if n.startswith("ttp.") and hasattr(m, "_ttp_")]


def run_all(q):
    """run every worker on the items that the schedule gives to it"""
    t = Sched.t
    jobs = [i for i in q.items if i is not None]
    pills = len(q.items) - len(jobs)
    t.check(pills >= len(q.workers), "every worker is told to stop")
    share = [[] for w in q.workers]
    for i, j in enumerate(jobs):
        share[i % len(q.workers) if Sched.few else t.choice("worker%d" % i, list(range(len(q.workers))))].append(j)
    done = []
    saved = [(m, m._ttp_) for m in modules()]
    for w, s in zip(q.workers, share):
        q.current = s + [None]
        # the others put results in the same queue: keep those of this worker apart
        w.results_queue.items = []
        w.run()
        done.append(w.results_queue.items)
        for m, x in saved:
            m._ttp_ = x
        if not s:
            t.cover("idle worker")
    t.cover("one worker" if len(q.workers) == 1 else "several workers")
    # any order of arrival that keeps the order of each worker
    out = []
    n = 0
    if Sched.few:
        how = t.choice("how", ["first worker first", "last worker first", "in turn"])
        if how == "in turn":
            out = [x for y in zip(*done) for x in y] + [x for y in done for x in y[min(len(z) for z in done):]]
        else:
            out = [x for y in (done if how == "first worker first" else done[::-1]) for x in y]
        done = []
    while any(done):
        left = [d for d in done if d]
        out.append(t.choice("arrives%d" % n, left).pop(0) if len(left) > 1 else left[0].pop(0))
        n += 1
    Results.last.items = out


T.JoinableQueue = Tasks
T.Queue = Results
T.cpu_count = lambda: Sched.cpus
T._worker.start = start

BODY = {
    "plain": ("<group name='g*'>\na {{ x }}\nb {{ y | default('dd') }}\nc {{ z | joinmatches(',') }}\n</group>", "abc"),
    "nested": ("<group name='g*'>\na {{ x }}\n<group name='n.{{ y }}'>\nb {{ y }}\nc {{ z }}\n</group>\n</group>", "abc"),
    "anon": ("a {{ x | upper }}\nb {{ y | notequal('q') }}", "ab"),
    "lookup": ("<lookup name='l'>\nq = 'found'\nw = {'e': 1}\n</lookup>\n<vars name='v'>\nh = 'gethostname'\ns = 'no'\n</vars>\n<group name='g*'>\na {{ x | lookup('l') }}\nb {{ y | record('s') }}\nc {{ z | set('s') }}\n</group>", "abc"),
    "macro": ("<macro>\ndef up(d):\n    return d + '!'\n\ndef no(d):\n    return d['x'] != 'q'\n</macro>\n<macro>\ndef fld(d):\n    return d, {'f': d}\n</macro>\n<group name='g*' macro='no'>\na {{ x | macro('fld') }}\nb {{ y | macro('up') }}\n</group>", "ab"),
    "custom": ("<vars name='v'>\nvv = 'cvar'\n</vars>\n<group name='g*' cgrp='k=1' contains='x'>\na {{ x | cmatch('1') | append('2') }}\nb {{ y | macro('cmac') }}\nc {{ z | truncate(1) | upper }}\n</group>", "abc"),
    "input": ("<input name='in0' cinp='' groups='g*'>\nnote = 1\n</input>\n<group name='g*'>\na {{ x }}\nb {{ y }}\n</group>\n<group name='h' input='in1'>\nb {{ z }}\n</group>", "ab"),
    "output": ("<output name='o' dict_to_list='key_name=\"k\"'/>\n<group name='d.{{ x }}' output='o'>\na {{ x }}\nb {{ y }}\n</group>\n<group name='h*'>\nc {{ z }}\n</group>", "abc"),
    "start": ("<group name='g'>\na {{ x | default('none') | _start_ }}\nb {{ y }}\n</group>\n<group name='h**'>\nc {{ z }}\n</group>", "abc"),
}


def parser(kind):
    p = Parser(log_level="CRITICAL")
    if kind == "custom":
        p.add_function(lambda d, a: (d + a, None), scope="match", name="cmatch")
        p.add_function(lambda d, k=0: (dict(d, k=k), None), scope="group", name="cgrp")
        p.add_function(lambda d: d + "?", scope="macro", name="cmac")
        p.add_function(lambda d, n: "var " + d[1], scope="variable", name="cvar")
    if kind == "input":
        p.add_function(lambda d, *a: (d.replace("a q", "a w"), None), scope="input", name="cinp")
    p.add_template(BODY[kind][0])
    return p


def fill(t, ps, kind, n, k):
    alpha = BODY[kind][1]
    for i in range(n):
        s = "%s%d#\n" % ("h", i)
        for j in range(k):
            key = alpha[0] if j == 0 else t.pick(t.char("k%d%d" % (i, j), alphabet=alpha)) if i < 2 else alpha[j % len(alpha)]
            v = t.char("v%d%d" % (i, j), exclude=NONSPACE_EXCL)
            if "{{ y }}'" in BODY[kind][0] or "{{ x }}'" in BODY[kind][0]:
                t.assume(v not in "_*./")
            s = s + key + " " + v + NL
        for p in ps:
            p.add_input(s, input_name="in%d" % (i % 2) if kind == "input" or i == 2 else "Default_Input")


def many(t, kind, cpus, n):
    """more items than there are digits: results keep the order of the data"""
    Sched.few = True
    try:
        schedule(t, kind, cpus, n, 1)
    finally:
        Sched.few = False
    t.cover("many items")


def schedule(t, kind, cpus, n, k, auto=False):
    Sched.t = t
    Sched.cpus = cpus
    p, q = parser(kind), parser(kind)
    fill(t, [p, q], kind, n, k)
    if auto:
        p.multiproc_threshold = 10
        p.parse()
        t.cover("chosen by size")
    else:
        p.parse(multi=True)
    got = p.result()
    q.parse(one=True)
    t.eq(got, q.result(), "several processes and one")


def templates(t, cpus):
    Sched.t = t
    Sched.cpus = cpus
    body = "<template>\n<template name='t1'>\n%s\n</template>\n<template name='t2'>\n%s\n</template>\n</template>" % (BODY["plain"][0], "<group>\n" + BODY["anon"][0] + "\n</group>")
    p, q = mk(body), mk(body)
    v = [t.char("v%d" % i, exclude=NONSPACE_EXCL) for i in range(3)]
    for x in (p, q):
        x.add_input("a " + v[0] + NL, template_name="t1")
        x.add_input("a 2\nb " + v[1] + NL, template_name="t1", input_name="I")
        x.add_input("a " + v[2] + NL, template_name="_all_")
    p.parse(multi=True)
    q.parse(one=True)
    t.eq(p.result(), q.result(), "several processes and one")
    t.cover("out of order")
    # and again, results accumulate
    if t.bool("again"):
        p.parse(multi=True)
        q.parse(one=True)
        t.eq(p.result(), q.result(), "several processes and one, again")


def jobs(tier):
    out = []
    for kind in BODY:
        for c in (1, 2):
            out.append(("schedule", (kind, c, 2, 2)))
    for kind in BODY if tier != "quick" else ("plain", "input", "custom"):
        out.append(("schedule", (kind, 3, 3, 2)))
    out.append(("schedule", ("plain", 2, 2, 2, True)))
    if tier != "quick":
        out.append(("schedule", ("plain", 2, 4, 1)))
        for kind in BODY:
            out.append(("schedule", (kind, 2, 2, 3)))
    for kind, c, n in (("plain", 2, 12), ("anon", 3, 23), ("input", 8, 13)) + ((("plain", 4, 105),) if tier != "quick" else ()):
        out.append(("many", (kind, c, n)))
    for c in (1, 2):
        out.append(("templates", (c,)))
    return named(globals(), out)

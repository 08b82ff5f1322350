"""Drives real Circuit objects and records their histories for CircuitTrace.tla (C04, C05)."""
import random, warnings, itertools
import vf
from pygsti.objects.circuit import Circuit
from pygsti.objects.label import Label, CircuitLabel

EXC = Exception
ONEQ = ["Gx", "Gy", "GI", "Ga", "Gb", "Gd", "Ge", "Gf"]
# the group S3 as permutations of (0,1,2): element 1 is the identity
PERMS = sorted(itertools.permutations(range(3)))
S3N = ["GI", "Ga", "Gb", "Gd", "Ge", "Gf"]
S3T = [[PERMS.index(tuple(q[p[i]] for i in range(3))) + 1 for q in PERMS] for p in PERMS]      # first p, then q


def flat(lbl):
    if lbl.issimple():
        return [lbl]
    return [y for x in lbl.components for y in flat(x)]


class Coder(object):
    def __init__(self, uni):
        self.uni = list(uni)
        self.pos = {x: i + 1 for i, x in enumerate(self.uni)}
        self.pos["*"] = 0

    def line(self, x):
        return self.pos.get(x, 90)

    def lines(self, xs):
        if xs is None:
            return []
        if not isinstance(xs, (tuple, list)):
            raise vf.MachineryError("line labels are no tuple: %r" % (xs,))
        return [self.line(x) for x in xs]

    def gate(self, g):
        if isinstance(g, CircuitLabel):
            return dict(n="#" + g.name, q=self.lines(g.sslbls), a="", r=g.reps or -1, b=[self.layer(x) for x in g.components])
        return dict(n=str(g.name), q=self.lines(g.sslbls), a="".join(";%s" % (x,) for x in g.args), r=0, b=[])

    def layer(self, lbl):
        return [self.gate(g) for g in flat(Label(lbl))]

    def circ(self, c):
        return dict(lines=self.lines(c.line_labels), layers=[self.layer(x) for x in c.layertup], st=bool(c._static))


class Driver(object):
    def __init__(self, rng, slots=3, boxes=False):
        self.rng = rng
        self.ns = slots
        self.boxes = boxes
        n = rng.choice([3, 4, 5])
        self.uni = rng.choice([list(range(n)), ["Q%d" % i for i in range(n)], [3 * i + 1 for i in range(n)]])
        self.cod = Coder(self.uni)
        self.c = {}
        self.ev = []
        self.anon = rng.random() < 0.1

    # -- random pieces
    def gate(self, lines, glob=0.04, args=0.08):
        rng = self.rng
        if self.anon or not lines or rng.random() < glob:
            return Label(rng.choice(["Gx", "Gy", "Gi", "Gz"]))
        k = min(len(lines), rng.choice([1, 1, 1, 2, 2, 3]))
        q = tuple(rng.sample(list(lines), k))
        nm = rng.choice(ONEQ) if k == 1 else rng.choice(["Gc", "Gp"]) if k == 2 else "Gt"
        return Label(nm, q, args=(str(rng.choice([1, 2, "x"])),)) if rng.random() < args else Label(nm, q)

    def layer(self, lines, glob=0.04):
        rng = self.rng
        left = [x for x in lines if x != "*"]
        out = []
        if self.anon or rng.random() < glob:
            return [] if rng.random() < 0.2 else [self.gate([], 1)]
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            if not left:
                break
            g = self.gate(left, 0)
            out.append(g)
            left = [x for x in left if x not in g.sslbls]
        return out

    def aslabel(self, layer):
        """one of the accepted spellings of a layer"""
        if len(layer) == 1:
            g = layer[0]
            w = self.rng.random()
            if w < 0.3 and not isinstance(g, CircuitLabel) and g.sslbls is not None and not g.args:
                return (g.name,) + tuple(g.sslbls)
            return g if w < 0.8 else [g]
        return tuple(layer) if self.rng.random() < 0.5 else list(layer)

    def newcirc(self, s, editable=None):
        rng = self.rng
        if editable is None:
            editable = rng.random() < 0.8
        if self.anon:
            lines = ("*",)
        else:
            lines = tuple(rng.sample(self.uni, rng.randint(1, len(self.uni))))
        layers = [self.layer(lines) for _ in range(rng.choice([0, 1, 2, 3, 4, 5]))]
        want = dict(lines=self.cod.lines(lines), lbls=[[self.cod.gate(g) for g in x] for x in layers], st=not editable)
        self.do(lambda: Circuit([self.aslabel(x) for x in layers], lines, editable=editable), s, op="new", s=s, **want)

    # -- recording
    def observe(self):
        out = []
        for s in sorted(self.c):
            try:
                o = self.cod.circ(self.c[s])
            except EXC as e:
                o = dict(lines=[99], layers=[], st=False)
            o["slot"] = s
            out.append(o)
        return out

    def do(self, f, target=None, flag=False, **e):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = f()
            e["raised"] = False
            if target is not None:
                self.c[target] = r
            if flag:
                e["flag"] = bool(r)
        except vf.Timeout:
            raise
        except EXC as x:
            e["raised"] = True
            e["exc"] = "%s: %s" % (type(x).__name__, str(x)[:80])
            if flag:
                e["flag"] = False
        e["obs"] = self.observe()
        self.ev.append(e)
        return not e["raised"]

    def read(self, s):
        c = self.c[s]
        e = dict(op="read", s=s, idle=["Gi"], raised=False)
        cod = self.cod
        try:
            gs = [g for x in c.layertup for g in flat(x)]
            e["plain"] = not any(isinstance(g, CircuitLabel) for g in gs)
            e["counted"] = e["plain"] and not any(g.sslbls is None for g in gs)
            nl = c.num_layers()
            e.update(nl=nl if len(c) == nl else -1, width=c.width() if c.number_of_lines() == c.width() else -1, depth=c.depth())
            n2 = c.nQgate_count(2)
            e.update(size=c.size(), n1=c.nQgate_count(1), n2=n2 if c.twoQgate_count() == n2 else -1, n3=c.nQgate_count(3), multi=c.multiQgate_count())
            e.update(idling=cod.lines(c.get_idling_lines()), idlingx=cod.lines(c.get_idling_lines(["Gi"])),
                     isidle=[bool(c.is_line_idling(x)) for x in c.line_labels])
            comps, wi = [], []
            for i in range(nl if c.line_labels else 0):
                a = cod.layer(c.get_layer_label(i))
                if e["plain"] and (cod.layer(Label(c.get_layer(i))) != a or cod.layer(c[i]) != a):
                    a = [dict(n="?", q=[], a="", r=0, b=[])]
                comps.append(a)
                b = cod.layer(c.get_layer_label_with_idles(i, "I"))
                if e["plain"] and cod.layer(Label(c.get_layer_with_idles(i, "I"))) != b:
                    b = [dict(n="?", q=[], a="", r=0, b=[])]
                wi.append(b)
            e.update(comps=comps, withidle=wi)
        except EXC as x:
            e["raised"] = True
            e["exc"] = "%s: %s" % (type(x).__name__, str(x)[:80])
        e["obs"] = self.observe()
        self.ev.append(e)

    # -- arguments
    def pick(self, editable=0.93):
        ks = [s for s in self.c if not self.c[s]._static]
        if ks and self.rng.random() < editable:
            return self.rng.choice(ks)
        return self.rng.choice(sorted(self.c))

    def free(self, s):
        return self.rng.choice([x for x in range(1, self.ns + 1) if x != s])

    def layers_arg(self, c, kinds=("all", "int", "slice", "list")):
        """(python argument, lk, lay)"""
        rng = self.rng
        n = c.num_layers()
        k = rng.choice(kinds)
        if k == "all" or (n == 0 and k != "slice"):
            if "all" in kinds:
                return None, "all", []
            k = "slice"
        if k == "int":
            i = rng.randrange(n)
            if rng.random() < 0.2:
                i -= n
            elif rng.random() < 0.06:
                i = rng.choice([n, n + 1, -n - 1])
            return i, "int", [i]
        if k == "slice":
            if rng.random() < 0.2:
                return slice(None), "seq", list(range(n))
            a = rng.randint(0, n)
            b = rng.randint(a, n)
            x = rng.random()
            if x < 0.15:
                return slice(None, b) if b else slice(0, 0), "seq", list(range(b))
            if x < 0.3 and a < n:
                return slice(a, None), "seq", list(range(a, n))
            return slice(a, b), "seq", list(range(a, b))
        v = rng.sample(range(n), rng.randint(1, n))
        if rng.random() < 0.25:
            v = [i - n if rng.random() < 0.5 else i for i in v]
        elif rng.random() < 0.05:
            v[-1] = n + 1
        return (tuple(v) if rng.random() < 0.5 else list(v)), "seq", v

    def lines_arg(self, c, pall=0.5, bad=0.03):
        rng = self.rng
        L = [x for x in c.line_labels]
        if rng.random() < pall or not L or "*" in L:
            return None, "all", []
        v = rng.sample(L, rng.randint(1, len(L)))
        if rng.random() < bad:
            v = v + [x for x in self.uni if x not in L][:1]
        if len(v) == 1 and rng.random() < 0.5:
            return v[0], "seq", self.cod.lines(v)
        return (tuple(v) if rng.random() < 0.5 else list(v)), "seq", self.cod.lines(v)

    def names(self, xs):
        return [self.uni[i - 1] for i in xs]

    def labels(self, c, n, nk, lines):
        """n layers to put on lines (all the lines of c, and sometimes new ones)"""
        rng = self.rng
        out = []
        for _ in range(n):
            if nk == "seq":
                L = [self.uni[i - 1] for i in lines if 0 < i <= len(self.uni)]
                x = rng.random()
                if x < 0.12:
                    out.append([Label(rng.choice(["Gx", "Gy"]))])      # fills the lines
                elif x < 0.16:
                    out.append(self.layer(self.uni))
                else:
                    out.append(self.layer(L, 0))
            else:
                L = [x for x in c.line_labels]
                if not self.anon and rng.random() < 0.06:
                    L = self.uni
                out.append(self.layer(L))
        return out

    def donor(self, s):
        """another circuit whose labels may go into circuit s"""
        ks = [x for x in self.c if x != s or self.rng.random() < 0.1]
        return self.rng.choice(ks) if ks else None

    def glob_inside(self, c):
        return any(g.sslbls is None or isinstance(g, CircuitLabel) for x in c.layertup for g in flat(x)) and c.line_labels != ("*",)

    def mixed(self, c, d):
        return ("*" in c.line_labels) != ("*" in d.line_labels) or not c.line_labels or not d.line_labels

    # -- operations
    def step(self, op):
        rng, cod = self.rng, self.cod
        if op == "new" or not self.c:
            return self.newcirc(rng.randint(1, self.ns))
        s = self.pick()
        c = self.c[s]
        anon = "*" in c.line_labels
        if c.num_layers() > 9:
            return self.do(lambda: c.delete_layers(slice(3, None)), op="dellayers", s=s, lk="seq", lay=list(range(3, c.num_layers())))
        e = dict(op=op, s=s, d=0, name="#")
        if op == "set":
            lay, lk, lv = self.layers_arg(c)
            lin, nk, nv = self.lines_arg(c)
            e.update(lk=lk, lay=lv, nk=nk, lines=nv)
            d = self.donor(s)
            if d and rng.random() < 0.3 and not self.mixed(c, self.c[d]) and (lk != "int" or (self.boxes and not self.glob_inside(self.c[d]))):
                val = self.c[d]
                e.update(d=d, name="#" + val.name, lbls=[])
                if lk == "seq" and len(lv) != val.num_layers() and rng.random() < 0.8:
                    a = rng.randint(0, c.num_layers())
                    b = a + val.num_layers()
                    if b > c.num_layers():
                        return
                    lay, lv = slice(a, b), list(range(a, b))
                    if a == b:
                        return
                    e["lay"] = lv
            else:
                n = 1 if lk == "int" else len(lv) if lk == "seq" else rng.randint(0, c.num_layers() + 1)
                if lk == "seq" and rng.random() < 0.06:
                    n += 1
                x = self.labels(c, n, nk, nv)
                e["lbls"] = [[cod.gate(g) for g in y] for y in x]
                val = self.aslabel(x[0]) if lk == "int" else [self.aslabel(y) for y in x]
            if isinstance(lay, (list, tuple)) and rng.random() < 0.2:
                lay = tuple(lay)
            if rng.random() < 0.3 and lay is not None:
                def f():
                    if lin is None:
                        c[lay if not isinstance(lay, tuple) else list(lay)] = val
                    else:
                        c[lay, lin] = val
            else:
                def f():
                    c.set_labels(val, lay, lin)
            return self.do(f, **e)
        if op == "insidle":
            lin, nk, nv = self.lines_arg(c, 0.4, 0)
            none = rng.random() < 0.2
            b = rng.randint(0, c.num_layers())
            if rng.random() < 0.2:
                b = rng.choice([-1, -2, -c.num_layers(), c.num_layers() + 1])
            k = rng.choice([0, 1, 1, 2])
            e.update(none=none, before=b, k=k, nk=nk, lines=nv)
            if none and rng.random() < 0.5:
                return self.do(lambda: c.append_idling_layers(k, lin), **e)
            return self.do(lambda: c.insert_idling_layers(None if none else b, k, lin), **e)
        if op in ("inslayers", "inslayer"):
            none = rng.random() < 0.15 and op == "inslayers"
            b = rng.randint(0, c.num_layers())
            if rng.random() < 0.15 and c.num_layers():
                b = rng.choice([-1, -c.num_layers(), c.num_layers() + 1])
            if op == "inslayer":
                x = self.labels(c, 1, "all", [])[0]
                v = self.aslabel(x)
                sl = Label(v).sslbls
                e.update(none=False, before=b, nk="all", lines=cod.lines(sl) if sl is not None else [0], lbls=[[cod.gate(g) for g in x]], lk="seq")
                return self.do(lambda: c.insert_layer(v, b), **e)
            lin, nk, nv = self.lines_arg(c, 0.6)
            d = self.donor(s)
            e.update(none=none, before=b, nk=nk, lines=nv, lk="seq")
            if d and rng.random() < 0.3 and not self.mixed(c, self.c[d]) and d != s:
                val = self.c[d]
                e.update(d=d, lbls=[])
            else:
                x = self.labels(c, rng.choice([0, 1, 1, 2, 3]), nk, nv)
                val = [self.aslabel(y) for y in x]
                e["lbls"] = [[cod.gate(g) for g in y] for y in x]
            return self.do(lambda: c.insert_labels_into_layers(val, None if none else b, lin), **e)
        if op in ("inslines", "idlelines"):
            if anon:
                return
            new = [x for x in self.uni if x not in c.line_labels]
            if rng.random() < 0.08 and op == "inslines" and c.line_labels:
                new = new + [c.line_labels[0]]
            if not new:
                return
            new = rng.sample(new, rng.randint(1, len(new)))
            lnone = rng.random() < 0.4 or not c.line_labels
            at = rng.choice(c.line_labels) if not lnone else None
            if not lnone and rng.random() < 0.05:
                at = [x for x in self.uni + ["ZZ"] if x not in c.line_labels][-1]
            e.update(lnone=lnone, at=0 if lnone else cod.line(at), lines=cod.lines(new))
            if op == "idlelines":
                if lnone and rng.random() < 0.5:
                    return self.do(lambda: c.append_idling_lines(new), **e)
                return self.do(lambda: c.insert_idling_lines(at, new), **e)
            none = rng.random() < 0.4
            b = rng.randint(0, c.num_layers())
            if rng.random() < 0.2 and c.num_layers():
                b = -rng.randint(1, c.num_layers())
            e.update(none=none, before=b, lk="seq")
            d = [x for x in self.c if not set(self.c[x].line_labels) & set(c.line_labels) and self.c[x].line_labels not in ((), ("*",)) and x != s]
            lay = None if none else b
            if d and rng.random() < 0.4:
                d = rng.choice(d)
                val = self.c[d]
                e.update(d=d, lbls=[], lines=cod.lines(val.line_labels))
                ll = "auto" if rng.random() < 0.5 else val.line_labels
            else:
                x = [self.layer(new, 0.05) for _ in range(rng.randint(1, 3))]
                ex = [q for y in x for g in y for q in (g.sslbls or ())]
                val = [self.aslabel(y) for y in x]
                e["lbls"] = [[cod.gate(g) for g in y] for y in x]
                ll = tuple(new)
                if ex and rng.random() < 0.3:
                    ll = "auto"
                    e["lines"] = cod.lines(sorted(set(ex)))
            if lnone and rng.random() < 0.5:
                return self.do(lambda: c.append_labels_as_lines(val, lay, ll), **e)
            return self.do(lambda: c.insert_labels_as_lines(val, lay, at, ll), **e)
        if op == "clear":
            lay, lk, lv = self.layers_arg(c)
            lin, nk, nv = self.lines_arg(c, 0.3)
            st = rng.random() < 0.5
            e.update(lk=lk, lay=lv, nk=nk, lines=nv, str=st)
            if lk == "all" and len(nv) == 1 and not isinstance(lin, (list, tuple)) and rng.random() < 0.4:
                return self.do(lambda: c.replace_with_idling_line(lin, clear_straddlers=st), **e)
            return self.do(lambda: c.clear_labels(lay, lin, st), **e)
        if op == "clearall":
            return self.do(lambda: c.clear(), **e)
        if op == "dellayers":
            lay, lk, lv = self.layers_arg(c, ("int", "slice", "list"))
            if lk == "int" and lay < -c.num_layers() - 0:
                pass
            e.update(lk=lk, lay=lv)
            if rng.random() < 0.3:
                def f():
                    del c[list(lay) if isinstance(lay, tuple) else lay]
                return self.do(f, **e)
            return self.do(lambda: c.delete_layers(lay), **e)
        if op == "dellines":
            lin, nk, nv = self.lines_arg(c, 0.02)
            st = rng.random() < 0.5
            if lin is not None and st and rng.random() < 0.3:
                def f():
                    del c[None, lin]
                return self.do(f, nk=nk, lines=nv, str=True, **e)
            return self.do(lambda: c.delete_lines(lin, st), nk=nk, lines=nv, str=st, **e)
        if op == "setlines":
            if anon:
                return
            v = rng.sample(self.uni, rng.randint(0, len(self.uni))) if rng.random() < 0.4 else list(c.line_labels)
            rng.shuffle(v)
            if rng.random() < 0.5 and v:
                v.pop()

            def f():
                c.line_labels = tuple(v) if rng.random() < 0.8 else list(v)
            return self.do(f, lines=cod.lines(v), **e)
        if op == "reorder":
            v = list(c.line_labels)
            rng.shuffle(v)
            if rng.random() < 0.15 and v:
                v = v[1:] + ([v[-1]] if rng.random() < 0.5 else [])
            return self.do(lambda: c.reorder_lines(v), lines=cod.lines(v), **e)
        if op == "delidle":
            idle = ["Gi"] if rng.random() < 0.4 else []
            return self.do(lambda: c.delete_idling_lines(idle or None), idle=idle, **e)
        if op in ("inscircuit", "replace", "tensor"):
            d = self.donor(s)
            if d is None or d == s:
                return
            dc = self.c[d]
            if op != "tensor" and self.mixed(c, dc):
                return
            n = c.num_layers()
            if op == "inscircuit":
                j = rng.randint(0, n)
                w = rng.random()
                if w < 0.3:
                    return self.do(lambda: c.append_circuit(dc), **dict(e, d=d, none=False, before=n))
                if w < 0.5:
                    return self.do(lambda: c.prefix_circuit(dc), **dict(e, d=d, none=False, before=0))
                if w < 0.6 and n:
                    j = -rng.randint(1, n)
                return self.do(lambda: c.insert_circuit(dc, j), **dict(e, d=d, none=False, before=j))
            if op == "replace":
                j = rng.randint(-n - 1, n)
                return self.do(lambda: c.replace_layer_with_circuit(dc, j), **dict(e, d=d, before=j))
            if "*" in c.line_labels or "*" in dc.line_labels or not dc.line_labels or not c.line_labels:
                return
            order = None
            if rng.random() < 0.5:
                order = list(c.line_labels + dc.line_labels)
                rng.shuffle(order)
                w = rng.random()
                if w < 0.1:
                    order = order[1:]
                elif w < 0.2:
                    order[0] = order[-1]
                elif w < 0.3:
                    order += [x for x in self.uni if x not in order][:1]
            return self.do(lambda: c.tensor_circuit(dc, order), **dict(e, d=d, lines=cod.lines(order or [])))
        if op in ("rename", "renamecopy"):
            w = rng.random()
            m = dict(n=[], q=[])
            t = None
            if op == "renamecopy":
                s2 = self.free(s)
                e["s2"] = s2
            if w < 0.35:
                a, b = rng.sample(["Gx", "Gy", "Gc", "Gq", "Ga"], 2)
                m["n"] = [[a, b]]
                e["st"] = True
                if op == "renamecopy":
                    return self.do(lambda: c.replace_gatename(a, b), s2, m=m, **e)
                return self.do(lambda: c.replace_gatename_inplace(a, b), m=m, **e)
            if w < 0.6 and op == "rename":
                ks = rng.sample(ONEQ + ["Gc", "Gt"], rng.randint(1, 4))
                mp = {k: rng.choice(ONEQ + ["Gq"]) for k in ks}
                m["n"] = [[k, v] for k, v in mp.items()]
                fn = mp if rng.random() < 0.5 else (lambda x: mp.get(x, None))
                return self.do(lambda: c.map_names_inplace(fn), m=m, **e)
            if anon:
                return
            tgt = rng.sample(self.uni, len(c.line_labels))
            mp = dict(zip(c.line_labels, tgt))
            m["q"] = [[cod.line(k), cod.line(v)] for k, v in mp.items()]
            fn = mp if rng.random() < 0.5 else (lambda x: mp[x])
            e["st"] = bool(c._static)
            if op == "renamecopy":
                return self.do(lambda: c.map_state_space_labels(fn), s2, m=m, **e)
            return self.do(lambda: c.map_state_space_labels_inplace(fn), m=m, **e)
        if op == "get":
            lay, lk, lv = self.layers_arg(c, ("all", "slice", "list"))
            lin, nk, nv = self.lines_arg(c, 0.3)
            strict = rng.random() < 0.7
            if not strict and (not c.line_labels or "*" in c.line_labels):
                return
            s2 = self.free(s)
            e.update(s2=s2, lk=lk, lay=lv, nk=nk, lines=nv, strict=strict)
            if strict and isinstance(lay, slice) and rng.random() < 0.5:
                return self.do(lambda: c[lay] if lin is None else c[lay, lin], s2, **dict(e, strict=True))
            return self.do(lambda: c.get_labels(lay, lin, strict), s2, **e)
        if op == "copy":
            s2 = self.free(s)
            w = rng.choice(["auto", True, False])
            return self.do(lambda: c.copy(w), s2, s2=s2, st=bool(c._static) if w == "auto" else not w, **e)
        if op == "done":
            return self.do(lambda: c.done_editing(), **e)
        # transformations
        s2 = self.free(s)
        if op == "reverse":
            return self.do(lambda: c.reverse(), **e)
        if op == "serial":
            return self.do(lambda: c.serialize(), s2, s2=s2, **e)
        if op == "parallel":
            b, a = rng.random() < 0.6, rng.random() < 0.5
            return self.do(lambda: c.parallelize(b, a), s2, s2=s2, brk=b, adj=a, **e)
        if op == "repeat":
            k = rng.choice([0, 1, 2, 3])
            if c.num_layers() * k > 20:
                return
            ex = not self.boxes or rng.random() < 0.5
            nm = "#" + c.name
            if not ex and k > 1 and self.glob_inside(c):
                return
            if ex and rng.random() < 0.3 and not self.boxes:
                return self.do(lambda: rng.choice([lambda: c * k, lambda: c ** k])(), s2, s2=s2, k=k, expand=ex, **dict(e, name=nm))
            return self.do(lambda: c.repeat(k, ex), s2, s2=s2, k=k, expand=ex, **dict(e, name=nm))
        if op == "plus":
            d = self.donor(s)
            if d is None or self.mixed(c, self.c[d]):
                return
            dc = self.c[d]
            return self.do(lambda: c + dc, s2, s2=s2, **dict(e, d=d))
        if op == "shift":
            return self.do(lambda: c.shift_gates_forward(), flag=True, **e)
        if op == "noidle":
            return self.do(lambda: c.delete_idle_layers(), flag=True, **e)
        if op == "compress":
            return self.do(lambda: c.compress_depth(), **e)
        if op in ("combine", "compressrel"):
            rel = {}
            p = rng.choice([0.4, 0.8, 1.0])
            for i, a in enumerate(S3N):
                for j, b in enumerate(S3N):
                    if rng.random() < p:
                        k = S3T[i][j]
                        rel[(a, b)] = (None if rng.random() < 0.7 else "GI") if k == 1 else S3N[k - 1]
            e.update(names=S3N, tab=S3T)
            with_rel = rel
            if op == "combine":
                return self.do(lambda: c.combine_oneQgates(with_rel), flag=True, **e)
            return self.do(lambda: c.compress_depth(with_rel), **e)
        if op == "expand":
            return self.do(lambda: c.expand_subcircuits(), **e)
        if op == "factor":
            if not self.boxes:
                return
            return self.do(lambda: c.factorize_repetitions(), **e)
        if op in ("alias", "replayer"):
            lays = [x for x in c.layertup]
            cand = list(dict.fromkeys(lays))
            rng.shuffle(cand)
            al, m = [], {}
            for x in cand[:1 if op == "replayer" else rng.randint(0, 3)]:
                if len(x.components) == 0 or isinstance(x, CircuitLabel):
                    continue
                y = [self.layer(c.line_labels) for _ in range(1 if op == "replayer" else rng.randint(0, 2))]
                if rng.random() < 0.3 and y:
                    y[-1] = flat(x)
                al.append(dict(key=cod.layer(x), layers=[[cod.gate(g) for g in z] for z in y]))
                m[x] = y
            if op == "replayer":
                if not al:
                    return
                x, y = list(m.items())[0]
                return self.do(lambda: c.replace_layer(x, self.aslabel(y[0])), s2, s2=s2, al=al, **e)
            ad = {x: Circuit([Label(z) for z in y], c.line_labels) for x, y in m.items()}
            if not ad:
                return
            return self.do(lambda: c.replace_layers_with_aliases(ad), s2, s2=s2, al=al, **e)
        if op == "library":
            gs = list(dict.fromkeys(g for x in c.layertup for g in flat(x) if not isinstance(g, CircuitLabel)))
            if not c.line_labels or anon:
                return
            comp, m = [], {}
            allow = rng.random() < 0.6
            for g in gs:
                if allow and rng.random() < 0.4 or rng.random() < 0.05:
                    continue
                L = g.sslbls or c.line_labels
                y = [self.layer(L, 0) for _ in range(rng.randint(0, 3))]
                m[g] = Circuit([Label(z) for z in y], L)
                comp.append(dict(key=cod.gate(g), layers=[[cod.gate(h) for h in z] for z in y]))
            dc = rng.random() < 0.3
            return self.do(lambda: c.change_gate_library(m, allow_unchanged_gates=allow, depth_compression=dc), comp=comp, allow=allow, **e)
        raise ValueError(op)

    def run(self, n, mix, pread=0.15):
        for s in range(1, self.ns + 1):
            self.newcirc(s)
        k = 0
        while len(self.ev) < n and k < 6 * n:
            k += 1
            a = len(self.ev)
            self.step(self.rng.choice(mix))
            if len(self.ev) > a and self.rng.random() < pread:
                self.read(self.rng.choice(sorted(self.c)))
        return self.ev


EDITS = ["set"] * 7 + ["inslayers"] * 4 + ["insidle"] * 4 + ["inslines"] * 4 + ["clear"] * 4 + ["dellayers"] * 2 + ["dellines"] * 2 + \
    ["inslayer", "idlelines", "setlines", "setlines", "reorder", "delidle", "inscircuit", "inscircuit", "replace", "replace", "tensor", "tensor",
     "rename", "rename", "renamecopy", "get", "get", "copy", "copy", "done", "new", "new", "clearall"]
TRANSF = ["reverse", "serial", "parallel", "parallel", "repeat", "repeat", "plus", "shift", "shift", "noidle", "compress", "combine", "combine", "combine",
          "compressrel", "compressrel", "expand", "factor", "factor", "alias", "alias", "replayer", "library", "library", "tensor", "tensor", "renamecopy",
          "rename", "reorder", "inscircuit", "inscircuit", "replace"]


def histories(chk, n, mix, length, name, boxes=False, pread=0.15):
    traces = []
    old = Circuit.default_expand_subcircuits
    try:
        for i in range(n):
            r = random.Random(chk.rng.getrandbits(48))
            bx = boxes and r.random() < 0.5
            Circuit.default_expand_subcircuits = not bx
            with vf.time_limit(60):
                d = Driver(r, 3, bx)
                ev = d.run(r.randint(length // 2, length), mix, pread)
            traces.append(dict(id="%s-%d" % (name, i), slots=3, ev=ev))
    finally:
        Circuit.default_expand_subcircuits = old
    return traces


def corrupt(t):
    for e in t["ev"]:
        if e["obs"] and e["obs"][-1]["layers"] and not e["raised"]:
            e["obs"][-1]["layers"].append([])
            return t
    return t


# ---- histories enumerated by TLC from CircuitMC.tla
class Scripted(Driver):
    def __init__(self, uni):
        Driver.__init__(self, random.Random(0), 2)
        self.uni = uni
        self.cod = Coder(uni)
        self.anon = False

    def lab(self, g):
        return Label(g["n"], tuple(self.uni[i - 1] for i in g["q"]) or None)

    def layarg(self, e):
        return None if e["lk"] == "all" else e["lay"][0] if e["lk"] == "int" else list(e["lay"])

    def linarg(self, e):
        return None if e["nk"] == "all" else self.names(e["lines"])

    def play(self, sc):
        st = sc["start"]
        lines = tuple(self.names(st["lines"]))
        self.do(lambda: Circuit([Label([self.lab(g) for g in y]) if len(y) != 1 else self.lab(y[0]) for y in st["layers"]], lines, editable=True),
                1, op="new", s=1, lines=st["lines"], lbls=st["layers"], st=False)
        for e in sc["ev"]:
            c, op = self.c[1], e["op"]
            lbls = [[self.lab(g) for g in y] for y in e.get("lbls", [])]
            k = dict(e, s=1, d=0, name="#")
            if op == "set":
                n = c.num_layers() if e["lk"] == "all" else 1 if e["lk"] == "int" else len(e["lay"])
                if e["lk"] == "int":
                    if len(lbls) != 1:
                        continue
                    lbls = lbls[0]
                self.do(lambda: c.set_labels(lbls, self.layarg(e), self.linarg(e)), **k)
            elif op == "inslayers":
                self.do(lambda: c.insert_labels_into_layers(lbls, None if e["none"] else e["before"], self.linarg(e)), **k)
            elif op == "insidle":
                self.do(lambda: c.insert_idling_layers(None if e["none"] else e["before"], e["k"], self.linarg(e)), **k)
            elif op == "inslines":
                self.do(lambda: c.insert_labels_as_lines(lbls, None if e["none"] else e["before"], None if e["lnone"] else self.names([e["at"]])[0], tuple(self.names(e["lines"]))), **k)
            elif op == "dellines":
                self.do(lambda: c.delete_lines(self.names(e["lines"]), e["str"]), **k)
            elif op == "setlines":
                def f():
                    c.line_labels = tuple(self.names(e["lines"]))
                self.do(f, **k)
            elif op == "reorder":
                self.do(lambda: c.reorder_lines(self.names(e["lines"])), **k)
            elif op == "delidle":
                self.do(lambda: c.delete_idling_lines(list(e["idle"]) or None), **k)
            elif op == "clear":
                self.do(lambda: c.clear_labels(self.layarg(e), self.linarg(e), e["str"]), **k)
            elif op == "dellayers":
                self.do(lambda: c.delete_layers(self.layarg(e)), **k)
            elif op == "clearall":
                self.do(lambda: c.clear(), **k)
            elif op == "reverse":
                self.do(lambda: c.reverse(), **k)
            elif op in ("shift", "noidle"):
                self.do(lambda: c.shift_gates_forward() if op == "shift" else c.delete_idle_layers(), flag=True, **k)
            elif op == "compress":
                self.do(lambda: c.compress_depth(), **k)
            elif op == "factor":
                self.do(lambda: c.factorize_repetitions(), **k)
            elif op == "expand":
                self.do(lambda: c.expand_subcircuits(), **k)
            elif op == "serial":
                self.do(lambda: c.serialize(), 2, **dict(k, s2=2))
            elif op == "parallel":
                self.do(lambda: c.parallelize(e["brk"], e["adj"]), 2, **dict(k, s2=2))
            elif op == "repeat":
                self.do(lambda: c.repeat(e["k"], e["expand"]), 2, **dict(k, s2=2))
            else:
                raise vf.MachineryError("event " + op)
        self.read(max(self.c))
        return self.ev


def run_scripts(chk, scripts, name):
    old = Circuit.default_expand_subcircuits
    Circuit.default_expand_subcircuits = False
    out = []
    try:
        for i, sc in enumerate(scripts):
            with vf.time_limit(60):
                out.append(dict(id="%s-%d" % (name, i), slots=2, ev=Scripted([list(range(4)), ["Q0", "Q1", "Q2", "Q3"]][i % 2]).play(sc)))
    finally:
        Circuit.default_expand_subcircuits = old
    return out

"""Drives the circuit parsers, printers and copies for CircTextTrace.tla (C06)."""
import copy, os, pickle, random, re, warnings
import vf
import pygsti
from pygsti.objects.circuit import Circuit
from pygsti.objects.label import Label, CircuitLabel, LabelTupTup
from pygsti.io.circuitparser import fastcircuitparser as fast, slowcircuitparser as slow

EXC = Exception


def chars(s):
    return list(s)


def line(x):
    return dict(int=not isinstance(x, str), s=chars(str(x)))


def lines(xs):
    return [line(x) for x in xs]


def lab(x):
    t = int(round(x.time * 1000))
    if isinstance(x, CircuitLabel):
        return dict(k="box", n=chars(x.name), a=[], q=lines(x.sslbls or ()), all=x.sslbls is None, t=t, r=int(x.reps), b=[lab(y) for y in x.components])
    if not x.issimple():
        s = x.sslbls
        return dict(k="layer", n=[], a=[], q=lines(s or ()), all=s is None, t=t, r=1, b=[lab(y) for y in x.components])
    s = x.sslbls
    return dict(k="gate", n=chars(x.name), a=[chars(y if isinstance(y, str) else "?%r" % (y,)) for y in x.args], q=lines(s or ()), all=s is None, t=t, r=1, b=[])


def circ(c):
    return dict(lines=lines(c.line_labels), layers=[lab(x) for x in c.layertup])


def parsed(f, text, sub, intz):
    try:
        lay, ls = f(text, sub, intz)
        return dict(ok=True, layers=[lab(x) for x in lay], named=ls is not None, lines=lines(ls or ()))
    except vf.Timeout:
        raise
    except EXC as e:
        return dict(ok=False, exc="%s: %s" % (type(e).__name__, str(e)[:60]))


def usable(text):
    """texts within the bounds of the specification: small numbers, one kind of line label"""
    p = 1
    for x in re.findall(r"\^([0-9]+)", text.replace("*", "")):
        if len(x) > 3:
            return False
        p *= max(1, int(x))
    if p > 60:
        return False
    if any(len(x) > 5 for x in re.findall(r"!([0-9]+)", text.replace("*", ""))) or re.search(r"\.[0-9]{4}", text):
        return False
    kinds = set(x.isdigit() for x in re.findall(r":([a-zQ0-9_]*)", text.replace("*", "")))
    if "@" in text:
        kinds |= set(x.strip("() ").isdigit() for x in text.split("@")[1].split(","))
    return len(kinds) < 2


class Gen(object):
    def __init__(self, rng):
        self.rng = rng
        self.uni = rng.choice([[0, 1, 2, 10], ["Q0", "Q1", "q_2", "a1"], [0, 1, 2, 3]])
        self.anon = rng.random() < 0.15
        self.timed = rng.random() < 0.3

    def time(self):
        return self.rng.choice([0.5, 1.0, 2.0, 1.25, 0.001, 12.125]) if self.timed and self.rng.random() < 0.5 else None

    def gate(self, left):
        rng = self.rng
        nm = rng.choice(["Gx", "Gy", "Gcnot", "G", "Gxpi2", "G_1", "Iz", "I0"])
        args = [rng.choice(["1", "1.5", "pi", "a/2", "Q", "_"]) for _ in range(rng.choice([1, 1, 2]))] if rng.random() < 0.15 else None
        if self.anon or rng.random() < 0.05:
            return Label(nm, None, self.time(), args)
        return Label(nm, tuple(rng.sample(left, min(len(left), rng.choice([1, 1, 1, 2])))), self.time(), args)

    def layer(self, depth=1, boxes=True):
        rng = self.rng
        if depth > 0 and boxes and rng.random() < 0.2:
            return self.box(depth - 1)
        if rng.random() < 0.1:
            return Label(())
        left = list(self.uni)
        out = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if not left:
                break
            g = self.gate(left)
            out.append(g)
            if g.sslbls is None:
                break
            left = [x for x in left if x not in g.sslbls]
        if boxes and depth > 0 and left and out and out[-1].sslbls is not None and rng.random() < 0.1:
            out.append(Gen.box(self, 0, left))
        return Label(out)

    def box(self, depth, left=None):
        rng = self.rng
        if left is not None:
            old, self.uni = self.uni, left
        parts = [self.layer(depth) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        if left is not None:
            self.uni = old
        w = Label(tuple(parts)) if parts else None
        sl = w.sslbls if w is not None else None
        if sl is None and left is not None:
            sl = tuple(left)
        return CircuitLabel("", parts, sl, rng.choice([1, 2, 3, 0, 2]))

    def circuit(self, n=None, boxes=True, editable=False):
        rng = self.rng
        lay = [self.layer(1, boxes) for _ in range(rng.choice([0, 1, 2, 3, 4]) if n is None else n)]
        if rng.random() < 0.1 and not editable:
            lay = [Label("rho0")] + lay
        if rng.random() < 0.1 and not editable:
            lay = lay + [Label("Mdefault")]
        if self.anon:
            ls = ("*",)
        else:
            ls = list(self.uni)
            rng.shuffle(ls)
        old = Circuit.default_expand_subcircuits
        return Circuit(lay, tuple(ls), editable=editable, expand_subcircuits=not boxes)

    # -- texts
    def simple(self):
        rng = self.rng
        s = rng.choice(["Gx", "Gy", "Gcnot", "G", "Iz", "Gxpi2", "G_0"])
        while rng.random() < 0.12:
            s += ";" + rng.choice(["1", "1.5", "a/b", "Q_", ""])
        if not self.anon:
            for x in rng.sample(self.uni, rng.choice([0, 1, 1, 2])):
                s += ":" + ("0" if rng.random() < 0.05 and not isinstance(x, str) else "") + str(x)
        if rng.random() < 0.15:
            s += "!" + rng.choice(["1", "0.5", "2.", ".25", "12", "0"])
        return s

    def expo(self):
        return "^" + self.rng.choice(["0", "1", "2", "3", "02"]) if self.rng.random() < 0.25 else ""

    def item(self, d):
        rng = self.rng
        w = rng.random()
        star = "*" if rng.random() < 0.08 else ""
        if w < 0.5 or d == 0:
            return star + (self.simple() if rng.random() < 0.93 else "{}") + self.expo()
        n = rng.choice([0, 1, 2, 2, 3])
        inner = "".join(self.item(d - 1) for _ in range(n))
        return star + (("[%s]" if w < 0.75 else "(%s)") % inner) + self.expo()

    def text(self):
        rng = self.rng
        s = "".join(self.item(2) for _ in range(rng.choice([1, 2, 3, 4])))
        if rng.random() < 0.1:
            s = "rho0" + (":%s" % self.uni[0] if rng.random() < 0.3 else "") + s
        if rng.random() < 0.1:
            s += "Mz" + (":%s" % self.uni[0] if rng.random() < 0.3 else "")
        if rng.random() < 0.3:
            ls = list(map(str, self.uni))
            rng.shuffle(ls)
            s += "@" + rng.choice(["(%s)", "%s", "( %s )"]) % rng.choice([",", ", "]).join(ls)
        if rng.random() < 0.3:
            for _ in range(rng.choice([1, 1, 2])):
                i = rng.randrange(len(s) + 1)
                c = rng.choice("Gxr()[]{}^:;!@*023_Q.M I,h")
                w = rng.random()
                s = s[:i] + c + s[i:] if w < 0.4 else s[:i] + s[i + 1:] if w < 0.8 else s[:i] + c + s[i + 1:]
        return s


def ev_parse(text, sub=True, intz=True):
    return dict(op="parse", text=chars(text), sub=sub, intz=intz, fast=parsed(fast.parse_circuit, text, sub, intz), slow=parsed(slow.parse_circuit, text, sub, intz))


def ev_build(text, expand, ctor):
    e = dict(op="build", text=chars(text), expand=expand)
    try:
        c = Circuit(text, expand_subcircuits=expand) if ctor == 0 else Circuit(None, stringrep=text, expand_subcircuits=expand)
        e["out"] = dict(circ(c), ok=True)
    except EXC as x:
        e["out"] = dict(ok=False, exc="%s: %s" % (type(x).__name__, str(x)[:60]))
    return e


def ev_text(c):
    e = dict(op="text", **circ(c))
    try:
        e["text"] = chars(c.str)
    except EXC as x:
        e["text"] = chars("?%s" % type(x).__name__)
    return e


def ev_label(x):
    return dict(op="label", label=lab(x), text=chars(str(x)))


def cmp(f):
    try:
        return bool(f())
    except EXC:
        return False


def ev_pair(a, b):
    e = dict(op="pair", a=circ(a), b=circ(b), eq=bool(a == b), ne=bool(a != b), lt=cmp(lambda: a < b), gt=cmp(lambda: a > b))
    e["hash"] = hash(a) == hash(b)
    return e


ROUTES = ["pickle", "deepcopy", "copy", "unlock", "fromtup", "layers", "tuples", "json", "msgpack", "label", "compressed"]


def ev_route(c, route):
    e = dict(op="route", route=route, a=circ(c), exact=route not in ("tuples", "compressed"), raised=False)
    try:
        if route == "pickle":
            d = pickle.loads(pickle.dumps(c))
        elif route == "deepcopy":
            d = copy.deepcopy(c)
        elif route == "copy":
            d = c.copy()
        elif route == "unlock":
            d = c.copy(editable=True)
            d.done_editing()
        elif route == "fromtup":
            d = Circuit.fromtup(c.tup)
        elif route == "layers":
            d = Circuit(c.layertup, c.line_labels, expand_subcircuits=False)
        elif route == "tuples":
            def nat(x):
                return tuple(nat(y) for y in x.components) if not x.issimple() else (x.name,) + tuple(";" + y for y in x.args) + tuple(x.sslbls or ()) if (x.sslbls or x.args) else x.name
            d = Circuit([nat(x) for x in c.layertup], c.line_labels)
        elif route == "json":
            d = pygsti.io.json.loads(pygsti.io.json.dumps(c))
        elif route == "msgpack":
            d = pygsti.io.msgpack.loads(pygsti.io.msgpack.dumps(c))
        elif route == "label":
            d = Circuit(c.as_label().components, c.line_labels, expand_subcircuits=False)
        elif route == "compressed":
            n = len(c)
            d = pygsti.objects.circuit.CompressedCircuit(c, n % 3 * 4, 2 + n % 5 if n % 2 else 20).expand()
        e["b"] = circ(d)
        e["eq"] = bool(c == d) and not (c != d)
        e["hash"] = hash(c) == hash(d)
        e["text"], e["text2"] = (chars(c.str), chars(d.str)) if route in ("pickle", "deepcopy", "copy", "json", "msgpack", "compressed") else ([], [])
    except vf.Timeout:
        raise
    except EXC as x:
        e.update(raised=True, exc="%s: %s" % (type(x).__name__, str(x)[:60]))
    return e


def ev_list(rng, g, path):
    cs = [g.circuit(boxes=rng.random() < 0.3) for _ in range(rng.randint(1, 4))]
    e = dict(op="list", texts=[chars(c.str) for c in cs], deflt=[], raised=False)
    try:
        w = rng.random()
        if w < 0.5:
            pygsti.io.write_circuit_list(path, cs, header="a header" if rng.random() < 0.5 else None)
            out = pygsti.io.load_circuit_list(path)
        elif w < 0.75:
            with open(path, "w") as f:
                for i, c in enumerate(cs):
                    f.write("%sc%d  %s\n" % ("# comment\n\n" if i == 1 else "", i, c.str))
            d = pygsti.io.load_circuit_dict(path)
            out = [d["c%d" % i] for i in range(len(cs))]
        else:
            pygsti.io.write_circuit_list(path, cs)
            if not g.anon:
                e["deflt"] = lines(g.uni)
            raw = pygsti.io.load_circuit_list(path, readRawStrings=True)
            if [chars(x) for x in raw] != e["texts"]:
                raise ValueError("raw strings differ")
            out = pygsti.io.load_circuit_list(path, line_labels=tuple(g.uni)) if not g.anon else pygsti.io.load_circuit_list(path)
        e["out"] = [dict(circ(c), text=chars(c.str)) for c in out]
    except vf.Timeout:
        raise
    except EXC as x:
        e.update(raised=True, exc="%s: %s" % (type(x).__name__, str(x)[:60]))
    return e


def variant(rng, g, c):
    """a circuit that may or may not equal c"""
    lay, ls = list(c.layertup), list(c.line_labels)
    w = rng.random()
    if w < 0.2:
        pass
    elif w < 0.4 and lay:
        i = rng.randrange(len(lay))
        lay[i] = g.layer(1)
    elif w < 0.5 and len(ls) > 1:
        rng.shuffle(ls)
    elif w < 0.6 and lay:
        lay.insert(rng.randrange(len(lay)), Label(()))
    elif w < 0.7 and lay:
        i = rng.randrange(len(lay))
        x = lay[i]
        if len(x.components) > 1 and not isinstance(x, CircuitLabel):
            y = list(x.components)
            rng.shuffle(y)
            lay[i] = Label(y)
    elif w < 0.8:
        lay = [Label(x.name, x.sslbls, 3.0, x.args) if x.issimple() and not isinstance(x, CircuitLabel) else x for x in lay]
    elif w < 0.9 and ls != ["*"]:
        ls = ls + (["zz"] if isinstance(ls[0], str) else [77])
    elif w < 0.95:
        ls = ["*"] if ls == ["*"] else ls
        lay = lay + lay[-1:]
    return Circuit(lay, tuple(ls), expand_subcircuits=False, check=False)


def scripts(chk, texts):
    out = []
    for i in range(0, len(texts), 25):
        ev = []
        for t in texts[i:i + 25]:
            t = "".join(t)
            if usable(t):
                ev += [ev_parse(t), ev_build(t, i % 50 == 0, i % 2)]
        out.append(dict(id="tok-%d" % i, ev=ev))
    return out


def histories(chk, n):
    d = vf.scratch()
    out = []
    for i in range(n):
        rng = random.Random(chk.rng.getrandbits(48))
        g = Gen(rng)
        ev = []
        with vf.time_limit(60), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for _ in range(6):
                t = g.text()
                if usable(t):
                    ev.append(ev_parse(t, rng.random() < 0.7, rng.random() < 0.85))
                    ev.append(ev_build(t, rng.random() < 0.7, rng.randint(0, 1)))
            for _ in range(3):
                c = g.circuit(boxes=rng.random() < 0.5, editable=rng.random() < 0.2)
                ev.append(ev_text(c))
                c.done_editing()
                ev.append(ev_text(c))
                ev.append(ev_pair(c, variant(rng, g, c)))
                ev.append(ev_pair(c, c.copy()))
                r = rng.choice(ROUTES)
                if r == "compressed":
                    c = Circuit(sum([p * k for p, k in [([g.layer(0) for _ in range(rng.randint(1, 7))], rng.choice([1, 1, 2, 3, 9])) for _ in range(rng.randint(1, 4))]], []), c.line_labels)
                if r in ("tuples", "fromtup") and any(isinstance(y, CircuitLabel) for x in c.layertup for y in list(x.components) + [x]):
                    r = "layers"
                ev.append(ev_route(c, r))
            ev.append(ev_label(g.layer(2)))
            ev.append(ev_list(rng, g, os.path.join(d, "circuits.txt")))
        out.append(dict(id="text-%d" % i, ev=ev))
    return out


def operated(chk, n):
    """the text of circuits that result from operations"""
    import circdrive as D
    out = []
    old = Circuit.default_expand_subcircuits
    try:
        for i in range(n):
            r = random.Random(chk.rng.getrandbits(48))
            bx = r.random() < 0.4
            Circuit.default_expand_subcircuits = not bx
            with vf.time_limit(60):
                d = D.Driver(r, 3, bx)
                ev = []
                for s in (1, 2, 3):
                    d.newcirc(s)
                for _ in range(12):
                    d.step(r.choice(D.TRANSF + ["repeat", "plus", "get", "copy", "setlines", "done", "replayer"]))
                    for c in d.c.values():
                        if c.line_labels and not any(x == "@" for x in c.line_labels) and "GI" not in str([x.tonative() for x in c.layertup]):
                            ev.append(ev_text(c))
                out.append(dict(id="op-%d" % i, ev=ev))
    finally:
        Circuit.default_expand_subcircuits = old
    return out


def corrupt(t):
    for e in t["ev"]:
        if e["op"] == "parse" and e["slow"]["ok"]:
            e["slow"]["layers"].append(lab(Label("Gx")))
            return t
    return t

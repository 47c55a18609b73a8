"""P28: a network expression builds the network it denotes."""

import itertools
import math
import re
import warnings

import torch
from evotorch.neuroevolution.net import MultiLayered, NetParsingError, layers, str_to_net
from torch import nn

from mc.ctx import require
from mc.util import fmt, require_same

META = {
    "bounds": "all expressions of up to 3 (thorough 4) layers over 6 layer forms with all groupings by parentheses (thorough: also all expressions of 4 layers), all argument forms (positional, keyword, literal, constant, indexed constant) in all orders, and every deletion, duplication, exchange or replacement by any of 26 tokens of one token of 10 base expressions; all layers of the library over small grids of inputs",
    "assumptions": ["a syntax error of Python counts as a parsing error", "wrong arguments of a layer (for instance an unknown keyword) are reported by that layer in its own way"],
}

warnings.filterwarnings("ignore", category=DeprecationWarning)


class Canary:
    """A constant which must not be called, nor have its attributes or operators used."""

    touched = []

    def __call__(self, *a, **k):
        Canary.touched.append("called")
        return 2

    def __getattr__(self, name):
        if not name.startswith("__"):
            Canary.touched.append("attribute " + name)
        raise AttributeError(name)

    def __rshift__(self, other):
        Canary.touched.append(">>")
        return 2

    __add__ = __sub__ = __mul__ = __or__ = __neg__ = __lt__ = __gt__ = __rrshift__ = __mod__ = __rshift__

    def __bool__(self):
        Canary.touched.append("bool")
        return True

    def __iter__(self):
        Canary.touched.append("iterated")
        return iter((2, 2))

    def keys(self):
        Canary.touched.append("keys")
        return []


CONSTS = {"n": 2, "m": (3, 2, 2), "flag": False, "d": {"k": 2}, "canary": Canary()}
CLASSES = {
    "Linear": nn.Linear, "Tanh": nn.Tanh, "ReLU": nn.ReLU, "Apply": layers.Apply, "Clip": layers.Clip, "RNN": layers.RNN, "LSTM": layers.LSTM,
    "Bin": layers.Bin, "Round": layers.Round, "Slice": layers.Slice, "FeedForwardNet": layers.FeedForwardNet, "StructuredControlNet": layers.StructuredControlNet,
    "LocomotorNet": layers.LocomotorNet, "Sequential": nn.Sequential, "Softmax": nn.Softmax, "ELU": nn.ELU, "RecurrentNet": layers.RNN, "LSTMNet": layers.LSTM,
}
KEYWORDS = {"if", "else", "lambda", "not", "and", "or", "for", "in", "is", "await", "import"}


class Reject(Exception):
    pass


class Recognizer:
    """The grammar, over lists of tokens. Yields [(class name, args, kwargs), ...]."""

    def __init__(self, tokens):
        self.t, self.i = list(tokens), 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ""

    def take(self, what=None):
        tok = self.peek()
        if tok == "" or (what is not None and tok != what):
            raise Reject(f"expected {what} at {self.i}")
        self.i += 1
        return tok

    def is_name(self, tok):
        return re.fullmatch(r"[A-Za-z_]\w*", tok) is not None and tok not in KEYWORDS and tok not in ("True", "False", "None")

    def whole(self):
        r = self.expr()
        if self.peek() != "":
            raise Reject("trailing tokens")
        return r

    def expr(self):
        r = self.term()
        while self.peek() == ">>":
            self.take()
            r = r + self.term()
        return r

    def term(self):
        if self.peek() == "(":
            self.take()
            r = self.expr()
            self.take(")")
            return r
        name = self.take()
        if not self.is_name(name) or name not in CLASSES:
            raise Reject(f"no layer {name}")
        self.take("(")
        args, kwargs = [], {}
        while self.peek() != ")":
            if self.is_name(self.peek()) and self.peek(1) == "=":
                k = self.take()
                self.take("=")
                if k in kwargs:
                    raise Reject("repeated keyword")
                kwargs[k] = self.arg()
            else:
                if kwargs:
                    raise Reject("positional after keyword")
                args.append(self.arg())
            if self.peek() != ")":
                self.take(",")
        self.take(")")
        return [(name, args, kwargs)]

    def arg(self):
        mark = self.i
        try:
            return self.literal()
        except Reject:
            self.i = mark
        if self.peek() == "(":
            self.take()
            v = self.arg()
            self.take(")")
            return v
        name = self.take()
        if not self.is_name(name) or name not in CONSTS:
            raise Reject(f"no constant {name}")
        v = CONSTS[name]
        if self.peek() == "[":
            self.take()
            i = self.atom()
            self.take("]")
            try:
                return v[i]
            except Exception:
                raise Reject("bad index")
        return v

    def atom(self):
        """A plain constant."""
        tok = self.peek()
        if tok == "(":
            self.take()
            v = self.atom()
            self.take(")")
            return v
        if tok in ("True", "False", "None"):
            self.take()
            return {"True": True, "False": False, "None": None}[tok]
        if re.fullmatch(r"\d+", tok):
            self.take()
            if len(tok) > 1 and tok[0] == "0" and tok.strip("0"):
                raise Reject("octal")
            return int(tok)
        if re.fullmatch(r"\d+\.\d*", tok):
            self.take()
            return float(tok)
        if tok.startswith("'"):
            s = ""
            while self.peek().startswith("'"):
                s += self.take()[1:-1]
            return s
        raise Reject(f"no literal {tok}")

    def literal(self):
        tok = self.peek()
        if tok in ("-", "+"):
            self.take()
            v = self.atom()
            if type(v) not in (int, float):
                raise Reject("signed non-number")
            return -v if tok == "-" else v
        if tok == "[":
            self.take()
            items = []
            while self.peek() != "]":
                items.append(self.literal())
                if self.peek() != "]":
                    self.take(",")
            self.take("]")
            return items
        if tok == "{":
            raise Reject("not part of the alphabet")
        if tok == "(":
            self.take()
            if self.peek() == ")":
                self.take()
                return ()
            items = [self.literal()]
            tuple_seen = False
            while self.peek() == ",":
                tuple_seen = True
                self.take()
                if self.peek() == ")":
                    break
                items.append(self.literal())
            self.take(")")
            return tuple(items) if tuple_seen else items[0]
        return self.atom()


def flat(module):
    if isinstance(module, (MultiLayered, nn.Sequential)):
        return list(module)
    return [module]


def by_hand(spec):
    out = []
    for name, args, kwargs in spec:
        m = CLASSES[name](*args, **kwargs)
        out.extend(flat(m))
    return out


def forward(mods, xs):
    """The composition of the layers over a sequence of inputs."""
    hidden = [None] * len(mods)
    ys = []
    for x in xs:
        for i, m in enumerate(mods):
            r = m(x) if hidden[i] is None else m(x, hidden[i])
            if isinstance(r, tuple):
                x, hidden[i] = r
            else:
                x = r
        ys.append(x)
    return ys


XS = [torch.tensor([0.5, -2.0]), torch.tensor([3.0, 1.0]), torch.tensor([-0.25, 0.75])]


def compare(ctx, text, net, spec, run=True):
    want = by_hand(spec)
    got = flat(net)
    require([type(m) for m in got] == [type(m) for m in want], "{} built {}", text, [type(m).__name__ for m in got])
    count = sum(p.numel() for w in want for p in w.parameters())
    require(sum(p.numel() for p in net.parameters()) == count, "{} has {} parameters of its own, expected {}", text, sum(p.numel() for p in net.parameters()), count)
    for g, w in zip(got, want):
        require(repr(g) == repr(w), "{} built {}, expected {}", text, g, w)
        a, b = g.state_dict(), w.state_dict()
        require({k: v.shape for k, v in a.items()} == {k: v.shape for k, v in b.items()}, "{}: parameters {}", text, {k: tuple(v.shape) for k, v in a.items()})
        w.load_state_dict(a)
    if not run:
        return
    with torch.no_grad():
        ys = forward(want, XS)
        h = None
        for x, y in zip(XS, ys):
            r = net(x) if h is None else net(x, h)
            if isinstance(r, tuple):
                r, h = r
            require_same(r, y, f"output of {text}", 1e-5)
            ctx.step()


def judge(ctx, tokens, sep=" ", run=True):
    text = sep.join(tokens)
    Canary.touched.clear()
    try:
        spec = Recognizer(tokens).whole()
    except Reject:
        spec = None
    expected = None
    if spec is not None:
        try:
            by_hand(spec)
        except Exception as e:
            expected = type(e)
        Canary.touched.clear()
    err = net = None
    try:
        net = str_to_net(text, **CONSTS)
    except Exception as e:
        err = e
    if spec is None:
        require(err is not None, "{!r} is not a network expression, but it built {}", text, net)
        require(isinstance(err, (NetParsingError, SyntaxError)), "{!r} was refused with {!r} instead of a parsing error", text, err)
        str(err), repr(err)
        require(not Canary.touched, "{!r}: a constant was {}", text, Canary.touched)
    elif expected is not None:
        require(err is not None, "{!r} built {}, but its layers cannot be built", text, net)
        require(type(err) is expected or isinstance(err, NetParsingError), "{!r}: {!r} instead of {}", text, err, expected)
    else:
        require(err is None, "{!r} was refused: {!r}", text, err)
        compare(ctx, text, net, spec, run)
    ctx.state(text)
    return spec is not None and expected is None


def toks(s):
    return re.findall(r"'[^']*'|\d+\.\d*|\w+|>>|:=|\*\*|[^\s\w]", s)


FORMS = ["Linear(2, 2)", "Linear(n, m[1], bias=flag)", "Tanh()", "Apply('*', -2.5)", "RNN(2, hidden_size=2)", "Clip(lb=-1, ub=n)"]


def groupings(parts):
    """All fully explicit binary groupings, and the plain one."""
    if len(parts) == 1:
        yield parts[0]
        return
    for k in range(1, len(parts)):
        for l in groupings(parts[:k]):
            for r in groupings(parts[k:]):
                yield ["("] + l + [")", ">>", "("] + r + [")"]


def plain_join(parts):
    out = list(parts[0])
    for p in parts[1:]:
        out += [">>"] + p
    return out


def grammar_case(ctx, forms):
    parts = [toks(f) for f in forms]
    run = len(forms) <= 3
    ok = judge(ctx, plain_join(parts), run=run)
    require(ok, "harness: {} not accepted by the reference grammar", forms)
    for g in groupings(parts):
        judge(ctx, g, run=run)
    judge(ctx, plain_join(parts), sep="\n ", run=False)
    judge(ctx, ["("] + plain_join(parts) + [")"], run=False)


ARGS = {
    "Linear": (["2", "n", "m[1]", "d['k']", "(2)"], ["in_features", "out_features", "bias"], [["2", "n", "m[1]"], ["2", "n", "d['k']"], ["True", "False", "flag"]]),
    "Apply": (None, ["operator", "argument"], [["'+'", "'-'", "'*'", "'/'", "'**'"], ["2", "-2.5", "n"]]),
    "RNN": (None, ["input_size", "hidden_size", "nonlinearity"], [["2", "n"], ["2", "m[2]"], ["'tanh'", "'relu'", "'sigmoid'"]]),
    "Clip": (None, ["lb", "ub"], [["-1", "-0.5"], ["n", "1.0"]]),
    "Slice": (None, ["from_index", "to_index"], [["0", "1"], ["2", "n"]]),
    "FeedForwardNet": (None, ["input_size", "layers"], [["n", "2"], ["[(2, 'tanh')]", "[(3, 'relu', False), (2, None)]", "[[3, 'elu'], (2, 'hardtanh'),]"]]),
}


def args_case(ctx, name, values, npos, order):
    names = ARGS[name][1]
    a = [values[i] for i in range(npos)]
    kw = [(names[i], values[i]) for i in order]
    text = f"{name}(" + ", ".join(a + [f"{k}={v}" for k, v in kw]) + ")"
    require(judge(ctx, toks(text)), "harness: {} not accepted", text)
    # within a chain as well
    require(judge(ctx, toks(f"Tanh() >> {text}"), run=name != "Slice"), "harness: chain with {} not accepted", text)


BASES = [
    "Linear(2, 2)",
    "Linear(n, m[1], bias=flag) >> Tanh()",
    "(Tanh() >> ReLU()) >> Clip(-1, ub=1.5)",
    "Apply('+', 2) >> RNN(2, n, 'tanh') >> Linear(2, 1)",
    "Tanh() >> (Linear(in_features=n, out_features=2) >> ReLU())",
    "FeedForwardNet(2, [(n_, 'tanh'), (2, None)])",
    "FeedForwardNet(n, [(3, 'tanh'), (2, None)])",
    "Linear(canary, 2)",
    "LSTM(d['k'], 2,) >> Softmax(dim=-1)",
    "Sequential() >> Tanh()",
]
TOKENS = [">>", "+", "-", "*", "**", "|", "(", ")", "[", "]", ",", "=", ":=", ".", ":", ";", "n", "canary", "torch", "nn", "Callable", "__import__", "lambda", "if", "'x'", "Tanh"]


def corruptions(ts):
    n = len(ts)
    for i in range(n):
        yield ts[:i] + ts[i + 1 :]
        yield ts[:i] + [ts[i], ts[i]] + ts[i + 1 :]
        if i + 1 < n:
            yield ts[:i] + [ts[i + 1], ts[i]] + ts[i + 2 :]
        for t in TOKENS:
            yield ts[:i] + [t] + ts[i + 1 :]
            yield ts[:i] + [t] + ts[i:]
    for t in TOKENS:
        yield ts + [t]


def corrupt_case(ctx, base):
    for c in corruptions(toks(base)):
        judge(ctx, c, run=False)


OUTSIDE = [
    "", "   ", "n", "canary", "canary()", "canary.method()", "nn.Tanh()", "Linear", "Linear(2, 2).forward(n)", "Linear(2, canary())", "Linear(2, canary.x)", "Linear(2, -canary)",
    "Linear(2, canary + 1)", "Linear(*m)", "Linear(*canary)", "Linear(2, **d)", "Linear(**canary)", "Linear(2, 2)()", "Linear(2, 2)[0]", "[Tanh()]", "(Tanh(), Tanh())", "Tanh(),", "{Tanh()}",
    "lambda: Tanh()", "Tanh() if canary else ReLU()", "Tanh() and ReLU()", "not Tanh()", "Tanh() << ReLU()", "Tanh() >> n", "canary >> Tanh()", "Tanh() >> canary", "Tanh() >>", ">> Tanh()",
    "Tanh() Tanh()", "Tanh() >> >> Tanh()", "torch()", "nn()", "nnf()", "Callable()", "List()", "Optional(2)", "Tuple()", "Union()", "functional()", "init()", "Parameter()", "print('x')",
    "__import__('os')", "__builtins__()", "__loader__()", "__name__()", "eval('1')", "exec('1')", "NoSuchLayer()", "linear(2, 2)", "Linear(2, k)", "Linear(2, m[7])", "Linear(2, m['a'])", "Linear(2, d[0])",
    "Linear(2, m[n])", "Linear(2, m[0:1])", "Linear(2, m[-1])", "Linear(2, (m)[0][0])", "Linear(2, n[0])", "Linear(2, (1, n))", "Linear(2, [n])", "Linear(2, f'{n}')", "Linear(2, 1 + 1)", "Linear(2, 2 * 1)",
    "Linear(2, (x for x in m))", "Linear(2, [x for x in m])", "Linear(2, n := 2)", "Linear(2, n=2, n=2)", "Linear(out_features=2, 2)", "x = Tanh()", "Tanh(); Tanh()", "import os", "Tanh(\n", "Tanh()\n)", "'Tanh()'",
    "2 >> Tanh()", "Tanh() >> 2", "Tanh() > Tanh()", "Tanh() or canary()", "(Tanh() >> ReLU)()", "(yield)", "await Tanh()", "Tanh()\x00",
]


def outside_case(ctx, text):
    Canary.touched.clear()
    try:
        net = str_to_net(text, **CONSTS)
    except Exception as e:
        require(isinstance(e, (NetParsingError, SyntaxError)) or (isinstance(e, ValueError) and "\x00" in text), "{!r} was refused with {!r} instead of a parsing error", text, e)
        str(e), repr(e)
    else:
        require(False, "{!r} is not a network expression, but it built {}", text, net)
    require(not Canary.touched, "{!r}: a constant was {}", text, Canary.touched)
    ctx.state(text)


def where_case(ctx, bad, line, lines):
    """The position of an error is that of the offending line."""
    parts = ["Tanh()"] * lines
    parts[line] = bad
    text = "\n>> ".join(parts)
    try:
        str_to_net(text, **CONSTS)
    except NetParsingError as e:
        m = re.search(r"line\((\d+)\)", str(e))
        require(m is not None and int(m.group(1)) == line + 1, "error in line {} reported as {}", line + 1, str(e))
    else:
        require(False, "{!r} was accepted", text)
    ctx.state((bad, line, lines))


# ---- the layers themselves ------------------------------------------------------
GRID = [-2.0, -0.5, 0.3, 1.0, 2.6]


def layer_case(ctx, name, args):
    x = torch.tensor(GRID, dtype=torch.float64)
    m = getattr(layers, name)(*args)
    y = m(x)
    if name == "Clip":
        w = [min(max(v, args[0]), args[1]) for v in GRID]
    elif name == "Bin":
        w = [None if abs(abs(v - args[0]) - abs(v - args[1])) < 1e-9 else args[0] if abs(v - args[0]) < abs(v - args[1]) else args[1] for v in GRID]
    elif name == "Slice":
        w = GRID[args[0] : args[1]]
    elif name == "Round":
        q = 10.0 ** (args[0] if args else 0)
        w = [round(v * q) / q for v in GRID]
    else:
        op = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "**": lambda a, b: a**b}[args[0]]
        w = [op(v, args[1]) for v in GRID]
        w = [math.nan if isinstance(v, complex) else v for v in w]
    got = y.tolist()
    require(len(got) == len(w), "{}{} gave {} values", name, args, len(got))
    for v, a, b in zip(GRID, got, w):
        require(b is None or abs(a - b) < 1e-9 or (math.isnan(b) and math.isnan(a)), "{}{} maps {} to {}, expected {}", name, args, v, a, b)
    require(x.tolist() == GRID, "{} altered its input", name)
    ctx.state((name, args))


def fill(m, salt):
    with torch.no_grad():
        for i, p in enumerate(m.parameters()):
            k = torch.arange(p.numel(), dtype=torch.float64)
            p.copy_((torch.sin(k * 1.7 + i * 0.9 + salt)).to(p.dtype).reshape(p.shape))


def rnn_case(ctx, nin, nh, act, salt):
    m = layers.RNN(nin, nh, act)
    fill(m, salt)
    f = {"tanh": torch.tanh, "relu": torch.relu, "sigmoid": torch.sigmoid}[act]
    h = torch.zeros(nh)
    state = None
    with torch.no_grad():
        for t in range(4):
            x = torch.sin(torch.arange(nin, dtype=torch.float32) + t)
            r, state = m(x) if state is None else m(x, state)
            h = f(m.W1.mv(x) + m.b1 + m.W2.mv(h) + m.b2)
            require_same(r, h, f"output of the RNN at time {t}", 1e-5)
            require_same(state, h, f"state of the RNN at time {t}", 1e-5)
            ctx.step()
    ctx.state((nin, nh, act, salt))


def lstm_case(ctx, nin, nh, salt):
    m = layers.LSTM(nin, nh)
    fill(m, salt)
    ref = nn.LSTMCell(nin, nh)
    with torch.no_grad():
        ref.weight_ih.copy_(torch.cat([m.W_ii, m.W_if, m.W_ig, m.W_io]))
        ref.weight_hh.copy_(torch.cat([m.W_hi, m.W_hf, m.W_hg, m.W_ho]))
        ref.bias_ih.copy_(torch.cat([m.b_ii, m.b_if, m.b_ig, m.b_io]))
        ref.bias_hh.copy_(torch.cat([m.b_hi, m.b_hf, m.b_hg, m.b_ho]))
        state = hc = None
        for t in range(4):
            x = torch.sin(torch.arange(nin, dtype=torch.float32) * 2 + t)
            r, state = m(x) if state is None else m(x, state)
            hc = ref(x) if hc is None else ref(x, hc)
            require_same(r, hc[0], f"output of the LSTM at time {t}", 1e-5)
            ctx.step()
    ctx.state((nin, nh, salt))


ACTS = {"relu": torch.relu, "selu": nn.SELU(), "elu": nn.ELU(), "tanh": torch.tanh, "hardtanh": nn.Hardtanh(), "sigmoid": torch.sigmoid, "round": torch.round, None: lambda x: x}


def dense_case(ctx, sizes, acts, biases, salt):
    spec = [(s, a) if b is None else (s, a, b) for s, a, b in zip(sizes, acts, biases)]
    m = layers.FeedForwardNet(2, spec)
    fill(m, salt)
    lin = [q for q in m.modules() if isinstance(q, nn.Linear)]
    require([q.out_features for q in lin] == list(sizes), "FeedForwardNet has layers {}", lin)
    require([q.bias is not None for q in lin] == [b is not False for b in biases], "FeedForwardNet has layers {}", lin)
    with torch.no_grad():
        for x in (XS[0], torch.stack(XS)):
            y = x
            for q, a in zip(lin, acts):
                y = ACTS[a](nn.functional.linear(y, q.weight, q.bias))
            require_same(m(x), y, f"FeedForwardNet(2, {spec})", 1e-5)
    ctx.state((sizes, acts, biases))


def control_case(ctx, num_layers, bias, act, salt):
    m = layers.StructuredControlNet(in_features=2, out_features=3, num_layers=num_layers, hidden_size=2, bias=bias, nonlinearity=act)
    fill(m, salt)
    lin = [q for q in m.modules() if isinstance(q, nn.Linear)]
    chain = [q for q in lin if q is not m._linear_component] if hasattr(m, "_linear_component") else None
    n = sum(p.numel() for p in m.parameters())
    want = 2 * 3 + (3 if bias else 0) + num_layers * (2 * 2 + 2) + 2 * 3 + 3
    require(n == want, "StructuredControlNet has {} parameters, expected {}", n, want)
    if chain is not None:
        with torch.no_grad():
            y = XS[0]
            for q in chain:
                y = ACTS[act](nn.functional.linear(y, q.weight, q.bias))
            require_same(m(XS[0]), y + nn.functional.linear(XS[0], m._linear_component.weight, m._linear_component.bias), "StructuredControlNet", 1e-5)
    ctx.state((num_layers, bias, act))


def locomotor_case(ctx, sinusoids, bias, word):
    m = layers.LocomotorNet(in_features=2, out_features=2, bias=bias, num_sinusoids=sinusoids)
    fill(m, 0.3)
    with torch.no_grad():
        lin = [q for q in m.modules() if isinstance(q, nn.Linear)][0]
        lists = [q for q in m.modules() if isinstance(q, nn.ParameterList)]
        known = len(lists) == 3 and all(len(q) == sinusoids for q in lists)
        seen = {}
        t = 0
        for c in word:
            if c == "r":
                m.reset()
                t = 0
                continue
            require(m.t == t, "t is {} instead of {}", m.t, t)
            got = m(XS[1])
            require_same(got, seen.setdefault(t, got), f"LocomotorNet at t={t}")
            if known:  # amplitudes, frequencies, phases
                y = nn.functional.linear(XS[1], lin.weight, lin.bias)
                for i in range(sinusoids):
                    y = y + lists[0][i] * torch.sin(lists[1][i] * t + lists[2][i])
                require_same(got, y, f"LocomotorNet at t={t}", 1e-5)
            t += 1
            ctx.step()
    ctx.state((sinusoids, bias, word))


def run(ctx):
    # vary the positions of all forms
    for k in (1, 2, 3, 4) if ctx.thorough else (1, 2, 3):
        for forms in itertools.product(FORMS, repeat=k):
            ctx.case("grammar", " >> ".join(forms), grammar_case, ctx, forms)
    if not ctx.thorough:
        for forms in itertools.product(FORMS[:3], repeat=4):
            ctx.case("grammar", " >> ".join(forms), grammar_case, ctx, forms)
    for name, (_, names, doms) in ARGS.items():
        for values in itertools.product(*doms):
            for npos in range(len(names) + 1):
                for order in itertools.permutations(range(npos, len(names))):
                    ctx.case("arguments", f"{name} {values} {npos} {order}", args_case, ctx, name, values, npos, order)
    for b in BASES:
        ctx.case("corruptions", b, corrupt_case, ctx, b)
    for t in OUTSIDE:
        ctx.case("outside the grammar", repr(t), outside_case, ctx, t)
    for bad in ("Linear(2, zzz)", "n", "Tanh() + Tanh()", "Linear(2, 1 + 1)", "nn.Tanh()", "Linear(2, **d)", "Linear(2, m[1 + 1])"):
        for lines in (1, 2, 3):
            for line in range(lines):
                if bad == "Tanh() + Tanh()" and lines > 1:
                    continue  # binds tighter than >>
                ctx.case("outside the grammar", f"position {bad} {line} {lines}", where_case, ctx, bad, line, lines)
    for args in itertools.product((-1.0, -0.4), (0.0, 0.5, 2.0)):
        ctx.case("layers", f"Clip {args}", layer_case, ctx, "Clip", args)
        ctx.case("layers", f"Bin {args}", layer_case, ctx, "Bin", args)
    for a in range(0, 4):
        for b in range(a, 6):
            ctx.case("layers", f"Slice {a} {b}", layer_case, ctx, "Slice", (a, b))
    for args in ((), (0,), (1,)):
        ctx.case("layers", f"Round {args}", layer_case, ctx, "Round", args)
    for op in ("+", "-", "*", "/", "**"):
        for arg in (2, -1.5, 0.5, 3):
            ctx.case("layers", f"Apply {op} {arg}", layer_case, ctx, "Apply", (op, arg))
    for nin, nh, salt in itertools.product((1, 2, 3), (1, 2, 3), (0.0, 1.1)):
        for act in ("tanh", "relu", "sigmoid"):
            ctx.case("layers", f"RNN {nin} {nh} {act} {salt}", rnn_case, ctx, nin, nh, act, salt)
        ctx.case("layers", f"LSTM {nin} {nh} {salt}", lstm_case, ctx, nin, nh, salt)
    for k in (1, 2):
        for sizes in itertools.product((1, 3), repeat=k):
            for acts in itertools.product(ACTS, repeat=k):
                for biases in itertools.product((None, True, False), repeat=k):
                    ctx.case("layers", f"FeedForwardNet {sizes} {acts} {biases}", dense_case, ctx, sizes, acts, biases, 0.5)
    for nl, bias, act in itertools.product((0, 1, 2), (True, False), ("tanh", "relu")):
        ctx.case("layers", f"StructuredControlNet {nl} {bias} {act}", control_case, ctx, nl, bias, act, 0.2)
    for s, bias in itertools.product((1, 2, 4), (True, False)):
        for word in itertools.product("fr", repeat=4):
            ctx.case("layers", f"LocomotorNet {s} {bias} {word}", locomotor_case, ctx, s, bias, word)

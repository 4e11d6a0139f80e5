"""C22: sample selections mean what they say."""
import contextlib
import types

import numpy as np
import pandas as pd

from vf import sym
from vf.runner import scenario
from vf import batch

TITLE = "sample selections"
ASSUMPTIONS = [
    "every digit is an arbitrary one of 0..9: in the symbolic run a digit is a "
    "character of its own, which int() turns into a symbolic number",
    "the stand-ins for int() and range() follow Python's on these strings"]
cli = batch.cli

# one decimal digit character per position, each from another script
ZEROS = [0x660, 0x6F0, 0x7C0, 0x966, 0x9E6, 0xA66, 0xAE6, 0xB66, 0xBE6,
         0xC66, 0xCE6, 0xD66]


class Digits:
    """A string whose digits are symbolic."""

    def __init__(self, ctx):
        self.ctx, self.of = ctx, {}

    def new(self):
        k = len(self.of)
        d = self.ctx.int(f"digit{k}", 0, 9)
        if not self.ctx.symbolic:
            self.of[k] = d
            return str(d)
        c = chr(ZEROS[k])
        self.of[c] = d
        return c

    def value(self, text):
        """The number a string of sign and digits stands for."""
        if not self.ctx.symbolic:
            return int(text)
        neg = text.startswith("-")
        n = 0
        for c in text[1 if neg else 0:]:
            n = n * 10 + (self.of[c] if c in self.of else int(c))
        if not isinstance(n, sym.SNum):
            n = sym.SNum(n)
        return -n if neg else n


def int_for(digits):
    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, (int, sym.SNum))

        def __call__(cls, x=0, *base):
            if isinstance(x, sym.SNum):
                return x
            if not isinstance(x, str) or base:
                return int(x, *base)
            int(x)              # refuses what int() refuses
            return digits.value(x.strip().replace("_", "").lstrip("+"))

    class SInt(metaclass=Meta):
        pass
    return SInt


class Range:
    """range() of symbolic integers."""

    def __init__(self, *a):
        a = [x if isinstance(x, sym.SNum) else sym.SNum(int(x)) for x in a]
        start, stop, step = ([sym.SNum(0)] + a + [sym.SNum(1)])[:3] \
            if len(a) == 1 else (a + [sym.SNum(1)])[:3]
        if bool(step == 0):
            raise ValueError("range() arg 3 must not be zero")
        self.up = bool(step > 0)
        self.start, self.stop, self.step = start, stop, step
        self.items = None

    def _all(self):
        if self.items is None:
            self.items, x = [], self.start
            while bool(x < self.stop) if self.up else bool(x > self.stop):
                self.items.append(x)
                x = x + self.step
        return self.items

    def __iter__(self):
        return iter(self._all())

    def __len__(self):
        return len(self._all())

    def __getitem__(self, i):
        return self._all()[i]


@contextlib.contextmanager
def numbers(ctx, digits):
    if not ctx.symbolic:
        yield
        return
    sym.HASHED = []
    try:
        with batch.attr(cli, int=int_for(digits), range=Range):
            yield
    finally:
        sym.HASHED = None


def number(ctx, digits, text):
    """int() of a piece of text, or None if it is no number"""
    text = text.strip()
    body = text[1:] if text[:1] in "+-" else text
    if not body or not all(c.isdecimal() for c in body):
        return None
    return digits.value(text.lstrip("+"))


def meaning(ctx, digits, text):
    """(kind, list): 'all', 'list' or 'bad' by the documented format."""
    text = text.strip().lower()
    if text in ("all", "none"):
        return "all", None
    if ":" in text:
        parts = text.split(":")
        if len(parts) > 3:
            return "bad", None
        start = number(ctx, digits, parts[0]) if parts[0].strip() else 0
        if parts[0] and not parts[0].strip():
            return "blank", None
        stop = number(ctx, digits, parts[1])
        step = 1
        if len(parts) == 3 and parts[2]:
            step = number(ctx, digits, parts[2])
        if start is None or stop is None or step is None or bool(step == 0):
            return "bad", None
        want, x = [], start
        up = bool(step > 0)
        while bool(x < stop) if up else bool(x > stop):
            want.append(x)
            x = x + step
        return ("list", want) if want else ("bad", None)
    if "," in text:
        want = []
        for piece in text.split(","):
            if not piece.strip():
                continue
            v = number(ctx, digits, piece)
            if v is None:
                return "bad", None
            want.append(v)
    else:
        v = number(ctx, digits, text)
        if v is None:
            return "bad", None
        want = [v]
    keep = []
    for v in want:
        if not any(bool(ctx.eq(v, k)) for k in keep):
            keep.append(v)
    return ("list", keep) if keep else ("bad", None)


def compare(ctx, digits, text):
    kind, want = meaning(ctx, digits, text)
    exc = out = None
    with numbers(ctx, digits):
        try:
            out = cli.parse_samples(text)
        except sym.Unsupported:
            raise
        except Exception as e:      # noqa: BLE001
            exc = e
    if kind == "blank":
        return              # "  :5": unspecified
    if kind == "bad":
        ctx.check(exc is not None, "refused")
        ctx.reach("refused")
        return
    ctx.check(exc is None, "accepted")
    if exc is not None:
        return
    if kind == "all":
        ctx.check(out is None, "all samples")
        ctx.reach("all")
        return
    ctx.check(isinstance(out, list), "a list")
    ctx.check(len(out) == len(want), "as many as named")
    ctx.check(ctx.all([ctx.eq(x, y) for x, y in zip(out, want)]),
              "the ones named, in order")
    ctx.reach("list")


def build(digits, template):
    return "".join(digits.new() if c == "D" else c for c in template)


TEMPLATES = ("D", "DD", "-D", "D:D", "D:1D", ":D", ":1D", "D:D:D", "D:D:-D",
             "1D:D:-D", ":D:D", "D:D:", "D,D", "D,D,D", "D, D", " D ",
             "D,D,D,D", "D,D,", ",D", "-D,D", "DD,DD", "-D:D", "D:-D",
             "1D:2D:D", " D : D ")
OTHER = ("", " ", ",", ":", "::", ":::", "all", "ALL", " None ", "none",
         "alle", "D:", "D::D", "D:D:D:D", "D,D:D", "D D", "D.D", "D;D", "x",
         "D,x", "x:D", "D:x", "D-D", "--D", "-", "-:D", "D:D:x", "nan", "aD")


@scenario(reach=["list"],
          quick=[{"template": t} for t in TEMPLATES],
          thorough=[{"template": t} for t in TEMPLATES
                    + ("D,D,D,D,D", "DD,DD,DD", "D:DD", ":DD", "DD:D:-D",
                       "DD:DD:D", "DD:DD:-D", "DDD:DDD:DD",
                       "D, D ,D", "-DD:DD:D", "DD:-DD:-D")])
def format(ctx, template):
    """Every number in a string of the given form."""
    digits = Digits(ctx)
    compare(ctx, digits, build(digits, template))


@scenario(reach=["refused", "all"])
def keywords(ctx):
    """Key words and malformed strings."""
    digits = Digits(ctx)
    compare(ctx, digits, build(digits, ctx.choice("text", OTHER)))


@scenario(reach=["refused", "list"],
          quick=[{"n": n, "alphabet": "D:,-"} for n in (1, 2, 3)]
          + [{"n": n, "alphabet": "D:,- x."} for n in (2, 3)],
          thorough=[{"n": n, "alphabet": "D:,-"} for n in (1, 2, 3, 4, 5)]
          + [{"n": n, "alphabet": "D:,- x.;+"} for n in (2, 3, 4)])
def anything(ctx, n, alphabet):
    """Every string of n characters (numbers of at most two digits)."""
    digits = Digits(ctx)
    form = "".join(ctx.choice(f"c{i}", tuple(alphabet)) for i in range(n))
    ctx.assume("DDD" not in form and (n < 5 or "DD" not in form))
    compare(ctx, digits, build(digits, form))


@scenario(reach=["int", "None"])
def plain(ctx):
    """Values that are not strings."""
    if ctx.flag("none"):
        ctx.check(cli.parse_samples(None) is None, "None means all")
        ctx.reach("None")
        return
    k = int(ctx.int("k", 0, 30))
    ctx.check(cli.parse_samples(k) == [k], "a single index")
    ctx.reach("int")


@scenario(reach=["measured", "refused", "all"],
          quick=[{"m": m, "what": w} for m in (1, 2, 3)
                 for w in ("egw", "fref")])
def chosen(ctx, m, what):
    """PostProcess: results for exactly the samples asked for, in order."""
    index = [7, 0, 3]
    vals = [ctx.real(f"p{i}", -1, 1) for i in range(3)]
    table = pd.DataFrame({"a": np.array(vals, dtype=object),
                          "b": [10.0, 20.0, 30.0]}, index=index)

    class Post(batch.postprocess.PostProcess):
        def get_posterior(self, parameter_columns=None):
            return table

    def generator(params, kw):
        return {}
    post = Post("nowhere", generator, data_dict_generator_extra_kwargs={
        "x": 1})
    if ctx.flag("all"):
        samples = None
    else:
        samples = [ctx.choice(f"s{i}", (0, 3, 7, 1)) for i in range(m)]
        if ctx.flag("array"):
            samples = np.array(samples)
    made = []

    def measure(sample_index, params, *rest):
        made.append((int(sample_index), params, rest))
        return types.SimpleNamespace(sample_index=int(sample_index),
                                     status="success")
    ctxs = batch.attr(batch.postprocess, postprocess_sample=measure,
                      get_fref_bounds_for_sample=measure)

    def go():
        if what == "egw":
            return post.postprocess(fref=20.0, samples=samples, n_jobs=1,
                                    method="Frequency",
                                    gw_eccentricity_kwargs={"y": 2})
        return post.get_fref_bounds(samples=samples, n_jobs=1,
                                    method="Frequency",
                                    gw_eccentricity_kwargs={"y": 2})
    want = index if samples is None else [int(s) for s in samples]
    with ctxs, quiet():
        if any(s not in index for s in want):
            ctx.check(ctx.raises(go) is not None, "unknown sample refused")
            ctx.check(not made, "nothing measured")
            ctx.reach("refused")
            return
        out = go()
    ctx.check([r.sample_index for r in out.results] == want,
              "results for the samples asked for, in order")
    ctx.check([k for k, _, _ in made] == want, "each measured once")
    for k, params, rest in made:
        i = index.index(k)
        ctx.check(set(params) == {"a", "b"}, "all columns")
        ctx.check(ctx.eq(params["a"], vals[i]), "parameters of the sample")
        ctx.check(params["b"] == 10.0 * (i + 1), "parameters of the sample")
        want_rest = (generator, {"x": 1}, "Frequency", {"y": 2})
        if what == "egw":
            want_rest = (None, 20.0) + want_rest
        ctx.check(tuple(rest) == want_rest, "settings")
    ctx.reach("all" if samples is None else "measured")


@contextlib.contextmanager
def quiet():
    import contextlib as c
    import io
    with c.redirect_stderr(io.StringIO()):
        yield

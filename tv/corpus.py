"""Definitions for the in-process monitors, taken from the other checks."""
import collections
import importlib
import random

from tv import core


Tapped = collections.namedtuple("Tapped", "cfg case header prop")


class _Tap:
    """Stands in for a Ctx and keeps the cases instead of running them."""

    def __init__(self, ctx, prop, scale):
        self.cases, self._ctx, self.prop, self._scale = [], ctx, prop, scale
        self.thorough, self.tier, self.seed = False, "quick", ctx.seed
        self.rng = random.Random("tap/%s/%d" % (prop, ctx.seed))
        self.extra, self.assumptions, self.rule, self.counts, self.known = {}, [], "", {}, {}
        self.configs, self.evaluations, self.traces, self.samples, self.violations = [], 0, set(), [], []

    def sub_rng(self, label):
        return random.Random("tap/%s/%d/%s" % (self.prop, self.seed, label))

    def scale(self, q, t):
        return max(1, int(q * self._scale))

    def count(self, *a):
        pass

    log = count

    def run_cases(self, cfg, cases, **kw):
        self.cases += [Tapped(cfg, c, kw.get("header", ""), self.prop) for c in cases]
        return [c.id for c in cases], {}


def taps(ctx, props, scale):
    out = []
    for p in props:
        if p == "C11":
            from tv.props import c11
            cfg = core.Config()
            for o in sorted(c11.OPS) + [None]:
                for i in range(max(1, int((40 if o else 400) * scale))):
                    c = c11.build_case(random.Random("tap/C11/%d/%s%d" % (ctx.seed, o, i)), "%s_%d" % (o or "valid", i), o)
                    if c:
                        out.append(Tapped(cfg, c["case"], c11.HEADER, p))
            continue
        t = _Tap(ctx, p, scale)
        importlib.import_module("tv.props." + p.lower()).run(t)
        out += t.cases
    return out


def runnable(tapped):
    """Those which run on any stable configuration, by header, renamed."""
    out = {}
    for t in tapped:
        c = t.case
        if t.cfg.toolchain == "stable" and not t.cfg.attrs and not t.cfg.deps and not c.known and " run(m" in c.code:
            out.setdefault(t.header, []).append(core.Case("%s_%s" % (t.prop.lower(), c.id), c.code, c.desc))
    return out


def write(path, texts):
    with open(path, "w") as f:
        f.write("\n@@@@\n".join(texts))

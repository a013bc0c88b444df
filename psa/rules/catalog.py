"""Catalogue of the library's building blocks, discovered from the analysed program (not from a list)."""
import ast

from ..interp import Interp
from ..terms import *
from .. import libext
from .base import REPO

_cache = {}


class Item:
    def __init__(self, ci, params, required, optional, kind, name):
        self.ci, self.params, self.required, self.optional, self.kind, self.regname = ci, params, required, optional, kind, name
        self.name = ci.name
        self.imp = "from %s import %s" % (ci.module.name, ci.name)

    def build(self, var, prefix=None, extra="", values=None):
        """driver statements constructing the object with symbolic parameter values"""
        prefix = prefix if prefix is not None else var + "_"
        args = []
        if "name" in self.required or "name" in self.optional and self.kind == "aux":
            args.append("name=%r" % var)
        if extra:
            args.append(extra)
        out = [self.imp, "%s = %s(%s)" % (var, self.name, ", ".join(args))]
        for p in self.params:
            v = (values or {}).get(p, "real(%r)" % (prefix + p))
            out.append("%s.%s = %s" % (var, p, v))
        return "\n".join(out) + "\n"

    def isa(self, name):
        return any(c.name == name for c in self.ci.mro())


def sig(ci, I):
    for c in ci.mro():
        f = c.methods.get("__init__")
        if f is not None:
            a = f.node.args
            names = [x.arg for x in a.args][1:] + [x.arg for x in a.kwonlyargs]
            nd = len(a.defaults)
            req = names[:len([x.arg for x in a.args][1:]) - nd]
            return req, [n for n in names if n not in req]
    return [], []


def catalog():
    if "items" in _cache:
        return _cache["items"]
    I = Interp(root=REPO)
    I.exists_mode = FALSE
    I.run_driver("import popsynth\nfrom popsynth.aux_samplers.sky_sampler import RASampler\n", "psa_driver_catalog")
    items = []
    for c in I.P.classes.values():
        if not c.module.name.startswith("popsynth"):
            continue
        names = {x.name for x in c.mro()}
        kind = None
        for n, k in (("SpatialDistribution", "spatial"), ("LuminosityDistribution", "lum"), ("AuxiliarySampler", "aux"),
                     ("SelectionProbability", "sel")):
            if n in names:
                kind = k
        if kind is None or c.name in ("SpatialDistribution", "LuminosityDistribution", "AuxiliarySampler", "SelectionProbability",
                                      "NonObservedAuxSampler", "DerivedLumAuxSampler", "DummySelection"):
            continue
        if I.get(("C", c, "__abstractmethods__")) is ABSENT or libext.has_abstract(I, c):
            continue
        params = []
        defaults = set()
        for b in reversed(c.mro()):
            for k in list(I.h):
                if k[0] == "C" and k[1] is b and isinstance(k[2], str):
                    v = I.h[k]
                    if v.op == "obj" and I.oinfo(v).cls is not None and any(x.name == "Parameter" for x in I.oinfo(v).cls.mro()):
                        if k[2] not in params:
                            params.append(k[2])
                        if I.getattr_(v, "default") is not NONE:
                            defaults.add(k[2])
                        else:
                            defaults.discard(k[2])
        req, opt = sig(c, I)
        rn = None
        for a in ("_distribution_name", "_auxiliary_sampler_name", "_selection_name"):
            v = I.class_attr(c, a)
            if v is not ABSENT and is_const(v):
                rn = cval(v)
        items.append(Item(c, params, req, opt, kind, rn))
        items[-1].defaults = defaults
    _cache["items"] = items
    _cache["I"] = I
    return items


def kinds(kind):
    return [i for i in catalog() if i.kind == kind]


def by_name(n):
    for i in catalog():
        if i.name == n:
            return i
    return None

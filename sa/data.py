"""Scenarios for the dataset loaders."""
from .runs import _r
from .spec import *


def load(name, tf=False, subset=None, md5=None, extra=None):
    def build(E):
        m = E.prog.modules["copt.datasets"]
        st = E.start(m)
        E.tf = tf
        kw = {}
        if subset is not None:
            kw["subset"] = vstr(subset)
        if md5 is not None:
            kw["md5_check"] = vbool(md5)
        if extra:
            kw.update(extra)
        return E.call_value(st, E.func("copt.datasets." + name), [], kw, NODE)
    return build


LOADERS = {"load_madelon": "subset", "load_rcv1": "subset", "load_gisette": "subset", "load_covtype": None, "load_news20": None,
           "load_url": "md5", "load_kdd10": "md5", "load_kdd12": "md5", "load_criteo": "md5", "load_img1": None}


def loaders():
    out = []
    for n, k in LOADERS.items():
        if k == "subset":
            for s in ("full", "train", "test"):
                out.append(_r("%s[%s]" % (n, s), load(n, subset=s), "data", n, s, loader=n, subset=s))
        elif k == "md5":
            for b in (True, False):
                out.append(_r("%s[md5_check=%s]" % (n, b), load(n, md5=b), "data", n, "md5", loader=n, md5=b))
        else:
            out.append(_r(n, load(n), "data", n, loader=n, subset="train"))
    return out

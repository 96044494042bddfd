from . import c13
from .. import runs as R
from ..scen import *


class Check(c13.Check):
    id = "C14"
    technique = "inference of sample-count dimensions: every reduction over samples carries one factor n, every division by n removes it"
    rule = """The number of samples is treated as a dimension: a sum, inner product, squared norm or matrix product over the sample axis
    carries one factor n, a division by the number of samples removes it. In every loss, terms that are added must carry the same power
    of n and the value, gradient, Hessian products and Lipschitz constants must carry none, so that a data term is divided by n exactly
    once and a regularisation term never; hence replicating the data changes nothing."""

    def runs(self):
        out = [r for r in R.losses(("dense", "csr", "any"))]
        out += [r for r in R.utils_() if "get_max_lipschitz" in r.tags]
        return out

    def setup(self, E, run):
        super().setup(E, run)
        E.dim_count = True
        for b in "XFZW":        # only powers of the number of samples matter here
            E.units.sub[b] = ONE

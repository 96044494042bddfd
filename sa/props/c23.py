from .. import fsmodel
from ..framework import Finding


class Check(fsmodel.Loaders):
    id = "C23"
    technique = "abstract interpretation of the dataset loaders over a symbolic file system: terms of what is written to and read back from each cache file, compared between first and later calls"
    rule = "first and later calls return the same terms; values, indices and row pointers keep their roles; subsets are the right files in the right order; loaders share no file"

    def combine(self, res, wr):
        by = {}
        for r in res:
            d = r.get("data") or {}
            for p in set(d.get("paths", ())) | set(d.get("reads", ())):
                by.setdefault(p, set()).add(d["loader"])
        for p, ls in sorted(by.items()):
            if len(ls) > 1:
                wr["findings"].append(Finding("C23:%s:shared-file:%s" % ("+".join(sorted(ls)), fsmodel.short(p)), "copt/datasets.py", sorted(ls)[0],
                                              "%s use the same cache file %s" % (" and ".join(sorted(ls)), p), "all loaders"))

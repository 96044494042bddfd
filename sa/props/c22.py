from .. import fsmodel
from ..framework import Finding


class Check(fsmodel.Loaders):
    id = "C22"
    technique = "abstract interpretation of the dataset loaders over a symbolic file system: typestate of each download (new, verified, mismatched) and taint of archive member names"
    rule = "a download whose checksum is known is used only after it was found equal; a mismatched one is discarded and the same dataset retried; members of archives stay inside the data directory; every loader has its own source"

    def combine(self, res, wr):
        by = {}
        for r in res:
            for u in (r.get("data") or {}).get("urls", ()):
                by.setdefault(u, set()).add(r["data"]["loader"])
        for u, ls in sorted(by.items()):
            if len(ls) > 1:
                wr["findings"].append(Finding("C22:%s:shared-source" % "+".join(sorted(ls)), "copt/datasets.py", sorted(ls)[0],
                                              "%s return the content of the same download %s" % (" and ".join(sorted(ls)), u), "all loaders"))

from .. import fsmodel


class Check(fsmodel.Loaders):
    id = "C33"
    technique = "abstract interpretation of the dataset loaders over a symbolic file system, closed under crashes: every loader is analysed again from each state an interruption at any file operation can leave"
    rule = "from every such state no partial file is used, no missing file opened, no existing directory created, no missing file removed"

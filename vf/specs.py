"""The obligations of every property."""
from .cbmc import Job

SPECS = {}


class Spec:
    def __init__(self, pid, fn, bounds, outside="", assumptions=(), explanation="", technique="", note=""):
        self.tasks, self.bounds, self.outside = fn, bounds, outside
        self.assumptions, self.explanation = list(assumptions), explanation
        self.technique, self.note = technique, note
        SPECS[pid] = self


from . import specs_util, specs_enc, specs_sys, specs_lim, specs_par, specs_msg, specs_kdf, specs_aes, specs_sha      # noqa: E402,F401

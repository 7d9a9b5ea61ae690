"""Generation and resolution of fault specifications.

A specification is JSON: {"cat", "frac", "kind", "sticky", "arg"}; frac selects
one of the events of that category counted in a fault-free rehearsal of the
same operation with fresh modules, so every spec lands inside the operation."""

from . import vfs

READ_KINDS = [
    ("stat", "ENOENT"), ("stat", "EACCES"), ("stat", "EIO"),
    ("open", "ENOENT"), ("open", "EACCES"), ("open", "EMFILE"),
    ("open", "EIO"),
    ("read", "EIO"), ("read", "EIO"), ("read", "EISDIR"), ("read", "corrupt"),
    ("read", "corrupt"), ("read", "ESTALE"),
    ("close", "EIO"),
]
INTR_KINDS = [("any", "intr"), ("any", "intr_after"), ("any", "nomem")]
KILL_KINDS = [("any", "kill"), ("any", "kill_after"), ("write", "torn"),
              ("out", "torn")]
WRITE_KINDS = [
    ("write", "ENOSPC"), ("write", "EIO"), ("write", "EDQUOT"),
    ("write", "ENOSPC"), ("close", "lost"), ("open", "EACCES"),
    ("open", "EROFS"), ("open", "ENOSPC"), ("write", "EFBIG"),
]
OUT_KINDS = [("out", "EPIPE"), ("out", "ENOSPC"), ("out", "EIO")]
ERR_KINDS = [("err", "EPIPE"), ("err", "EIO"), ("err", "ENOSPC")]
BENIGN = [("read", "short"), ("write", "short"), ("out", "short"),
          ("read", "EINTR"), ("err", "short"), ("write", "EINTR"),
          ("out", "EINTR")]

SOFT = {"short", "EINTR"}


def gen(r, kinds):
    cat, kind = r.choice(kinds)
    arg = r.random()
    if kind == "short":
        arg = r.choice([1, 1, 2, 7, 50])
    frac = r.random()
    k = r.random()
    if k < 0.1:
        frac = 0.0
    elif k < 0.2:
        frac = 0.999999
    return {"cat": cat, "frac": round(frac, 6), "kind": kind,
            "sticky": bool(kind not in SOFT and cat != "any" and
                           r.random() < 0.3),
            "arg": arg}


def resolve(specs, counts, nevents):
    """Fault objects for one operation, given rehearsal counts."""
    out = []
    for s in specs:
        n = nevents if s["cat"] == "any" else counts.get(s["cat"], 0)
        if n <= 0:
            continue
        out.append(vfs.Fault(s["cat"], int(s["frac"] * n), s["kind"],
                             s["sticky"], s["arg"]))
    return out


def hard(spec):
    return spec["kind"] not in SOFT

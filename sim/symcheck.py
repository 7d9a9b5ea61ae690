"""Compares symbol tables of the code under test with the reference model."""

from .core import Violation


def flat(symtab):
    """The table as {(tag, seg, sub, kind): (file, line, lognum, type, text)}"""
    out = {}
    for tag, segs in symtab.items():
        for seg, subs in segs.items():
            for sub, kinds in subs.items():
                for kind, e in kinds.items():
                    c = e["card"]
                    out[(tag, seg, sub, kind)] = (
                        e["file"], e["line"], e["lognum"], e["tagtype"],
                        c.line.rstrip("\n"), c.linenum, c.filename)
    return out


def want(table):
    out = {}
    for key, s in table.defs.items():
        c = s.card
        out[key] = (c.file, c.num, c.lognum, s.type, c.text, c.num, c.file)
    return out


def empties(symtab):
    """Nodes of the table that hold nothing."""
    out = []
    for tag, segs in symtab.items():
        if not segs:
            out.append((tag,))
        for seg, subs in segs.items():
            if not subs:
                out.append((tag, seg))
            for sub, kinds in subs.items():
                if not kinds:
                    out.append((tag, seg, sub))
    return out


def require(symtab, table, what, cls="table-wrong"):
    got, exp = flat(symtab), want(table)
    for k in exp:
        if k not in got:
            raise Violation(cls, "%s: definition %r missing" % (what, k))
        if got[k] != exp[k]:
            raise Violation(cls, "%s: definition %r is %r, expected %r" %
                            (what, k, got[k], exp[k]))
    for k in got:
        if k not in exp:
            raise Violation(cls, "%s: definition %r (%r) should not exist" %
                            (what, k, got[k]))
    e = empties(symtab)
    if e:
        raise Violation(cls, "%s: empty entries %r" % (what, e))


def require_reports(err, errors, what):
    """err: stderr text; one line with ERROR per diagnosed label, naming it."""
    lines = [x for x in err.splitlines() if "ERROR" in x and "Symbol" in x
             and not x.startswith(("Current", "Previous"))]
    if len(lines) != len(errors):
        raise Violation("reports-wrong", "%s: %d symbols reported, expected "
                        "%d: %r vs %r" % (what, len(lines), len(errors),
                                          lines[:20], errors[:20]))
    for ln, (lab, why) in zip(lines, errors):
        if lab not in ln:
            raise Violation("reports-wrong", "%s: report %r does not name %r "
                            "(%s)" % (what, ln, lab, why))

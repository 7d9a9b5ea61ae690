"""Reference models, written from the properties and the documentation, not
sharing code with the repository."""

import os
import re

FIELDS = [1, 2, 8, 9, 20, 33, 47, 61, 76, 81]
NAMES = ["column1", "lognum", "column8", "label", "operation", "operand1",
         "operand2", "operand3", "misc", "remarks"]
WIDTH = 120

OPS = """BA DA WA BS DS WD NA NN LA LN TX TS HA SM CP BM DM BT DT MT TN CC IT
EBA EBS RT MPC PR SWS SPS SWE SPE SSL SS EX RF RB WF RW PRA PRD PRO S FBA FDA
FBS FDS FBD FDD FBAU FDAU FBSU FDSU FBM FDM ULD FBAE FBSE BD DD FFN FCON FLN
FNN""".split()
CONTROL = """ASSIGN END EQUALS EVEN MASKGRP MODLOC RESERVE SETLOC SIMULATE
TAS""".split()
DATA = "ALF DEC EBC FLBIN FLDEC FXBIN OCT".split()
CCONST = """SPEC CAC MASKBASE CONTROL M TAC LINK SEGNAME SUBCALL""".split()
EXT = "CSCON DOFF DON SCON SPCR STOP".split()
MISC = "COREDUMP DUMP".split()
ARGUS = """ARGUS U MACRODEF FINIS ELIMSEG SEGMENT PROGRAM TESTDATA ELIMDATA
ELIMDERL DELETE ENDARGUS""".split()
INSTRUCTIONS = OPS + CONTROL + DATA + CCONST + EXT + MISC + ARGUS


class LoadError(Exception):
    """The source cannot be read in full."""


class MCard:
    __slots__ = ("text", "file", "num", "raw", "f", "rec", "argus")

    def __init__(self, text, file, num, fields=FIELDS, width=WIDTH,
                 argus=True):
        self.text = text
        self.file = file
        self.num = num
        self.argus = argus
        ends = [c - 1 for c in fields[1:]] + [width]
        self.raw = [text[a - 1:b] for a, b in zip(fields, ends)]
        self.f = [r.strip() or None for r in self.raw]
        rec = dict(zip(NAMES, self.f))
        if argus:
            if rec["column1"] in ("P", "R", "L"):
                for n in NAMES[3:9]:
                    rec[n] = None
                rec["remarks"] = text[8:].strip()
            op = rec["operation"]
            rec["instruction"] = op
            if op and "," in op:
                rec["instruction"] = op[:op.index(",")].strip()
        if num:
            rec["linenum"] = num
        self.rec = rec

    def __getattr__(self, name):
        return self.rec[name]


def split_lines(data):
    """bytes of a source file -> its lines (LF or CRLF ended)."""
    try:
        text = data.decode("utf-8")
    except UnicodeDecodeError:
        raise LoadError("not text")
    text = text.replace("\r\n", "\n").replace("\r", "\n")
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    return lines


def load(files, name, depth=0, fields=FIELDS, width=WIDTH, argus=True):
    """files: {name: bytes} -> list of MCard, or LoadError."""
    if depth > 400:
        raise LoadError("include cycle")
    key = os.path.normpath(name)
    if key not in files:
        raise LoadError("missing " + name)
    cards = []
    for i, line in enumerate(split_lines(files[key])):
        if line.startswith("#"):
            continue
        if line.startswith("$"):
            words = line[1:].split()
            if not words:
                raise LoadError("empty include")
            cards += load(files, words[0], depth + 1, fields, width, argus)
        else:
            cards.append(MCard(line, name, i + 1, fields, width, argus))
    return cards


def from_lines(lines, fields=FIELDS, width=WIDTH, argus=True):
    return [MCard(t.rstrip("\n"), None, i + 1, fields, width, argus)
            for i, t in enumerate(lines) if not t.startswith("#")]


def log_section(cards):
    for c in cards:
        if c.column1 == "L":
            return c.text[8:81].strip(), c.column8
    return None, None


# ---- symbols ---------------------------------------------------------------

class Sym:
    __slots__ = ("tag", "seg", "sub", "kind", "type", "card")


class Table:
    def __init__(self):
        self.defs = {}      # (tag, seg, sub, kind) -> Sym, in order of entry

    def copy(self):
        t = Table()
        t.defs = dict(self.defs)
        return t

    def tags(self):
        return sorted({k[0] for k in self.defs})

    def simple_tags(self):
        return sorted({k[0] for k in self.defs if k[3] == "simple"})

    def complex_only(self):
        s = set(self.simple_tags())
        return [t for t in self.tags() if t not in s]

    def nested(self):
        out = {}
        for (tag, seg, sub, kind), s in self.defs.items():
            out.setdefault(tag, {}).setdefault(seg, {}).setdefault(
                sub, {})[kind] = s
        return out


def stem(name):
    """A file name up to its first dot (directories untouched)."""
    d, b = os.path.split(name)
    return os.path.join(d, b.split(".")[0])


def build(files, name, table):
    """Adds the definitions of source `name`; returns the list of errors, each
    (label or tag, reason)."""
    cards = load(files, name)
    seg = stem(name)
    sub = "1"
    errors = []
    for c in cards:
        if c.column8 == "*":
            continue
        op = c.operation
        if op is not None and op[:6] == "SETLOC":
            sub = op.split(",")[1].strip() if "," in op else "0"
        if c.label is None:
            continue
        lab = c.label.replace(" ", "")
        parts = lab.split(",")
        if any(ch.islower() for ch in lab):
            errors.append((lab, "case"))
        elif len(parts) > 2:
            errors.append((lab, "commas"))
        elif len(parts) == 2 and parts[0] not in "B F L S X Z".split():
            errors.append((lab, "prefix"))
        elif len(parts) == 2 and parts[0] in ("L", "X"):
            errors.append((lab, "unsupported"))
        elif op is None:
            errors.append((lab, "no operation"))
        else:
            s = Sym()
            s.tag = parts[-1]
            s.seg, s.sub = seg, sub
            s.kind = "complex" if op == "ASSIGN" else "simple"
            s.type = parts[0] if len(parts) == 2 else " "
            s.card = c
            key = (s.tag, seg, sub, s.kind)
            old = table.defs.get(key)
            if old is None:
                table.defs[key] = s
            elif op == "EQUALS" and old.card.operation == "EQUALS" and \
                    (c.operand1, c.operand2, c.operand3) == \
                    (old.card.operand1, old.card.operand2,
                     old.card.operand3):
                pass
            else:
                errors.append((s.tag, "multiple"))
    return errors


# ---- page headers ----------------------------------------------------------

def page_block(data):
    """The block genpages must append to a file holding `data`, or None when
    it must refuse."""
    try:
        lines = split_lines(data)
    except LoadError:
        return None
    sec, col8 = log_section(from_lines(lines))
    start = end = None
    for ln in lines:
        if sec is None and ln.startswith("# Filename: "):
            w = ln.split()
            if len(w) < 3:
                return None
            sec = w[2].split(".")[0].replace("_", " ")
            col8 = "@"
        if ln.startswith("# Pages: "):
            w = ln.split()
            if len(w) < 3:
                return None
            m = re.fullmatch(r"(\d+)(?:-(\d+))?", w[2])
            if not m:
                return None
            start = int(m.group(1))
            end = int(m.group(2) or m.group(1))
    if sec is None or start is None or start > end:
        return None
    col8 = col8 or " "
    out = ["", "L      " + col8 + sec]
    for i, page in enumerate(range(start, end + 1)):
        n = str(i + 1).rjust(4)
        out += ["", "# Page %d" % page,
                "#      " + col8 + sec.ljust(72) +
                " USER'S OWN PAGE NO." + n + "        PAGE" + n, ""]
    return ("\n".join(out) + "\n").encode("utf-8")


def line_numbers(start, end, step, startcol, endcol, leading):
    width = max(4, len(str(end)), leading)
    out = []
    for i in range(start, end + step, step):
        num = str(i).rjust(width, "0")
        out.append(" " * (startcol - 1) + num +
                   " " * (endcol + 2 - startcol - width))
    return "".join(x + "\n" for x in out)


REG_NAMES = """AU1 AU2 SC CSC SH CSH UTR MXR X0 X1 X2 X3 X4 X5 X6 X7 R0 R1 R2 R3
R4 R5 R6 R7 S0 S1 S2 S3 S4 S5 S6 S7""".split()


def reg_name(n, v):
    """A name for a register object to be put into slot n: its own, none,
    another register's or an alias."""
    return (REG_NAMES[n], None, REG_NAMES[(5 * n + v) % 32], REG_NAMES[n],
            "RAC")[v % 5]

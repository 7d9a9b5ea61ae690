"""What each command-line tool must print and write, from the reference model,
and the comparison of a simulated process with it."""

import ast
import os
import re

from . import gensrc, model
from .core import Violation

SYMBOL_TOOLS = ["check-symbols", "list-symbols", "find-symbols"]
INSTR_TOOLS = ["check-instructions", "list-instructions", "parse"]


class Refuse(Exception):
    """The tool must end with a non-zero exit status."""


LONG = {"-b": "--begin", "-e": "--end", "-x": "--exact", "-f": "--fuzzy",
        "-v": "--verbose", "-D": "--details", "-a": "--all", "-c": "--count",
        "-i": "--invalid", "-p": "--print-opcodes", "-s": "--sort",
        "-u": "--unused", "-d": "--debug"}
SHORT = {v: k for k, v in LONG.items()}
SHORT["--complex"] = "-c"


# ---- jobs ------------------------------------------------------------------

def gen_job(r, tool, mains, files):
    """{tool, opts, key, args}"""
    args = [r.choice(mains) for _ in range(r.choice([1, 1, 2, 3]))] \
        if r.random() < 0.5 else r.sample(mains, len(mains))
    opts = []
    key = None
    if r.random() < 0.06 and tool not in ("genlines", "genpages"):
        opts.append("-v")
    if tool == "check-symbols":
        if r.random() < 0.7:
            opts.append(r.choice(["-c", "--complex"]))
    elif tool == "find-symbols":
        key = r.choice(gensrc.TAGS)
        k = r.random()
        if k < 0.35:
            opts += r.choice([["-x"], [], ["-D"]])
        elif k < 0.65:
            key = key[:r.randint(1, len(key))]
            opts.append(r.choice(["-b", "--begin"]))
        elif k < 0.85:
            key = key[-r.randint(1, len(key)):]
            opts.append(r.choice(["-e", "--end"]))
        else:
            opts.append(r.choice(["-f", "--fuzzy"]))
            if r.random() < 0.5:
                key = key + r.choice("123X")
        if r.random() < 0.05:
            key = "NOSUCH"
        if r.random() < 0.06:
            opts = r.sample(["-b", "-e", "-x", "-f"], 2)
    elif tool == "check-instructions":
        for o, p in (("-a", .3), ("-c", .6), ("-i", .3), ("-p", .3),
                     ("-s", .4), ("-u", .4)):
            if r.random() < p:
                opts.append(o)
    elif tool == "list-instructions":
        present = []
        for f in files:
            for ln in f["lines"]:
                op = ln[19:32].strip().replace(" ", "")
                if op.split(",")[0] in model.INSTRUCTIONS:
                    present.append(op)
        key = r.choice(present) if present and r.random() < 0.75 else \
            r.choice(model.INSTRUCTIONS)
        k = r.random()
        if k < 0.35:
            key = key.split(",")[0]
        elif k < 0.5:
            key = key.split(",")[0] + ","
        elif k < 0.6:
            key = key.split(",")[0] + ",M1"
        if r.random() < 0.05:
            key = r.choice(["FOO", "ba", "ZZZ,1"])
        if r.random() < 0.4:
            opts.append("-D")
    elif tool == "parse":
        if r.random() < 0.3:
            opts.append("-d")
    elif tool == "genlines":
        step = r.choice([1, 1, 2, 5, 10, 100])
        start = r.choice([0, 1, 10, 100, 9990, r.randint(0, 99999),
                          r.randint(100000, 999000)])
        n = r.choice([0, 1, 3, 20, 60, 900])
        end = start + n * step
        if end > 999999:
            end = start
        a, b = str(start), str(end)
        if r.random() < 0.3:
            a, b = a.zfill(r.randint(1, 6)), b.zfill(r.randint(1, 6))
        args = [a, b]
        if step != 1 or r.random() < 0.5:
            args.append(str(step))
            if r.random() < 0.5:
                args.append(str(r.choice([1, 2, 3, 9])))
                if r.random() < 0.5:
                    args.append(str(r.choice([6, 7, 12])))
        if r.random() < 0.05:
            args = r.choice([["1"], [], ["1", "1000000"], ["0000001", "2"],
                             ["1", "0000002"], ["999999", "1000000"]])
    elif tool == "genpages":
        args = args[:1]
    if r.random() < 0.02:
        args = []
        if key is not None and r.random() < 0.3:
            key = None
    if tool != "genlines" and r.random() < 0.15:
        args = [spell(r, n) for n in args]
    opts = [LONG[o] if o in LONG and tool != "check-symbols" and
            r.random() < 0.25 else o for o in opts]
    return {"tool": tool, "opts": opts, "key": key, "args": args}


def spell(r, name):
    """Another way to name the same file."""
    return r.choice(["", "./", "./", ".//"]) + name


def key_of(name):
    """The file a spelled name means, as keyed in a file tree."""
    return os.path.normpath(name)


def argv(job):
    return list(job["opts"]) + ([job["key"]] if job["key"] is not None
                                else []) + list(job["args"])


# ---- expectations ----------------------------------------------------------

class Expect:
    """exit: 0 or 'fail'; out: exact stdout or None; err: ordered list of
    (regex-free tokens) that stderr must report; files: {name: bytes} written;
    check: extra comparison."""

    def __init__(self):
        self.exit = 0
        self.out = None
        self.check = None
        self.err = []
        self.files = {}
        self.size = 0


def _sym_build(files, job, e):
    table = model.Table()
    errs = []
    for name in job["args"]:
        x = model.build(files, name, table)
        errs.append(x)
    return table, errs


def _bad_opts(job):
    return {SHORT.get(x, x) for x in job["opts"]}


def listing_name(name):
    d, b = os.path.split(name)
    dot = b.rfind(".")
    if dot > 0 and b[:dot].strip("."):
        b = b[:dot]
    return os.path.join(d, b + ".lst")


def listing_text(cards):
    out = []
    for c in cards:
        out.append("%s %s %s\n" % (c.file.ljust(64), str(c.num).ljust(6),
                                   c.text))
    return "".join(out).encode("utf-8")


def expected(files, job):
    """Expect of a fault-free run on `files`."""
    e = Expect()
    tool = job["tool"]
    opts = _bad_opts(job)
    try:
        _fill(files, job, e, tool, opts)
    except (model.LoadError, Refuse):
        e.exit = "fail"
        e.out = None
        e.check = None
        e.files = {} if tool != "listing" else e.files
    return e


def _fill(files, job, e, tool, opts):
    if not job["args"] and tool != "list-instructions":
        raise Refuse()
    if tool == "list-instructions" and job["key"] is None:
        if not job["args"]:
            raise Refuse()
        job = dict(job, key=job["args"][0], args=job["args"][1:])
    if tool in SYMBOL_TOOLS:
        if tool == "find-symbols":
            if len(opts & {"-b", "-e", "-x", "-f"}) > 1:
                raise Refuse()
        table, errs = _sym_build(files, job, e)
        nerr = sum(len(x) for x in errs)
        for name, x in zip(job["args"], errs):
            for lab, why in x:
                e.err.append(("sym", lab, why))
            if tool != "list-symbols":
                e.err.append(("count", name, len(x)))
        if tool == "list-symbols":
            e.out = _list_symbols(table)
            if nerr:
                e.err.append(("found", nerr))
        elif tool == "check-symbols":
            bad = table.complex_only() if "-c" in opts else []
            for t in bad:
                e.err.append(("complex", t))
            if bad:
                e.err.append(("checked", len(bad)))
            if len(job["args"]) > 1:
                e.err.append(("total", nerr + len(bad)))
            e.check = lambda out, err: _check_matches(out + err, bad, table)
        else:
            key = job["key"]
            if "-b" in opts:
                want = [t for t in table.tags() if t.startswith(key)]
                e.check = lambda out, err: _names(out, want)
            elif "-e" in opts:
                want = [t for t in table.tags() if t.endswith(key)]
                e.check = lambda out, err: _names(out, want)
            elif "-f" in opts:
                e.check = lambda out, err: _fuzzy_out(out, key, table)
            else:
                sel = {k: s for k, s in table.defs.items() if k[0] == key}
                if not sel:
                    e.err.append(("undef", key))
                e.check = lambda out, err: _exact_out(out, sel)
        e.size = len(table.defs) + nerr
    elif tool == "check-instructions":
        _check_instructions(files, job, e, opts)
    elif tool == "list-instructions":
        key = job["key"]
        if key.split(",")[0] not in model.INSTRUCTIONS:
            raise Refuse()
        out = []
        for name in job["args"]:
            for c in model.load(files, name):
                if not c.operation or c.column8 == "*":
                    continue
                op = c.operation.replace(" ", "")
                if "," not in key:
                    hit = op.split(",")[0] == key
                else:
                    hit = op == key or key.endswith(",") and op.startswith(key)
                if hit:
                    e.size += 1
                    out.append(c.text if "-D" not in opts else "%s %s %s" % (
                        c.file.ljust(48), str(c.num).rjust(6), c.text))
        e.out = "".join(x + "\n" for x in out)
    elif tool == "parse":
        out, errs = [], 0
        decks = []
        table, serr = _sym_build(files, job, e)
        for name, x in zip(job["args"], serr):
            for lab, why in x:
                e.err.append(("sym", lab, why))
            e.err.append(("count", name, len(x)))
            errs += len(x)
        n = 0
        for name in job["args"]:
            for c in model.load(files, name):
                n += 1
                if not c.instruction:
                    continue
                if "-d" in opts:
                    out.append("%s %d %s" % (c.file, c.num, c.text))
                if c.column8 != "*" and c.instruction not in \
                        model.INSTRUCTIONS:
                    out += _invalid(c)
                    errs += 1
        out += ["", "Source lines: %d" % n, _errors(errs)]
        e.size = errs + n
        e.out = "".join(x + "\n" for x in out)
    elif tool == "listing":
        for name in job["args"]:
            ln = key_of(listing_name(name))
            if ln == key_of(name):
                raise Refuse()
            cards = model.load(files, name)
            e.files[ln] = listing_text(cards)
            e.size += len(cards)
        e.out = ""
    elif tool == "genlines":
        a = job["args"]
        if len(a) < 2 or len(a[0]) > 6 or len(a[1]) > 6:
            raise Refuse()
        step = int(a[2]) if len(a) > 2 else 1
        sc = int(a[3]) if len(a) > 3 else 2
        ec = int(a[4]) if len(a) > 4 else 7
        e.out = model.line_numbers(int(a[0]), int(a[1]), step, sc, ec,
                                   len(a[1]))
        e.size = e.out.count("\n")
    elif tool == "genpages":
        name = key_of(job["args"][0])
        if name not in files:
            raise Refuse()
        blk = model.page_block(files[name])
        if blk is None:
            raise Refuse()
        e.files[name] = files[name] + blk
        e.out = ""
        e.size = 3
    else:
        raise AssertionError(tool)


def _invalid(c):
    return ["*** ERROR: Invalid instruction \"%s\":" % c.instruction,
            "File %s, line %d: %s" % (c.file, c.num, c.text)]


def _errors(n):
    return "1 error encountered." if n == 1 else "%d errors encountered." % n


def _check_instructions(files, job, e, opts):
    out = []
    tab = dict.fromkeys(model.INSTRUCTIONS, 0)
    lines = ops = errs = 0
    for name in job["args"]:
        for c in model.load(files, name):
            lines += 1
            if not c.instruction:
                continue
            ops += 1
            if "-p" in opts:
                out.append("%s %d %s" % (c.file, c.num, c.text))
            if c.column8 == "*":
                continue
            if c.instruction not in tab:
                out += _invalid(c)
                errs += 1
            else:
                tab[c.instruction] += 1
    e.size = lines
    head = "".join(x + "\n" for x in out)
    rows = []
    mid = []
    if "-c" in opts:
        mid += ["", "Source lines: %d" % lines, "",
                "Instruction Frequencies:",
                "%-8s %6d  %6.2f%%" % ("Total", ops, 100.0)]
        for i in sorted(tab):
            if "-u" in opts and not tab[i]:
                continue
            rows.append("%-8s %6d  %6.2f%%" %
                        (i, tab[i], 100.0 * tab[i] / max(ops, 1)))
    tail = []
    if "-u" in opts:
        tail += ["", "Unused Instructions:"]
        tail += [i for i in sorted(tab) if not tab[i]]
    tail += [_errors(errs)]
    if "-s" not in opts or "-c" not in opts:
        e.out = head + "".join(x + "\n" for x in mid + rows + tail)
        return
    mid = "".join(x + "\n" for x in mid)
    tail = "".join(x + "\n" for x in tail)

    def check(got, err):
        if not got.startswith(head + mid) or not got.endswith(tail):
            raise Violation("report-wrong", "check-instructions reported "
                            "%r, expected %r ... %r" %
                            (got[-2000:], (head + mid)[-800:], tail))
        body = got[len(head + mid):len(got) - len(tail)].splitlines()
        if sorted(body) != sorted(rows):
            raise Violation("report-wrong", "frequencies differ: %r" %
                            sorted(set(body) ^ set(rows))[:10])
        n = [int(x.split()[1]) for x in body]
        if any(a < b for a, b in zip(n, n[1:])):
            raise Violation("report-wrong", "frequencies not sorted: %r" % n)
    e.check = check


def _list_symbols(table):
    out = []
    nest = table.nested()
    for tag in sorted(nest):
        out.append(tag)
        for seg in sorted(nest[tag]):
            out.append("  Segment: " + seg)
            for sub in sorted(nest[tag][seg]):
                out.append("    Subsegment: " + sub)
                for kind in sorted(nest[tag][seg][sub]):
                    s = nest[tag][seg][sub][kind]
                    loc = "%s:%d" % (model.stem(s.card.file), s.card.num)
                    out.append("        %s %s %s      %s" % (
                        ("<%s>" % kind).ljust(9), s.type, loc.ljust(38),
                        s.card.text))
    return "".join(x + "\n" for x in out)


def _scores(key, names):
    from fuzzywuzzy import process
    if not names:
        return []
    return process.extract(key, names, limit=len(names))


def _require_closest(got, key, table, what):
    """got must be the ten closest simply-defined names; names whose scores
    are equal may stand in any order."""
    names = table.simple_tags()
    sc = _scores(key, names)
    score = dict(sc)
    want = [x[1] for x in sc[:10]]
    if len(set(got)) != len(got) or any(g not in score for g in got) or \
            [score[g] for g in got] != want:
        raise Violation("report-wrong", "%s: closest names to %r are given "
                        "as %r, expected %r" % (what, key, got, sc[:10]))


def _check_matches(text, bad, table):
    got = {}
    for ln in text.splitlines():
        m = re.match(r"  (.*?) - (No matches!|Possible matches: (.*))$", ln)
        if m:
            if m.group(1) in got:
                raise Violation("report-wrong", "check-symbols reports %s "
                                "twice" % m.group(1))
            got[m.group(1)] = (m.group(3) or "").split()
    if sorted(got) != sorted(bad):
        raise Violation("report-wrong", "check-symbols gives matches for %r, "
                        "expected for %r" % (sorted(got), sorted(bad)))
    for t in bad:
        _require_closest(got[t], t, table, "check-symbols")


def _literal(out, what):
    try:
        return ast.literal_eval(out) if out.strip() else None
    except (ValueError, SyntaxError):
        raise Violation("report-wrong", "%s printed %r" % (what, out[:500]))


def _names(out, want):
    got = _literal(out, "find-symbols") or []
    if got != want:
        raise Violation("report-wrong", "find-symbols found %r, expected %r" %
                        (got, want))


def _fuzzy_out(out, key, table):
    got = _literal(out, "find-symbols") or []
    _require_closest(got, key, table, "find-symbols -f")


def _exact_out(out, sel):
    if not sel:
        if out.strip() not in ("", "None"):
            raise Violation("report-wrong", "find-symbols printed %r for an "
                            "undefined symbol" % out[:500])
        return
    got = _literal(re.sub(r"<[^<>]* at 0x[0-9a-f]+>", "None", out),
                   "find-symbols") or {}
    flat = {}
    for seg, subs in got.items():
        for sub, kinds in subs.items():
            for kind, d in kinds.items():
                flat[(seg, sub, kind)] = (d["file"], d["line"], d["lognum"],
                                          d["tagtype"])
    want = {k[1:]: (s.card.file, s.card.num, s.card.lognum, s.type)
            for k, s in sel.items()}
    if flat != want:
        raise Violation("report-wrong", "find-symbols printed %r, expected "
                        "%r" % (flat, want))


# ---- comparison ------------------------------------------------------------

_ERR = [
    (re.compile(r"\*\*\* ERROR: Symbol (.*?) ((?:is|has) .*)$"), "sym"),
    (re.compile(r"(.*): (\d+) errors encountered building symbol table\.$"),
     "count"),
    (re.compile(r"(\d+) errors found$"), "found"),
    (re.compile(r'ERROR: symbol "(.*)" has a complex assignment'), "complex"),
    (re.compile(r"(\d+) errors checking symbol table\.$"), "checked"),
    (re.compile(r"Total: (\d+) errors encountered\.$"), "total"),
    (re.compile(r'ERROR: Undefined symbol "(.*)"!$'), "undef"),
]


_WHY = [("multipl", "multiple"), ("comma", "commas"), ("(case", "case"),
        ("unsupported", "unsupported"), ("prefix", "prefix"),
        ("operation", "no operation")]


def why(text):
    """Kind of a symbol diagnostic."""
    for word, kind in _WHY:
        if word in text:
            return kind
    return text


def err_tokens(text):
    out = []
    for ln in text.splitlines():
        for rx, kind in _ERR:
            m = rx.match(ln)
            if m:
                g = [int(x) if kind != "sym" and kind != "complex" and
                     kind != "undef" and i == len(m.groups()) - 1 else x
                     for i, x in enumerate(m.groups())]
                if kind == "sym":
                    g[1] = why(g[1])
                out.append((kind,) + tuple(g))
                break
    return out


def drop_verbose(text):
    out = []
    skip = False
    for ln in text.split("\n"):
        if skip:
            skip = False
            continue
        if ln.startswith(("Reading ", "Skipping meta-comment", "Wrote "
                          "listing")):
            continue
        if ln == "Skipping card with * in column 8:":
            skip = True
            continue
        out.append(ln)
    return "\n".join(out)


def compare(e, job, r, after, before, what):
    """A process that ended with exit status 0 must have delivered all that
    Expect e demands; `before`/`after` are the file trees."""
    try:
        out = r.out.decode("utf-8")
        err = r.err.decode("utf-8")
    except UnicodeDecodeError:
        raise Violation("report-wrong", what + ": output is not text")
    if "-v" in _bad_opts(job):
        out = drop_verbose(out)
    if e.out is not None and out != e.out:
        a, b = out.split("\n"), e.out.split("\n")
        k = 0
        while k < len(a) and k < len(b) and a[k] == b[k]:
            k += 1
        raise Violation("report-wrong", "%s: output line %d is %r, expected "
                        "%r" % (what, k + 1, a[k] if k < len(a) else
                                "<missing>", b[k] if k < len(b) else
                                "<nothing>"))
    if e.check is not None:
        e.check(out, err)
    got = err_tokens(err)
    if got != e.err:
        k = 0
        while k < len(got) and k < len(e.err) and got[k] == e.err[k]:
            k += 1
        raise Violation("report-wrong", "%s: diagnostic %d is %r, expected "
                        "%r" % (what, k + 1,
                                got[k] if k < len(got) else "<missing>",
                                e.err[k] if k < len(e.err) else "<nothing>"))
    want = dict(before)
    want.update(e.files)
    for n in sorted(set(want) | set(after)):
        if after.get(n) != want.get(n):
            raise Violation(
                "file-wrong" if n in e.files else "file-changed",
                "%s: file %s is %r, expected %r" % (
                    what, n, short(after.get(n)), short(want.get(n))))


def short(b):
    if b is None:
        return "<absent>"
    return b if len(b) < 400 else b[:200] + b"..." + b[-200:]


def only_allowed(e, job, after, before, what, allowed):
    """Files other than `allowed` are as they were."""
    for n in sorted(set(before) | set(after)):
        if n in allowed:
            continue
        if after.get(n) != before.get(n):
            raise Violation("file-changed", "%s: file %s was %s" % (
                what, n, "removed" if n not in after else
                "created" if n not in before else "altered"))

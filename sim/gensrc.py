"""Seeded generation of ARGUS source trees."""

from . import model

TAGS = ["A", "AB", "ABC", "TAG1", "TAG2", "TAG12", "LOOP", "LOOP2", "START",
        "X1", "STORE", "MASK", "Q", "ZED", "NINE9"]
BAD_OPS = ["FOO", "BAX", "TXX", "ba", "S1", "99", "X", "DA+", "SETLOK"]
WORDS = ["A", "B+1", "C,2", "0,X3", "TAG1", "LOOP-4", "3", "-", "Z,SC", "N,R0",
         "10", "A,B", "0", "N"]


def put(buf, col, text):
    """Overlay text at 1-based column col."""
    need = col - 1 + len(text)
    if len(buf) < need:
        buf.extend(" " * (need - len(buf)))
    buf[col - 1:col - 1 + len(text)] = list(text)


def word(r, lo, hi):
    return "".join(r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-./()'=")
                   for _ in range(r.randint(lo, hi)))


def gen_label(r):
    k = r.random()
    t = r.choice(TAGS)
    if k < 0.60:
        return t
    if k < 0.78:
        return r.choice("BFSZ") + "," + t
    if k < 0.82:
        return r.choice("LX") + "," + t
    if k < 0.86:
        return r.choice(["Q", "BB", "1", "", "M", "A"]) + "," + t
    if k < 0.89:
        return r.choice(["B,A,C", "A,B,", ",,A", "F,S,Q"])
    if k < 0.93:
        return r.choice(["abc", "Tag1", "b,TAG1", "B,tag1", "lOOP"])
    if k < 0.97:
        return t[:1] + " " + t[1:] if len(t) > 1 else t
    return word(r, 1, 8).replace(",", "")


MASKS = [",M1", ",MASK", ", M2", ",1,C", ",", ",A B", ",M12", ",M", ",M1,C",
         ", M1", ",M 1", ",1", ",12", " ,M1", " , M2", " ,"]


def gen_op(r, pool=None):
    if pool and r.random() < 0.6:
        return r.choice(pool) + (r.choice(MASKS) if r.random() < 0.7 else "")
    k = r.random()
    if k < 0.12:
        return "EQUALS"
    if k < 0.22:
        return "ASSIGN"
    if k < 0.33:
        return r.choice(["SETLOC", "SETLOC,2", "SETLOC, A", "SETLOC,3",
                         "SETLOC,10", "SETLOC,A", "SETLOC ,2",
                         "SETLOC,2,3"])
    if k < 0.40:
        return "RESERVE"
    if k < 0.80:
        op = r.choice(model.INSTRUCTIONS)
        if op in ("SETLOC",):
            return op
        if r.random() < 0.4:
            op += r.choice(MASKS)
        return op
    if k < 0.92:
        op = r.choice(BAD_OPS)
        if r.random() < 0.3:
            op += ",M1"
        return op
    return word(r, 1, 9)


def gen_card(r, prof):
    """One line of source text (never starting with '#' or '$')."""
    k = r.random()
    if k < 0.06:
        return ""
    if k < 0.09:
        return " " * r.randint(1, 130)
    if k < 0.13:
        t = "".join(r.choice("ABC xyz019,.*+-()'\"\\%&~|[]{}^_@!?;:<>=/")
                    for _ in range(r.randint(1, 140)))
        return t if t[0] not in "#$" else "X" + t
    if k < 0.16:
        return " " * r.randint(1, 30) + r.choice(["#", "$", "█", "é", "日本"]) \
            + word(r, 0, 20)
    buf = []
    if k < 0.26:
        put(buf, 1, r.choice("PRRL"))
        if r.random() < 0.6:
            put(buf, 2, "%06d" % r.randint(0, 999999))
        if r.random() < 0.5:
            put(buf, 8, r.choice("*@ A█"))
        put(buf, 9, word(r, 1, 12) + " " + word(r, 1, r.choice([10, 40, 100])))
        return "".join(buf)
    put(buf, 1, r.choice("           CNXT12"))
    if r.random() < 0.5:
        n = r.choice(["%06d" % r.randint(0, 9999), "%4d" % r.randint(0, 999),
                      word(r, 1, 6)])
        put(buf, 2, n[:6])
    if r.random() < 0.18:
        put(buf, 8, r.choice("****@A█1"))
    if r.random() < prof.get("label", 0.55):
        put(buf, 9, gen_label(r)[:11])
    if r.random() < prof.get("op", 0.9):
        put(buf, 20, gen_op(r, prof.get("pool"))[:13])
    for col, w in ((33, 14), (47, 14), (61, 15)):
        if r.random() < 0.5:
            t = r.choice(WORDS) if r.random() < 0.8 else word(r, 1, w)
            put(buf, col + (r.random() < 0.1), t[:w - 1])
    if r.random() < 0.15:
        put(buf, 76, word(r, 1, 5))
    if r.random() < 0.3:
        put(buf, 81, word(r, 1, 8) + " " + word(r, 1, r.choice([5, 30, 45])))
    s = "".join(buf)
    j = r.random()
    if j < 0.05:
        s = s.ljust(r.choice([119, 120, 121, 122, 140]), r.choice(" Z"))
    elif j < 0.07:
        s = s + "   \t "
    elif j < 0.09 and len(s) > 90:
        s = s[:85] + "█\t" + s[87:]
    return s if s[:1] not in ("#", "$") else " " + s[1:]


def gen_lines(r, prof, n):
    lines = []
    for _ in range(n):
        if lines and r.random() < 0.12:
            lines.append(r.choice(lines))
        elif r.random() < 0.08:
            lines.append(r.choice(["# comment", "#", "# Pages: 3-4",
                                   "#$inc", "# " + word(r, 1, 60)]))
        else:
            lines.append(gen_card(r, prof))
    for k, x in enumerate(lines):
        if len(x) > 3 and prof.get("ctl") and r.random() < prof["ctl"]:
            # characters that end a line for some tools, but not in a file
            at = r.randint(2, len(x) - 1)
            lines[k] = x[:at] + r.choice("\f\v\x1c\x85\u2028") + x[at + 1:]
        elif r.random() < 0.003:
            # far longer than a card
            lines[k] = "%-80s" % x + word(r, 30, 60) * r.choice(
                [1, 4, 25, 100, 200])
    return lines


def gen_mass(r):
    """Many different tags, most of one kind."""
    n = r.choice([110, 150, 280])
    op = r.choice(["ASSIGN", "ASSIGN", "RESERVE", "EQUALS", "FOO", "BA"])
    lab = r.choice(["T%d", "%dT", "B,T%d", "t%d", "Q,T%d"])
    return [(" " * 8 + (lab % k).ljust(11) + (op if r.random() < 0.95 else
                                              "RESERVE"))
            for k in range(n)]


MAINS = ["main.arg", "seg1.arg", "yul.argus", "P2.arg", "noext", "main2.arg",
         "v1.2/unit.arg", "lib/main.arg",
         "a-directory-with-a-rather-long-name/and-another-one-below-it/"
         "main-source.arg"]
INCS = ["inc1.arg", "inc2.arg", "sub/inc3.arg", "sub/deep/inc4.arg",
        "inc5", "seg2.arg",
        "sub/a-directory-with-a-rather-long-name/and-one-more-below-it/"
        "inc6.arg"]


def gen_tree(r, prof):
    """A list of file dicts {name, lines, eol, last} (no include cycles) and
    the list of main names."""
    if r.random() < prof.get("pools", 0.15):
        prof = dict(prof, pool=r.sample(model.OPS, r.choice([1, 2, 4])))
    nm = r.choice(prof.get("mains", [1, 1, 2, 3]))
    if r.random() < prof.get("many", 0.01):
        nm = r.choice([5, 6, 7])
    names = prof.get("names", MAINS)
    mains = r.sample(names, min(nm, len(names)))
    nm = len(mains)
    incs = r.sample(INCS, r.choice(prof.get("incs", [0, 1, 1, 2, 3])))
    if r.random() < prof.get("chain", 0.04):
        incs = ["c%d.arg" % i for i in range(r.choice([8, 8, 12, 12, 20, 20,
                                                   45, 70, 140]))]
    names = mains + incs
    out = []
    chain = incs and incs[0] == "c0.arg"
    for i, n in enumerate(names):
        size = r.choice(prof.get("sizes", [0, 1, 3, 5, 8, 12]))
        if chain and n in incs:
            size = min(size, 3)
        lines = gen_lines(r, prof, size)
        # includes only of later files: the graph has no cycles
        later = names[max(i + 1, nm):] if i >= nm else incs
        if n in mains and r.random() < 0.15:
            later = later + [m for m in mains[i + 1:]]
        if later:
            k = r.choice([0, 1, 1, 2])
            if chain:
                k = 1
                later = later[:1]
            for _ in range(k):
                inc = r.choice(later)
                ln = "$" + inc
                j = r.random()
                if j < 0.1:
                    ln = "$ " + inc
                elif j < 0.2:
                    ln = ln + "   remark text"
                elif j < 0.25:
                    ln = "$\t" + inc + " "
                elif j < 0.25 + prof.get("dotinc", 0):
                    ln = "$./" + inc
                lines.insert(r.randint(0, len(lines)), ln)
        if incs and not chain and n != incs[-1] and \
                r.random() < prof.get("often", 0.004):
            # one file named many times
            for _ in range(r.choice([12, 20, 40])):
                lines.insert(r.randint(0, len(lines)), "$" + incs[-1])
        if r.random() < prof.get("big", 0.03):
            lines = lines + [gen_card(r, prof) for _ in range(150)]
        elif r.random() < prof.get("mass", 0.004):
            lines = lines + gen_mass(r)
        elif r.random() < prof.get("huge", 0.002):
            some = [gen_card(r, prof)
                    for _ in range(r.choice([1, 2, 40, 40]))]
            many = r.choice([700, 1500, 700, 1500, 1500, 10050])
            if many > 10000:
                some = [x[:36] for x in some]
            lines = lines + [r.choice(some) for _ in range(many)]
        out.append({"name": n, "lines": lines,
                    "eol": "crlf" if r.random() < 0.06 else "lf",
                    "last": r.random() < 0.85})
    bound(out, mains)
    return out, mains


def bound(files, mains, most=14000):
    """Cut the longest files until all mains together have at most so many
    cards: a long file that many others include would only cost time."""
    by = {f["name"]: f for f in files}

    def cards(name, memo):
        if name not in memo:
            memo[name] = 0
            n = 0
            for x in by[name]["lines"]:
                if x[:1] == "$":
                    inc = x[1:].split()[0]
                    inc = inc[2:] if inc[:2] == "./" else inc
                    n += cards(inc, memo) if inc in by else 0
                else:
                    n += 1
            memo[name] = n
        return memo[name]

    for _ in range(20):
        memo = {}
        if sum(cards(m, memo) for m in mains) <= most:
            return
        f = max(files, key=lambda f: len(f["lines"]))
        f["lines"] = f["lines"][:max(10, len(f["lines"]) // 4)]


def add_twin(r, files, mains):
    """One more main source: another one with complex and simple definitions
    exchanged, so that a table gains definitions without gaining names."""
    src = r.choice(mains)
    f = next(x for x in files if x["name"] == src)
    name = next(n for n in MAINS if n not in [x["name"] for x in files])
    lines = []
    for x in f["lines"]:
        if len(x) > 19 and x[:1] not in "#$" and r.random() < 0.8:
            op = "ASSIGN" if r.random() < 0.2 else "RESERVE"
            if x[19:25] == "ASSIGN":
                op = "RESERVE"
            x = x[:19] + op.ljust(13) + x[32:]
        lines.append(x)
    files.append({"name": name, "lines": lines, "eol": "lf", "last": True})
    mains.append(name)


def encode(f):
    eol = "\r\n" if f["eol"] == "crlf" else "\n"
    text = eol.join(f["lines"])
    if f["lines"] and f["last"]:
        text += eol
    return text.encode("utf-8")


def tree_bytes(files):
    return {f["name"]: encode(f) for f in files}


def gen_chunks(r):
    k = r.random()
    if k < 0.4:
        return None
    return [r.choice([1, 2, 3, 5, 7, 16, 61, 119, 120, 121, 500, 4096])
            for _ in range(r.randint(1, 6))]

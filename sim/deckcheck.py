"""Compares decks of the code under test with the reference model."""

from . import model
from .core import Violation

ACCESS = {"column1": "column1", "lognum": "lognum", "column8": "column8",
          "label": "label", "location": "label", "operation": "operation",
          "operand1": "operand1", "addressa": "operand1",
          "operand2": "operand2", "addressb": "operand2",
          "operand3": "operand3", "addressc": "operand3",
          "sequence": "misc", "remarks": "remarks",
          "instruction": "instruction"}


def chop(s):
    return s.rstrip("\n") if isinstance(s, str) else s


def diff_card(c, m, k):
    """None, or the first difference between card c and model card m."""
    if chop(c.line) != m.text:
        return "card %d text %r, expected %r" % (k, c.line, m.text)
    if str(c) != m.text:
        return "card %d str() %r, expected %r" % (k, str(c), m.text)
    if c.filename != m.file:
        return "card %d file %r, expected %r" % (k, c.filename, m.file)
    if c.linenum != m.num:
        return "card %d line number %r, expected %r" % (k, c.linenum, m.num)
    if [chop(x) for x in c.fields] != [chop(x) for x in m.raw]:
        return "card %d fields %r, expected %r" % (k, c.fields, m.raw)
    if list(c.strippedFields) != m.f:
        return "card %d stripped fields %r, expected %r" % (
            k, c.strippedFields, m.f)
    rec = c.record
    for n, v in m.rec.items():
        if n == "remarks" and v == "" and rec.get(n) is None:
            continue
        if n not in rec or rec[n] != v:
            return "card %d record[%s] %r, expected %r (text %r)" % (
                k, n, rec.get(n, "<absent>"), v, m.text)
    if m.argus:
        for a, n in ACCESS.items():
            v = m.rec[n]
            got = getattr(c, a)
            if n == "remarks" and not v and not got:
                continue
            if got != v:
                return "card %d .%s %r, expected %r (text %r)" % (
                    k, a, got, v, m.text)
    return None


def diff_deck(d, cards, argus=True):
    got = list(d.cards)
    if len(got) != len(cards):
        return "%d cards, expected %d (%r)" % (
            len(got), len(cards), [(c.filename, c.linenum) for c in got][:60])
    for k, (c, m) in enumerate(zip(got, cards)):
        x = diff_card(c, m, k)
        if x:
            return x
    if len(d.fields) != len(cards) or len(d.records) != len(cards) or \
            len(d.strippedFields) != len(cards):
        return "deck views have %d/%d/%d rows, expected %d" % (
            len(d.fields), len(d.strippedFields), len(d.records), len(cards))
    for k, m in enumerate(cards):
        if list(d.strippedFields[k]) != m.f:
            return "deck.strippedFields[%d] %r, expected %r" % (
                k, d.strippedFields[k], m.f)
        if [chop(x) for x in d.fields[k]] != [chop(x) for x in m.raw]:
            return "deck.fields[%d] differs" % k
        for n in ("operation", "column1"):
            if n in m.rec and d.records[k].get(n) != m.rec[n]:
                return "deck.records[%d][%s] %r, expected %r" % (
                    k, n, d.records[k].get(n), m.rec[n])
    if str(d) != "\n".join(m.text for m in cards):
        return "str(deck) differs"
    if argus:
        sec, col8 = model.log_section(cards)
        if d.log_section != sec:
            return "log section %r, expected %r" % (d.log_section, sec)
        if d.log_section_col8 != col8:
            return "log section column 8 %r, expected %r" % (
                d.log_section_col8, col8)
    return None


def diff_lines(d, cards):
    """deck.lines of a deck loaded from a file."""
    if [chop(x) for x in d.lines] != [m.text for m in cards]:
        return "deck.lines differ from the cards"
    return None


def require(d, cards, argus, what, file_mode=True, cls="deck-wrong"):
    x = diff_deck(d, cards, argus)
    if x is None and file_mode:
        x = diff_lines(d, cards)
    if x:
        raise Violation(cls, "%s: %s" % (what, x))

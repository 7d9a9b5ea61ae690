"""C15: encoded instructions are independent of everything else built."""

import errno
import sys

from .. import loader
from .. import sched as S
from ..core import Violation

ID = "C15"
LEVEL = "fault_enumeration"
RUNS = {"quick": 20000, "thorough": 200000}
SHRINK = ["switches", "tasks", "tasks.*"]
RULE = ("seeded programs, one to four at a time, building instructions of "
        "every mnemonic and constants, preempted at seeded bytecode "
        "instructions, with refused operands, builds interrupted at a seeded "
        "instruction or starved of standard output, constants rewritten "
        "later; every live instance is read again after every step of its "
        "program and at the end; non-trivial: two or more builds with a "
        "preemption, a refusal or a fault between them")
MEASURE = "distinct (schedule, event log) digests of non-trivial runs"
COMPONENTS = {"real": ["h800/instruction.py", "h800/instructions.py",
                       "h800/word.py", "h800/bitfield.py"],
              "stub": ["thread scheduler", "signal delivery and allocation "
                       "failure (trace hook)", "standard output"]}
ASSUMPTIONS = ["an interrupt or allocation failure is an exception raised "
               "between two bytecode instructions",
               "a build starved of output either fails or gives the "
               "documented code"]

# From the programmers' reference manual layout (command code bits 2-3 and
# 8-12), written down here independently of the code's own table.
MASKABLE = {
    "BinaryAdd": ("BA", 0o11), "DecimalAdd": ("DA", 0o01),
    "WordAdd": ("WA", 0o15), "BinarySubtract": ("BS", 0o31),
    "DecimalSubtract": ("DS", 0o21), "WordDifference": ("WD", 0o35),
    "NotEqualAlphabetic": ("NA", 0o14), "NotEqualNumeric": ("NN", 0o10),
    "LessThanOrEqualAlphabetic": ("LA", 0o34),
    "LessThanOrEqualNumeric": ("LN", 0o30), "Transfer": ("TX", 0o20),
    "TransferChangeSequence": ("TS", 0o04), "HalfAdd": ("HA", 0o25),
    "Superimpose": ("SM", 0o05), "CheckParity": ("CP", 0o24)}
UNMASKED = {
    "BinaryMultiply": ("BM", 0, 0o13), "DecimalMultiply": ("DM", 0, 0o03),
    "BinaryAccumulate": ("BT", 2, 0o13), "DecimalAccumulate": ("DT", 2, 0o03),
    "MultipleTransfer": ("MT", 0, 0o20), "TransferNWords": ("TN", 1, 0o20),
    "ComputeOrthocount": ("CC", 1, 0o10), "ItemTransfer": ("IT", 1, 0o30),
    "ExtendedBinaryAdd": ("EBA", 3, 0o13),
    "ExtendedBinarySubtract": ("EBS", 3, 0o33),
    "RecordTransfer": ("RT", 3, 0o30), "ControlProgram": ("MPC", 2, 0o00),
    "ShiftWordAndSubstitute": ("SWS", 2, 0o06),
    "ShiftPreservingSignAndSubstitute": ("SPS", 2, 0o02),
    "ShiftWordAndExtract": ("SWE", 2, 0o16),
    "ShiftPreservingSignAndExtract": ("SPE", 2, 0o12),
    "ShiftAndSelect": ("SSL", 2, 0o26), "Substitute": ("SS", 0, 0o06),
    "Extract": ("EX", 0, 0o16),
    "FloatingBinaryAdd": ("FBA", 1, 0o01),
    "FloatingDecimalAdd": ("FDA", 1, 0o21),
    "FloatingBinarySubtract": ("FBS", 1, 0o11),
    "FloatingDecimalSubtract": ("FDS", 1, 0o31),
    "FloatingBinaryDivide": ("FBD", 1, 0o05),
    "FloatingDecimalDivide": ("FDD", 1, 0o25),
    "FloatingBinaryAddUnnormalized": ("FBAU", 3, 0o01),
    "FloatingDecimalAddUnnormalized": ("FDAU", 3, 0o21),
    "FloatingBinarySubtractUnnormalized": ("FBSU", 3, 0o11),
    "FloatingDecimalSubtractUnnormalized": ("FDSU", 3, 0o31),
    "FloatingBinaryMultiply": ("FBM", 3, 0o05),
    "FloatingDecimalMultiply": ("FDM", 3, 0o25),
    "MultipleUnload": ("ULD", 3, 0o15),
    "FloatingBinaryAddExtendedPrecision": ("FBAE", 0, 0o01),
    "FloatingBinarySubtractExtendedPrecision": ("FBSE", 0, 0o11),
    "FixedBinaryDivide": ("BD", 0, 0o05),
    "FixedDecimalDivide": ("DD", 0, 0o25),
    "FixedToFloatingNormalize": ("FFN", 0, 0o15),
    "Conversion": ("FCON", 0, 0o35),
    "FloatingLessThanNormalized": ("FLN", 0, 0o30),
    "FloatingNotEqualNormalized": ("FNN", 2, 0o14)}
PERIPHERAL = {"ReadForward": ("RF", 0o72), "ReadBackward": ("RB", 0o52),
              "WriteForward": ("WF", 0o56), "Rewind": ("RW", 0o42)}
PRINT = {"PrintAlphabetic": "PRA", "PrintDecimal": "PRD",
         "PrintOctal": "PRO"}
CONSTANTS = ["AlphanumericConstant", "DecimalConstant",
             "ExtendedBinaryConstant", "FloatingBinaryConstant",
             "FloatingDecimalConstant", "FixedBinaryConstant",
             "OctalConstant", "SpecialAddressConstant",
             "CompleteAddressConstant", "MaskBaseAddressConstant",
             "ProgramControlConstant", "MixedConstant",
             "TapeAddressConstant", "LinkageConstant", "SegmentNameConstant",
             "SubroutineCallConstant"]


def code(op):
    """Documented command code of a build, None if it must be refused."""
    kind, name, kw = op[:3]
    if kind.startswith("base:"):
        kind = kind[5:]
        if kind != "mask" and kw.get("mask") is not None or \
                kind != "periph" and kw.get("paddr") is not None or \
                kind == "periph" and len(kw) > 1:
            return None
    if kind == "const":
        v = kw["data"]
        return v if 0 <= v < 1 << 48 else None
    for k in ("sequence", "a", "b", "c"):
        if kw.get(k) is not None and kw[k] not in (0, 1):
            return None
    s = int(kw.get("sequence") or 0) << 11
    abc = int(kw.get("a") or 0) << 8 | int(kw.get("b") or 0) << 7 | \
        int(kw.get("c") or 0) << 6
    if kind == "mask":
        m = kw.get("mask")
        if m is None:
            return s | 2 << 9 | abc | MASKABLE[name][1]
        if not 0 <= m < 32 or any(kw.get(k) is not None for k in "abc"):
            return None
        return s | m << 6 | 1 << 5 | MASKABLE[name][1]
    if kind == "unmask":
        return s | UNMASKED[name][1] << 9 | abc | UNMASKED[name][2]
    if kind == "print":
        return s | abc | 0o46
    if kind == "periph":
        p = kw["paddr"]
        return p << 6 | PERIPHERAL[name][1] if 0 <= p < 64 else None
    if kind == "sim":
        return s | 7
    return 0                                    # Proceed


def gen_bit(r, bad):
    if bad:
        return r.choice([2, -1, 3, 7])
    return r.choice([0, 1, 0, 1, True, False])


def gen_base(r, bad):
    """A build through the classes of h800/instruction.py."""
    q = r.random()
    if q < 0.45:
        kind, name = "mask", r.choice(sorted(MASKABLE))
    elif q < 0.75:
        kind, name = "unmask", r.choice(sorted(UNMASKED))
    elif q < 0.9:
        kind, name = "print", r.choice(sorted(PRINT))
    else:
        kind, name = "periph", r.choice(sorted(PERIPHERAL))
    kw = {}
    if kind == "periph":
        kw["paddr"] = r.choice([0, 1, 31, 32, 63, r.randrange(64)])
        if bad:
            kw[r.choice(["sequence", "mask", "a", "b", "c"])] = r.randrange(2)
    else:
        if r.random() < 0.7:
            kw["sequence"] = gen_bit(r, False)
        if kind == "mask" and r.random() < 0.5:
            kw["mask"] = r.choice([0, 0, 1, 31, r.randrange(32)])
            if bad:
                kw[r.choice(["a", "b", "c", "paddr"])] = r.randrange(2)
        else:
            for k in "abc":
                if r.random() < 0.7:
                    kw[k] = gen_bit(r, False)
            if bad:
                if kind != "mask" and r.random() < 0.5:
                    kw["mask"] = r.choice([0, 3])
                elif "sequence" in kw:
                    kw["paddr"] = r.choice([0, 3])
                else:
                    kw["c"] = 2
    return kind, name, kw


def gen_op(r, i):
    if r.random() < 0.15:
        kind, name, kw = gen_base(r, r.random() < 0.25)
        return ["base:" + kind, name, kw, None]
    q = r.random()
    bad = r.random() < 0.15
    kw = {}
    if q < 0.35:
        kind, name = "mask", r.choice(sorted(MASKABLE))
        kw["sequence"] = gen_bit(r, False)
        if r.random() < 0.2:
            kw["sequence"] = None
        if r.random() < 0.5:
            kw["mask"] = r.choice([0, r.randrange(32), r.randrange(32)])
            if bad:
                z = r.random()
                if z < 0.4:
                    kw["mask"] = r.choice([-1, 32, 63, 4096])
                elif z < 0.7:
                    kw[r.choice("abc")] = r.randrange(2)
                else:
                    kw["sequence"] = gen_bit(r, True)
        else:
            for k in "abc":
                if r.random() < 0.85:
                    kw[k] = gen_bit(r, False)
            if bad:
                kw[r.choice(["a", "b", "c", "sequence"])] = gen_bit(r, True)
    elif q < 0.68:
        if q < 0.62:
            kind, name = "unmask", r.choice(sorted(UNMASKED))
        else:
            kind, name = "print", r.choice(sorted(PRINT))
        for k in ("sequence", "a", "b", "c"):
            kw[k] = gen_bit(r, False)
            if r.random() < 0.12:
                kw[k] = None
        if bad:
            kw[r.choice(["a", "b", "c", "sequence"])] = gen_bit(r, True)
    elif q < 0.78:
        kind, name = "periph", r.choice(sorted(PERIPHERAL))
        kw["paddr"] = r.choice([-1, 64, 100, 4095]) if bad else \
            r.randrange(64)
    elif q < 0.82:
        kind, name = "sim", "Simulator"
        kw["sequence"] = gen_bit(r, bad)
    elif q < 0.85:
        kind, name = "proceed", "Proceed"
    else:
        kind, name = "const", r.choice(CONSTANTS)
        kw["data"] = r.choice([-1, 1 << 48, -(1 << 47)]) if bad else \
            r.choice([0, 1, (1 << 48) - 1, r.getrandbits(48)])
    fault = None
    if r.random() < 0.22:
        fault = [r.choice(["KI", "KI", "ME", "out", "out"]),
                 round(r.random(), 6)]
    return [kind, name, kw, fault]


def gen(r, i, tier):
    tasks = []
    pool = []
    for _ in range(r.choice([1, 2, 2, 3, 4])):
        seq = []
        for _ in range(r.choice([1, 2, 4, 7])):
            if seq and r.random() < 0.12:
                seq.append(["patch", r.randrange(4), r.getrandbits(48)])
            elif seq and r.random() < 0.08:
                seq.append(["helper", gen_op(r, i)[:3]])
            elif pool and r.random() < 0.2:
                # exactly what some program has tried already
                seq.append(list(r.choice(pool[-6:])[:3]) + [None])
            elif len(seq) and r.random() < 0.25:
                # the same operation again, other operands
                o = gen_op(r, i)
                for _ in range(20):
                    if o[1] == seq[-1][1] if len(seq[-1]) == 4 else True:
                        break
                    o = gen_op(r, i)
                seq.append(o)
            else:
                seq.append(gen_op(r, i))
            if len(seq[-1]) == 4:
                pool.append(seq[-1])
        tasks.append(seq)
    scale = r.choice([3, 20, 120, 600])
    return {"tasks": tasks,
            "switches": [[1 + int(r.expovariate(1.0 / scale)), r.randrange(6)]
                         for _ in range(r.choice([4, 15, 60]))]
            if len(tasks) > 1 else []}


class Out:
    """Standard output of the simulated process: a sink that can fail for the
    program that is running."""

    encoding = "utf-8"

    def __init__(self, sch):
        self.sch = sch
        self.arm = {}

    def write(self, s):
        self.sch.point()
        k = self.sch.me()
        if self.arm.get(k):
            self.arm[k] -= 1
            if not self.arm[k]:
                raise OSError(errno.EPIPE, "Broken pipe")
        return len(s)

    def flush(self):
        pass


_steps = {}
_bits = {"sequence": 1, "a": 1, "b": 0, "c": 1}
CANON = {"mask": ("BinaryAdd", {"sequence": 1, "mask": 5}),
         "unmask": ("Extract", _bits), "print": ("PrintOctal", _bits),
         "periph": ("Rewind", {"paddr": 5}),
         "sim": ("Simulator", {"sequence": 1}), "proceed": ("Proceed", {}),
         "const": ("OctalConstant", {"data": 5})}


def steps_of(op):
    """Instructions one build of this kind takes, in a fresh process."""
    if op[0] not in _steps:
        from h800 import instructions as I
        name, kw = CANON[op[0]]
        old = sys.stdout
        sys.stdout = Out(S.Sched([]))
        try:
            _steps[op[0]] = S.count_steps(build, getattr(I, name), kw)
        except Exception:
            _steps[op[0]] = 500
        finally:
            sys.stdout = old
            loader.forget()
    return _steps[op[0]]


def build(cls, kw):
    return cls(**kw)


def base(op):
    """The instruction.py class (and its opcode) for a base build."""
    from h800 import instruction as B
    from h800 import instructions as I
    kind, name, kw = op[0][5:], op[1], op[2]
    m = {"mask": MASKABLE, "unmask": UNMASKED, "periph": PERIPHERAL}.get(kind)
    opc = I.OPCODES[PRINT[name] if kind == "print" else m[name][0]]
    keys = set(kw)
    cls = B.Instruction
    if keys == {"sequence", "mask"}:
        cls = B.GeneralMasked
    elif keys == {"sequence", "a", "b", "c"}:
        cls = B.GeneralUnmasked if opc.m < "F" else B.Scientific
    elif keys == {"paddr"}:
        cls = B.Peripheral
    return lambda **k: cls(opc, **k)


def run(plan, st, root):
    for seq in plan["tasks"]:
        for op in seq:
            if len(op) == 4 and op[3] and op[3][0] in ("KI", "ME"):
                steps_of(op)
    from h800 import instructions as I
    sch = S.Sched(plan["switches"], max_steps=3_000_000)
    out = Out(sch)
    sys.stdout = out
    live = [[] for _ in plan["tasks"]]          # [object, code, description]
    disturbed = [0]
    nbuilt = [0]

    def program(ti, ops):
        mine = live[ti]

        def go(t):
            for k, op in enumerate(ops):
                sch.point()
                what = "program %d, step %d: %s" % (ti, k, op)
                if op[0] == "patch":
                    cs = [x for x in mine if x[3:] == ["const"]]
                    if cs:
                        x = cs[op[1] % len(cs)]

                        def put(o, v):
                            o.value = v
                        sch.traced(t, put, x[0], op[2])
                        x[1] = op[2]
                        st.probes["patches"] += 1
                elif op[0] == "helper":
                    helper(t, op[1], what)
                else:
                    one(t, op, what)
                for obj, want, desc, _ in mine:
                    got = sch.traced(t, read, obj)
                    if got != want:
                        raise Violation("code-changed", "%s reads %o after "
                                        "%s, expected %o" % (desc, got, what,
                                                             want))
        return go

    def read(o):
        return o.value

    def helper(t, op, what):
        kind, name, kw = op
        want = code(op)
        if kind.startswith("base:") or want is None or None in [kw.get(k, 0) for k in
                                    ("sequence", "mask", "a", "b", "c")]:
            return
        if kind == "mask" and "mask" in kw:
            got = sch.traced(t, I.make_masked_opcode, MASKABLE[name][0],
                             kw["sequence"], kw["mask"])
        elif kind in ("mask", "unmask") and all(k in kw for k in "abc"):
            m = (MASKABLE.get(name) or UNMASKED.get(name))[0]
            got = sch.traced(t, I.make_unmasked_opcode, m, kw["sequence"],
                             kw["a"], kw["b"], kw["c"])
        elif kind == "periph":
            got = sch.traced(t, I.make_peripheral_opcode,
                             PERIPHERAL[name][0], kw["paddr"])
        elif kind == "print":
            got = sch.traced(t, I.make_print_opcode, PRINT[name],
                             kw["sequence"], kw["a"], kw["b"], kw["c"])
        else:
            return
        st.probes["helpers"] += 1
        if got != want:
            raise Violation("code-wrong", "%s gave %o, expected %o" % (
                what, got, want))

    def one(t, op, what):
        kind, name, kw, fault = op
        want = code(op)
        fl = None
        if fault:
            if fault[0] == "out":
                out.arm[t.idx] = 1 + int(fault[1] * 2)
            else:
                n = steps_of(op)
                fl = (1 + int(fault[1] * n),) + \
                    ((KeyboardInterrupt, 1) if fault[0] == "KI" else
                     (MemoryError, 2))
        obj = exc = None
        try:
            cls = base(op) if kind.startswith("base:") else getattr(I, name)
            obj = sch.traced(t, build, cls, kw, fault=fl)
        except (Exception, KeyboardInterrupt) as e:
            exc = e
        starved = fault and fault[0] == "out" and not out.arm.get(t.idx)
        out.arm[t.idx] = 0
        fired = t.fired or starved
        if fired:
            st.faults["async:" + fault[0] if fault[0] != "out" else
                      "stdout:EPIPE"] += 1
            disturbed[0] += 1
        st.note(t.idx, op, type(exc).__name__, bool(fired))
        if exc is None:
            got = obj.value
            if want is None:
                raise Violation("not-refused", "%s was accepted and gave %o"
                                % (what, got))
            if got != want:
                raise Violation("code-wrong", "%s gave %o, expected %o" % (
                    what, got, want))
            live[t.idx].append([obj, want, what,
                                "const" if kind == "const" else ""])
            nbuilt[0] += 1
            st.probes["built-" + kind] += 1
        elif want is None:
            st.probes["refusals"] += 1
            disturbed[0] += 1
        elif not fired:
            raise Violation("build-failed", "%s raised %s: %s" % (
                what, type(exc).__name__, exc))
        else:
            st.probes["failed-builds"] += 1

    for ti, ops in enumerate(plan["tasks"]):
        sch.spawn(program(ti, ops))
    sch.run()
    st.add_sched(sch)
    for lst in live:
        for obj, want, what, _ in lst:
            got = obj.value
            if got != want:
                raise Violation("code-changed", "%s reads %o at the end, "
                                "expected %o" % (what, got, want))
    st.nontrivial = nbuilt[0] > 1 and (sch.nswitch or disturbed[0])
    st.sig = st.trace.hexdigest()

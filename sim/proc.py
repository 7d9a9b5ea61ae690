"""Simulated processes: runs a tool of the repository from the working tree in
this interpreter, as a fresh process would run it."""

import io
import os
import sys

from . import loader, vfs
from . import sched as S


class Result:
    __slots__ = ("exit", "out", "err", "exc", "killed", "proc")

    def __repr__(self):
        return "exit=%r exc=%r out=%r err=%r" % (
            self.exit, self.exc, self.out[-300:], self.err[-300:])


class Context:
    """Interpreter-global state of one simulated process, swapped in and out
    when the scheduler changes processes."""

    def __init__(self, proc, w, argv):
        self.proc = proc
        self.w = w
        self.out_raw = vfs.StreamRaw(proc, w, "out")
        self.err_raw = vfs.StreamRaw(proc, w, "err")
        self.stdout = io.TextIOWrapper(
            io.BufferedWriter(self.out_raw, 8192), "utf-8", "strict", "\n")
        self.stderr = io.TextIOWrapper(
            io.BufferedWriter(self.err_raw, 8192), "utf-8",
            "backslashreplace", "\n", line_buffering=True)
        self.argv = argv
        self.mods = {}
        self.bound = (self.stdout, self.stderr)

    def enter(self):
        sys.stdout, sys.stderr = self.bound
        sys.argv = self.argv
        sys.stdin = io.StringIO("")
        loader.restore(self.mods)
        self.w.proc = self.proc

    def leave(self):
        self.mods = loader.snapshot()
        self.argv = sys.argv
        self.bound = (sys.stdout, sys.stderr)


def _closed(f):
    return f is None or getattr(f, "closed", False)


def _quiet_flush(f):
    if not _closed(f):
        try:
            f.flush()
        except (OSError, ValueError, MemoryError, KeyboardInterrupt,
                AttributeError):
            pass


def execute(ctx, tool):
    """Body of one process; ctx must be entered.  Never raises except for
    SimHang, SimAbort and harness errors."""
    r = Result()
    r.exc = None
    r.killed = False
    r.proc = ctx.proc
    code = loader.get_code(loader.tool_path(tool))
    glob = {"__name__": "__main__", "__file__": loader.tool_path(tool),
            "__builtins__": __builtins__}
    try:
        try:
            exec(code, glob)
            r.exit = 0
        except SystemExit as e:
            r.exc = "SystemExit"
            c = e.code
            if c is None:
                r.exit = 0
            elif isinstance(c, int):
                r.exit = c & 0xff
            else:
                r.exit = 1
                try:
                    print(c, file=sys.stderr)
                except (OSError, ValueError, MemoryError,
                        KeyboardInterrupt):
                    pass
        except KeyboardInterrupt:
            r.exc = "KeyboardInterrupt"
            r.exit = 130
        except (vfs.SimCrash, S.SimHang, S.SimAbort):
            raise
        except BaseException as e:
            r.exc = type(e).__name__ + ": " + str(e)[:200]
            r.exit = 1
        glob.clear()
        if ctx.proc.dead:
            raise vfs.SimCrash()
        # interpreter shutdown
        for fn, a, k in reversed(ctx.proc.atexit):
            try:
                fn(*a, **k)
            except (vfs.SimCrash, S.SimHang, S.SimAbort):
                raise
            except BaseException as e:
                r.exc = "atexit: " + type(e).__name__
        out, err = sys.stdout, sys.stderr
        if not _closed(out):
            try:
                out.flush()
            except KeyboardInterrupt:
                r.exit = r.exit or 130
            except (OSError, ValueError, MemoryError, AttributeError):
                r.exit = 120
        if out is not ctx.stdout:
            _quiet_flush(ctx.stdout)
        _quiet_flush(err)
        if err is not ctx.stderr:
            _quiet_flush(ctx.stderr)
    except vfs.SimCrash:
        if ctx.proc.exited is not None:
            r.exit = ctx.proc.exited
            r.exc = "os._exit"
        else:
            r.killed = True
            r.exit = -(ctx.proc.signalled or 9)
            r.exc = "killed"
    ctx.proc.over = True
    for h in list(ctx.proc.handles.values()):
        h._die()
    r.out = bytes(ctx.out_raw.data)
    r.err = bytes(ctx.err_raw.data)
    return r


def run_tool(w, proc, tool, args):
    ctx = Context(proc, w, [loader.tool_path(tool)] + list(args))
    ctx.enter()
    try:
        return execute(ctx, tool)
    finally:
        w.proc = None
        loader.forget()


MTIME = 1_700_000_000


def write_tree(root, files):
    """files: {relative name: bytes}.  Replaces the scratch tree's content.
    Files that stay are rewritten in place and every file carries the same
    time stamp, as after edits within one tick of a coarse clock (or a restore
    that preserves times)."""
    for d, ds, fs in os.walk(root, topdown=False):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.relpath(p, root) not in files or os.path.islink(p):
                vfs._real["remove"](p)
        for x in ds:
            p = os.path.join(d, x)
            if os.path.islink(p):
                vfs._real["remove"](p)
            else:
                try:
                    vfs._real["rmdir"](p)
                except OSError:
                    pass
    for name, data in files.items():
        p = os.path.join(root, name)
        d = os.path.dirname(p)
        if d != root:
            parts = os.path.relpath(d, root).split(os.sep)
            cur = root
            for x in parts:
                cur = os.path.join(cur, x)
                if not os.path.isdir(cur):
                    vfs._real["mkdir"](cur)
        with vfs._real_open(p, "wb") as f:
            f.write(data)
        vfs._real["utime"](p, (MTIME, MTIME))


def read_tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with vfs._real_open(p, "rb") as h:
                out[os.path.relpath(p, root)] = h.read()
    return out

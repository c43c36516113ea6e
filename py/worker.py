"""Drives the disc_riider_py extension module: one JSON request per line on stdin, one JSON reply per line on stdout.

A request is a list of operations executed in order; the reply lists what each operation did.
The module's own prints (fd 1) go to a scratch file so that they can be reported.
"""
import json
import os
import resource
import sys
import tempfile

out = os.fdopen(os.dup(1), "w", buffering=1, encoding="utf-8", errors="surrogateescape")
cap = tempfile.TemporaryFile()
os.dup2(cap.fileno(), 1)

sys.path.insert(0, sys.argv[1])
import disc_riider_py as m  # noqa: E402


class Truthy:
    def __init__(self, v):
        self.v = v

    def __bool__(self):
        if self.v is None:
            raise ValueError("no truth value")
        return self.v


RET = {
    "true": lambda: True, "one": lambda: 1, "str": lambda: "x", "list": lambda: [0], "obj": lambda: Truthy(True),
    "false": lambda: False, "none": lambda: None, "zero": lambda: 0, "empty": lambda: "", "objfalse": lambda: Truthy(False),
    "objraise": lambda: Truthy(None),
}


def raiser(*_):
    raise RuntimeError("callback error")


def run(op, state, r):
    k = op[0]
    if k == "open":
        state["x"] = m.WiiIsoExtractor(op[1])
    elif k == "prepare":
        state["x"].prepare_extract_section(op[1])
    elif k == "hash":
        r["hash"] = bytes(state["x"].get_dol_hash(op[1])).hex()
    elif k == "print":
        state["x"].test_print()
        cap.seek(0)
        r["out"] = cap.read().decode("utf-8", "surrogateescape")
    elif k == "filter":
        calls = []
        spec = op[2]
        default = spec.get("default", "false")
        table = spec.get("table", {})

        def cb(*a):
            calls.append(a[0] if len(a) == 1 else list(a))
            v = table.get(a[0], default)
            if v == "raise":
                raise RuntimeError("filter error")
            return RET[v]()
        try:
            state["x"].remove_files_by_callback(op[1], cb)
        finally:
            r["calls"] = calls
    elif k in ("extract", "rebuild"):
        prog = []
        mode = op[-1]

        def cb(*a):
            prog.append(a[0] if len(a) == 1 else list(a))
            if mode == "raise" or (mode == "raise-odd" and len(prog) % 2):
                raise RuntimeError("progress error")
            if mode == "return":
                return object()
        try:
            if k == "extract":
                state["x"].extract_to(op[1], cb)
            else:
                m.rebuild_from_directory(op[1], op[2], cb)
        finally:
            r["prog"] = prog
    elif k == "limit":
        # writing beyond this many bytes of any file fails from now on, until the request ends
        resource.setrlimit(resource.RLIMIT_FSIZE, (op[1], resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
    elif k == "drop":
        state.pop("x", None)
    else:
        raise AssertionError(k)


for line in sys.stdin:
    reply = []
    state = {}
    for op in json.loads(line):
        r = {}
        try:
            cap.seek(0)
            cap.truncate()
            run(op, state, r)
            r["ok"] = True
        except BaseException as e:  # PanicException derives from BaseException
            r["ok"] = False
            r["type"] = type(e).__name__
            r["err"] = str(e)[:2000]
        sys.stdout.flush()
        reply.append(r)
    state.clear()
    hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
    resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
    out.write(json.dumps(reply) + "\n")
    out.flush()

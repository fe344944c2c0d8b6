"""Runs the Python svdtools on request: one JSON request per line, one JSON answer per line.

{"args": [...], "read": path or null}   a command line of the tool
{"merge": path}                          the rules of a file with what it includes
Answers {"code": int, "out": str, "file": str or null} or {"rules": ..., "deps": [...]} or {"error": str}.
"""

import json
import os
import signal
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
PROTO = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)

import svdtools  # noqa: E402
import svdtools.cli  # noqa: E402
import yaml  # noqa: E402
from click.testing import CliRunner  # noqa: E402


class Late(BaseException):
    pass


def late(*_):
    raise Late()


signal.signal(signal.SIGALRM, late)
assert os.path.dirname(os.path.abspath(svdtools.__file__)) == os.path.join(os.path.abspath(sys.argv[1]), "svdtools")


def plain(v):
    if isinstance(v, dict):
        return {"map": [[plain(k), plain(x)] for k, x in v.items()]}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    return str(v)


def answer(q):
    if "merge" in q:
        with open(q["merge"], encoding="utf-8") as f:
            root = yaml.safe_load(f)
        root["_path"] = q["merge"]
        deps = svdtools.patch.yaml_includes(root)
        return {"rules": plain(root), "deps": deps}
    os.chdir(q["cwd"])
    r = CliRunner().invoke(svdtools.cli.svdtools_cli, q["args"])
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        if isinstance(r.exception, Late):
            raise r.exception
        return {"error": f"{type(r.exception).__name__}: {r.exception}"}
    file = None
    if q.get("read") and os.path.exists(q["read"]):
        with open(q["read"], encoding="utf-8", errors="replace") as f:
            file = f.read()
    return {"code": r.exit_code, "out": r.output, "file": file}


for line in sys.stdin:
    q = json.loads(line)
    signal.alarm(30)
    try:
        a = answer(q)
    except Late:
        a = {"error": "does not end"}
    except Exception as e:
        a = {"error": f"{type(e).__name__}: {e}"}
    signal.alarm(0)
    PROTO.write(json.dumps(a) + "\n")
    PROTO.flush()

"""A second interpreter with another string-hash seed, answering clustering and sampling requests.

Started by `ask()` in a worker; reads one JSON request per line, writes one JSON answer per line.
"""

from __future__ import annotations

import json
import os
import subprocess
import sys

_PROCESS = None


def ask(request: dict):
    """Answer of the second interpreter."""
    global _PROCESS
    if _PROCESS is None or _PROCESS[0] != os.getpid():
        env = dict(os.environ, PYTHONHASHSEED="20211", PYTHONPATH=os.pathsep.join(sys.path[:3]))
        process = subprocess.Popen(
            [sys.executable, "-B", "-W", "ignore", os.path.abspath(__file__)],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            env=env,
            text=True,
            cwd="/",
        )
        _PROCESS = (os.getpid(), process)
    process = _PROCESS[1]
    process.stdin.write(json.dumps(request) + "\n")
    process.stdin.flush()
    line = process.stdout.readline()
    if not line:
        raise OSError("the second interpreter ended")
    return json.loads(line)


def answer(request: dict):
    from vp import clu, smp

    case = request["case"]
    model = clu.model_of(case)
    manager = clu.manager_of(case, model)
    if request["what"] == "cluster":
        algo = clu.build(request["algorithm"], case["params"])
        result = clu.cluster(algo, manager, clu.vectors_of(case), case["nb"])
        return {k: int(v) for k, v in result.items()}
    sampler = smp.build(case["options"])
    return [list(pair) for pair in smp.sample(sampler, manager, case, clu.vectors_of(case))]


def main() -> None:
    import warnings

    warnings.simplefilter("ignore")
    for line in sys.stdin:
        try:
            out = {"ok": answer(json.loads(line))}
        except Exception as err:  # noqa: B902
            out = {"error": f"{type(err).__name__}: {err}"}
        print(json.dumps(out), flush=True)


if __name__ == "__main__":
    sys.path.pop(0)  # the folder of this file; PYTHONPATH brings what is needed
    main()

"""fresh interpreter states: every request runs in its own fork of a process that has only imported the package"""
import os
import pickle
import struct
import subprocess
import sys

REPO = os.environ.get("VP_REPO", "/repo")


def read(f):
    h = f.read(8)
    if len(h) < 8:
        return None
    return pickle.loads(f.read(struct.unpack("<Q", h)[0]))


def write(f, o):
    b = pickle.dumps(o)
    f.write(struct.pack("<Q", len(b)) + b)
    f.flush()


def serve():
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np                                            # noqa: F401
    import qmat.qcoeff, qmat.qdelta, qmat.utils, qmat.utils.num, qmat.utils.sdc   # noqa: F401,E401
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    while True:
        req = read(sys.stdin.buffer)
        if req is None:
            return
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                res = ("ok", run(req))
            except Exception as e:
                res = ("exc", "%s: %s" % (type(e).__name__, str(e)[:200]))
            with os.fdopen(w, "wb") as f:
                write(f, res)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            res = read(f)
        os.waitpid(pid, 0)
        write(out, res if res is not None else ("exc", "the process died"))


def run(seq):
    """the last result of every step; results are modified in place after they are recorded"""
    import numpy as np
    from qmat.qcoeff import Q_GENERATORS
    from qmat.qdelta import QDELTA_GENERATORS, genQDeltaCoeffs
    from qmat.qcoeff import genQCoeffs
    gens, res = {}, []
    for st in seq:
        try:
            res.append(step(st, gens, np, Q_GENERATORS, QDELTA_GENERATORS, genQDeltaCoeffs, genQCoeffs))
        except Exception as e:
            res.append(type(e).__name__)
    return res


def step(st, gens, np, Q_GENERATORS, QDELTA_GENERATORS, genQDeltaCoeffs, genQCoeffs):
    kind, name, kw = st[0], st[1], dict(st[2])
    if kind == "q":
        r = genQCoeffs(name, **kw, **dict(st[3]))
    elif kind == "fn":
        r = genQDeltaCoeffs(name, **dict(st[3]), **kw)
    elif kind == "fq":
        r = genQDeltaCoeffs(name, **dict(st[3]), qGen=Q_GENERATORS["Collocation"](**kw))
    else:
        key = (kind, name, repr(st[2]), st[4] if len(st) > 4 else 0)
        if key not in gens:
            if kind == "qgen":
                gens[key] = Q_GENERATORS[name](**kw)
            else:
                c = Q_GENERATORS["Collocation"](**kw)
                gens[key] = QDELTA_GENERATORS[name](qGen=c)
        o = dict(st[3])
        m = o.pop("m", "genCoeffs")
        r = getattr(gens[key], m)(**o)
    r = list(r) if isinstance(r, (list, tuple)) else [r]
    res = [np.array(a, copy=True) for a in r]
    for a in r:
        if isinstance(a, np.ndarray) and a.flags.writeable:
            a[...] = -77.5
    return res


P = []


def ask(seq):
    if not P:
        env = dict(os.environ, PYTHONPATH=REPO)
        P.append(subprocess.Popen([sys.executable, os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env))
    write(P[0].stdin, seq)
    r = read(P[0].stdout)
    if r is None:
        raise RuntimeError("no answer")
    return r


if __name__ == "__main__":
    serve()

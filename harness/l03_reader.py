# Loads logs with the repository's reader and prints every number it finds.
import sys, io, os, struct, contextlib, importlib.util
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
import warnings
warnings.simplefilter("ignore")
import numpy as np
from common.logging import log_reader

def emit(p, v, dt, out):
    if dt.names is not None:
        for n in dt.names:
            emit(p + "." + n, v[n], dt[n], out)
    elif dt.subdtype is not None:
        base, shape = dt.subdtype
        a = np.asarray(v)
        if a.ndim == 1:
            a = a.reshape(-1, 1)
        for i in range(a.shape[0]):
            for j in range(a.shape[1]):
                emit("%s[%d,%d]" % (p, i, j), a[i, j], base, out)
    elif dt.kind == "f":
        out.append("f %s %s" % (p, struct.pack(">d", float(v)).hex()))
    else:
        out.append("i %s %d" % (p, int(v)))

for line in sys.stdin:
    norm, path = line.rstrip("\n").split(" ", 1)
    out = []
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            log = log_reader.load(path, normalize_time=norm == "1")
        for k, data in log.items():
            out.append("K %d" % k)
            for r in range(len(data)):
                out.append("R")
                emit("", data[r], data.dtype, out)
        out.append(".")
    except Exception as e:
        out = ["E %s: %s" % (type(e).__name__, str(e).replace("\n", " ")[:300])]
    sys.stdout.write("\n".join(out) + "\n")
    sys.stdout.flush()

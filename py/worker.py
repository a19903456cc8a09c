"""Performs sequences of operations on the Python classes of /repo/tsfile-writer-c/rust.py.
One request a line (JSON), one answer a line: the outcome of each operation, "ok" or the exception.
{"repeat": n, "ops": [..]} performs the operations n times and answers what the process holds then."""
import ctypes, gc, importlib, json, os, sys

sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)  # what the code under test prints does not disturb the answers
try:
    import cffi  # noqa: F401
except Exception as e:
    out.write(json.dumps("harness: no cffi: %r" % e) + "\n")
    sys.exit(0)
rust = importlib.import_module("rust")


class Planned(Exception):
    pass


def fresh(s):
    """An equal string that nobody else holds"""
    return "".join(list(s))


def one(op, schemas, writers):
    k = op[0]
    if k == "schema":
        _, i, dev, sen, ty, enc, comp = op
        codes = (rust.TSDataType(ty), rust.TSEncoding(enc), rust.CompressionType(comp)) if i % 2 else (ty, enc, comp)
        schemas[i] = rust.Schema(fresh(dev), fresh(sen), *codes)
    elif k == "free":
        schemas[op[1]].free()
    elif k == "drop":
        schemas[op[1]] = None
    elif k == "writer":
        _, j, i, path = op
        writers[j] = rust.TsFileWriter(fresh(path), schemas[i])
    elif k == "write":
        _, j, dev, sen, points = op
        for t, v in points:
            writers[j].write_int(fresh(dev), fresh(sen), t, v)
    elif k == "close":
        writers[op[1]].close()
    elif k == "with":
        _, path, dev, sen, ty, enc, comp, points, stop = op
        try:
            with rust.Schema(fresh(dev), fresh(sen), ty, enc, comp) as s:
                with rust.TsFileWriter(fresh(path), s) as w:
                    for n, (t, v) in enumerate(points):
                        if n == stop:
                            raise Planned()
                        w.write_int(fresh(dev), fresh(sen), t, v)
        except Planned:
            raise
        finally:
            for what in (s.free, w.close, lambda: w.write_int(fresh(dev), fresh(sen), 1 << 40, 1)):
                try:
                    what()
                except Planned:
                    raise
                except Exception:
                    continue
                raise AssertionError("usable after the with block")
    else:
        raise AssertionError(k)


def perform(ops):
    schemas, writers, res = {}, {}, []
    for op in ops:
        try:
            one(op, schemas, writers)
            res.append("ok")
        except Exception as e:
            res.append(type(e).__name__)
            del e
    return res


class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


libc = ctypes.CDLL(None)
libc.mallinfo2.restype = Mallinfo2


def held():
    """Open files, and bytes of the C heap and (roughly) of the interpreter's own"""
    gc.collect()
    m = libc.mallinfo2()
    return [len(os.listdir("/proc/self/fd")), m.uordblks + m.hblkhd + 32 * sys.getallocatedblocks()]


for line in sys.stdin:
    ops = json.loads(line)
    if isinstance(ops, dict):
        for _ in range(ops["repeat"]):
            perform(ops["ops"])
        res = held()
    else:
        res = perform(ops)
    out.write(json.dumps(res) + "\n")
    out.flush()

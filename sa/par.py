"""Run independent parts of an analysis in forked processes."""
import os
import pickle
import traceback

from .project import AnalysisBroken


def pmap(f, items, workers=8):
    """[f(x) for x in items], each worker a fork of this process; results must be picklable."""
    items = list(items)
    workers = min(workers, len(items), os.cpu_count() or 1)
    if workers < 2:
        return [f(x) for x in items]
    # Work is handed out one item at a time, through a pipe holding one byte pair per item.
    qr, qw = os.pipe()
    os.write(qw, b"".join(i.to_bytes(2, "big") for i in range(len(items))))
    os.close(qw)
    pipes = []
    for _ in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                out = []
                while True:
                    b = os.read(qr, 2)
                    if len(b) < 2:
                        break
                    i = int.from_bytes(b, "big")
                    try:
                        out.append((i, True, f(items[i])))
                    except AnalysisBroken as e:
                        out.append((i, None, str(e)))
                    except BaseException:
                        out.append((i, False, traceback.format_exc()))
                with os.fdopen(w, "wb") as fh:
                    pickle.dump(out, fh)
            except BaseException:
                traceback.print_exc()
                code = 3
            os._exit(code)
        os.close(w)
        pipes.append((pid, r))
    os.close(qr)
    res = {}
    bad = []
    for pid, r in pipes:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        if not data:
            bad.append("a worker ended without a result")
            continue
        for i, ok, v in pickle.loads(data):
            if ok:
                res[i] = v
            elif ok is None:
                raise AnalysisBroken(v)
            else:
                bad.append(v)
    if bad or len(res) != len(items):
        raise RuntimeError("\n".join(bad) or "results are missing")
    return [res[i] for i in range(len(items))]


def parallel(rep, f, items, workers=8):
    """f(report, item) for each item in a forked worker; the reports are merged into rep."""
    from .report import Report

    def one(x):
        r = Report(rep.prop)
        f(r, x)
        return r
    for r in pmap(one, items, workers):
        rep.merge(r)

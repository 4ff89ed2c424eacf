"""Development aid (DST_COV=file): which lines of the library the runs of a check execute. The union over all forked
runs is collected in a shared map; nothing of this is active in a normal check."""
import mmap, os, sys, json

TOOL = 4


def _lines(code, out):
    out.update(l for _, _, l in code.co_lines() if l)
    for c in code.co_consts:
        if hasattr(c, "co_lines"):
            _lines(c, out)


def start(root):
    root = os.path.join(root, "dsptoolbox")
    index, n = {}, 0
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                total = sum(1 for _ in open(p)) + 2
                index[p] = (n, total)
                n += total
    m = mmap.mmap(-1, max(1, n))
    mon = sys.monitoring

    def line(code, no):
        e = index.get(code.co_filename)
        if e is not None and no < e[1]:
            m[e[0] + no] = 1
        return mon.DISABLE
    mon.use_tool_id(TOOL, "dst-cov")
    mon.register_callback(TOOL, mon.events.LINE, line)
    mon.set_events(TOOL, mon.events.LINE)
    return root, index, m


def dump(state, path):
    root, index, m = state
    out = {}
    for p, (o, n) in index.items():
        every = set()
        _lines(compile(open(p).read(), p, "exec"), every)
        out[os.path.relpath(p, root)] = dict(lines=sorted(every), hit=[i for i in range(n) if m[o + i]])
    json.dump(out, open(path, "w"))

"""C28: model files are read and echoed faithfully."""
import os
import sys
import types
import unittest.mock
from fractions import Fraction
import numpy as np
from harness import meshes as ms
from harness import util as u

INPUTS = ("nodes", "mater", "eles", "loads")
ECHOES = ("KNODES", "KMATES", "KELEMS", "KLOADS")
OTHERS = ("notes.txt", "nodes.txt~", "KNODES.bak", "msh.geo", "KNODES")


def number(rng):
    kind = rng.random()
    if kind < .2:
        return [rng.randrange(-50, 51), 0]
    if kind < .35:
        return [rng.randrange(1, 1000), rng.choice([6, 9, 15])]
    if kind < .5:
        return [rng.randrange(-99999, 100000), rng.choice([-9, -7, -5])]
    if kind < .54:
        return [rng.randrange(-999999, 1000000),
                rng.choice([-11, -14, -18, -30, -60, 40])]
    if kind < .6:
        return [rng.choice([-1, 1])*(10*rng.randrange(1, 9000) + 5), -3]
    return [rng.randrange(-99999, 100000), rng.choice([-4, -3, -2, -1, 0])]


def table(rng, rows, cols):
    out = []
    for k in ms.idents(rng, rows):
        row = []
        for kind in cols:
            if kind == "id":
                row.append([k, 0])
            elif kind == "flag":
                row.append([rng.choice([0, -1]), 0])
            elif kind == "int":
                row.append([rng.choice([rng.randrange(0, 3000)]*5 + [
                    rng.randrange(2**24, 2**31)]), 0])
            else:
                row.append(number(rng))
        out.append(row)
    if "x" in cols and rng.random() < .35:      # a row of zeros
        k = rng.choice([0, rng.randrange(len(out)), len(out) - 1])
        out[k] = [[0, 0] if kind == "x" or rng.random() < .3 and
                  kind != "id" else val for kind, val in zip(cols, out[k])]
    if len(out) > 1 and rng.random() < .3:      # a repeated row
        out[rng.randrange(len(out))] = list(rng.choice(out))
    return out


def model(rng, big=None):
    """Random tables; the one named is long."""
    size = lambda name: rng.choice([1050, 1300]) if name == big else \
        rng.choice([1, 1, 2, 3, 5, 10])
    return {"nodes": table(rng, size("nodes"), ["id"] + ["x"]*rng.choice(
                [1, 2, 2, 2, 3]) + ["flag"]*rng.choice([0, 1, 2, 2, 2, 3])),
            "mater": table(rng, size("mater"), ["x"]*rng.choice([1, 2, 2, 3, 4])),
            "eles": table(rng, size("eles"), ["id", "int", "int"] +
                          ["int"]*rng.choice([2, 3, 4, 6, 9])),
            "loads": table(rng, size("loads"), ["int"] +
                           ["x"]*rng.choice([1, 2, 2, 2, 3, 6]))}


def value(tok):
    return Fraction(tok[0])*Fraction(10)**tok[1]


def text(rng, tok, form):
    """One spelling of the number m*10^e."""
    man, exp = tok
    sign = "-" if man < 0 else "+" if form == "plus" else ""
    digs = str(abs(man))
    if form in ("exp", "bigexp"):
        shift = rng.randrange(0, len(digs))
        cut = len(digs) - shift
        body = digs[:cut] + ("." + digs[cut:] if shift else
                             rng.choice(["", ".", ".0"]))
        tail = exp + shift
        if form == "bigexp":
            return f"{sign}{body}E{tail:+03d}"
        return f"{sign}{body}e{tail}"
    if exp >= 0:
        body = digs + "0"*exp
        if form == "zeros":
            body += rng.choice([".", ".0", ".000"])
    else:
        digs = digs.rjust(-exp + 1, "0")
        body = digs[:exp] + "." + digs[exp:]
        if form == "zeros":
            body += "00"
    return sign + body


def render(rng, lines):
    """The text of a file; returns it with the exact floats it holds."""
    sep = rng.choice([" ", "  ", "\t", " \t "])
    out = []
    for line in lines:
        if line["kind"] == "blank":
            out.append(rng.choice(["", "   ", "\t"]))
        elif line["kind"] == "comment":
            out.append(rng.choice(["# id  x  y", "#1 2 3 4", "  # mesh # 2",
                                   "#"]))
        else:
            row = sep.join(text(rng, t, line["form"]) for t in line["row"])
            if rng.random() < .3:
                row = rng.choice(["  ", "\t"]) + row
            if line["tail"]:
                row += rng.choice([" # 7 8", "  ", " #"])
            out.append(row)
    full = "\n".join(out)
    full += "\n" if rng.random() < .8 else ""
    return full.replace("\n", "\r\n") if rng.random() < .15 else full


def snapshot(base):
    found = {}
    for path, _, files in os.walk(base):
        for name in files:
            full = os.path.join(path, name)
            with open(full, "rb") as fin:
                found[os.path.relpath(full, base)] = (
                    fin.read(), os.stat(full).st_mtime_ns)
    return found


def run(ctx):
    import solidspy.preprocesor as pre
    rng = ctx.rng
    models = [model(rng) for _ in range(ctx.pick(12, 60))]
    res = ctx.tlc("Files", scenarios=models, workers=1,
                  simulate=(ctx.pick(60, 1500), 9))
    for num, rec in enumerate(res.lines("files")):
        replay(ctx, pre, rec["hist"], ctx.subdir(
            f"h{num}" + rng.choice(["", " job v1.0", "-A_b"])))
        ctx.trace()
    ctx.sample([s["op"] for s in rec["hist"]])
    # long tables
    models = [model(rng, big) for big in ("nodes", "eles", "loads", "mater")]
    res = ctx.tlc("Files", scenarios=models, workers=1,
                  simulate=(ctx.pick(2, 12), 9))
    for num, rec in enumerate(res.lines("files")[:ctx.pick(5, 40)]):
        replay(ctx, pre, rec["hist"], ctx.subdir(f"long{num}"))
        ctx.trace()
        ctx.count("long")
    very_long(ctx, pre, [s for rec in res.lines("files")
                         for s in rec["hist"] if s["op"] == "save"])


def very_long(ctx, pre, saves):
    """What a file says many times over is read as many times."""
    rng = ctx.rng
    for num in range(ctx.pick(4, 8)):
        step = rng.choice(saves)
        folder = ctx.subdir(f"verylong{num}")
        wants = []
        for name, lines in zip(INPUTS, step["files"]):
            times = max(1, rng.choice([7000, 20000, 34000])//len(lines)) \
                if name == INPUTS[num % 4] or rng.random() < .4 else 1
            with open(os.path.join(folder, name + ".txt"), "w") as fout:
                fout.write((render(rng, lines) + "\n")*times)
            rows = [[float(value(t)) for t in line["row"]] for line in lines
                    if line["kind"] not in ("blank", "comment")]
            wants.append(np.tile(np.array(rows), (times, 1)))
        got = u.call(pre.readin, folder)
        ctx.trace()
        ctx.count("very_long", max(map(len, wants)))
        for name, want, tab in zip(INPUTS, wants, got.val or [None]*4):
            if got.err or not u.safe(lambda: np.array_equal(tab, want)):
                ctx.fail("read-very-long", {"file": name, "err": got.err,
                                            "rows": len(want)})


def place(base, folder, style):
    """How the caller names the folder; (argument or None, cwd)."""
    full = os.path.join(base, folder)
    if style == "bare":
        return folder, base
    if style == "slash":
        return folder + "/", base
    if style == "absolute":
        return full + "/", "/"
    if style == "dots":
        other = os.path.join(base, "two" if folder == "one" else "one")
        return "../" + folder, other
    return None, full


def asked(ctx, pre, step, arg, full, info):
    """Read the folder the user names when asked."""
    seen = [0, 0]

    def window(*args, **kwargs):
        seen[0] += 1
        return full if step["ask"] == "window" else None

    def console(*args):
        seen[1] += 1
        return arg or ""

    fake = types.ModuleType("easygui")
    if step["ask"] != "none":
        fake.diropenbox = window
    old = sys.modules.get("easygui")
    sys.modules["easygui"] = fake if step["ask"] != "none" else None
    try:
        with unittest.mock.patch("builtins.input", console):
            got = u.call(pre.initial_params)
    finally:
        del sys.modules["easygui"]
        if old is not None:
            sys.modules["easygui"] = old
    if got.err:
        return got
    if seen != step["asked"]:
        ctx.fail("asked", dict(info, spec=step["asked"], code=seen))
    return u.call(pre.readin, folder=got.val)


def replay(ctx, pre, hist, base):
    rng = ctx.rng
    for folder in ("one", "two"):
        os.makedirs(os.path.join(base, folder))
        for name in OTHERS:
            if rng.random() < .4:
                with open(os.path.join(base, folder, name), "w") as fout:
                    fout.write("1 2 3\n")
    held = None
    known = snapshot(base)
    done = []
    for step in hist:
        done.append({k: step[k] for k in ("op", "folder", "style")
                     if k in step})
        info = {"history": list(done)}
        ctx.count(step["op"])
        if step["op"] == "save":
            for name, lines in zip(INPUTS, step["files"]):
                path = os.path.join(base, step["folder"], name + ".txt")
                with open(path, "w") as fout:
                    fout.write(render(rng, lines))
            known = snapshot(base)
            continue
        if step["op"] == "make":
            held = [np.array([[float(value(t)) for t in row] for row in tab])
                    for tab in step["tables"]]
            held[2] = held[2].astype(int)
            continue
        arg, cwd = place(base, step["folder"], step["style"])
        os.chdir(cwd)
        if step["op"] == "read":
            if step["ask"] == "caller":
                got = u.call(pre.readin, **({} if arg is None
                                            else {"folder": arg}))
            else:
                ctx.count("asked")
                got = asked(ctx, pre, step, arg,
                            os.path.join(base, step["folder"]), info)
            os.chdir("/")
            if got.err:
                ctx.fail("read-raised", dict(info, err=got.err))
                return
            held = [np.asarray(t) for t in got.val]
            for name, tab, want in zip(INPUTS, held, step["tables"]):
                exact = np.array([[float(value(t)) for t in row]
                                  for row in want])
                if tab.shape != exact.shape or not np.array_equal(tab, exact):
                    ctx.fail("read", dict(info, file=name, code=tab,
                                          spec=exact))
                    return
            if not np.issubdtype(held[2].dtype, np.integer):
                ctx.fail("elements-type", dict(info, dtype=str(held[2].dtype)))
            if snapshot(base) != known:
                ctx.fail("read-altered-files", info)
                return
        else:
            given = [u.relay(rng, t.copy()) for t in held]
            got = u.call(pre.echomod, *given, **(
                {} if arg is None else {"folder": arg}))
            os.chdir("/")
            if got.err:
                ctx.fail("echo-raised", dict(info, err=got.err))
                return
            if not all(np.array_equal(a, b) for a, b in zip(given, held)):
                ctx.fail("echo-altered-tables", info)
            now = snapshot(base)
            mine = {os.path.join(step["folder"], n + ".txt") for n in ECHOES}
            if {k: v for k, v in now.items() if k not in mine} != \
                    {k: v for k, v in known.items() if k not in mine} or \
                    not mine <= set(now):
                ctx.fail("echo-files", dict(
                    info, changed=sorted(k for k in set(now) | set(known)
                                         if now.get(k) != known.get(k))))
                return
            known = now
            for name, want in zip(ECHOES, step["tables"]):
                path = os.path.join(base, step["folder"], name + ".txt")
                back = u.call(np.loadtxt, path, ndmin=2)
                if back.err:
                    ctx.fail("echo-unreadable", dict(info, file=name,
                                                     err=back.err))
                    return
                okay = back.val.shape == (len(want), len(want[0])) and all(
                    any(back.val[i, j] == float(value(t)) for t in alt)
                    for i, row in enumerate(want) for j, alt in enumerate(row))
                if not okay:
                    ctx.fail("echo", dict(info, file=name, spec=want,
                                          code=back.val))
                    return

"""C16: the on-disk cache of invariants is transparent (InvCache.tla).

The protocol is explored exhaustively in the model; histories drawn from the model (requests in one or several processes,
interruptions at every point of a request, damaged files, concurrent requests) are replayed into the library in forked processes
with a private home directory, and TLC judges the recording against uncached computations.
"""
import hashlib
import json
import os
import random
import select
import shutil
import signal
import sys
import time
from concurrent.futures import ThreadPoolExecutor

import common
from common import MachineryError, import_lips, scratch, tlc

FAMILIES = ["invs_2", "invs_3", "invs_4", "invs_5", "invs_s", "invs_D", "invs_O", "invs_P", "invs_tr5"]
DEFAULT = {"no_cached": False, "no_hard": False, "r3": True, "r4": True, "f4": True}


def kwargs(o):
    return {"no_cached": o["no_cached"], "no_hard_coded_ones": o["no_hard"], "Restrict3Brackets": o["r3"], "Restrict4Brackets": o["r4"],
            "FurtherRestrict4Brackets": o["f4"]}


def key(n, o):
    return (n, o["no_hard"], o["r3"], o["r4"], o["f4"])


def digest(inv):
    return hashlib.md5(json.dumps([getattr(inv, f) for f in FAMILIES] + [inv.full]).encode()).hexdigest()[:16]


# ---------------------------------------------------------------- the process making requests (forked)
class Tracer:
    """Counts line events of the constructor and of what it calls directly, in the module of the invariants."""

    def __init__(self, module_file, at, action):
        self.file, self.at, self.action, self.count = module_file, at, action, 0

    def glob(self, frame, event, arg):
        if frame.f_code.co_filename != self.file:
            return None
        back = frame.f_back
        if frame.f_code.co_name == "__init__" or (back is not None and back.f_code.co_filename == self.file and back.f_code.co_name == "__init__"):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.count == self.at:
                self.action()
        return self.local


def child(home, rd, wr):
    os.environ["HOME"] = home
    import lips.invariants as I
    cmds, out = os.fdopen(rd, "r"), os.fdopen(wr, "w")
    last = None

    def send(d):
        out.write(json.dumps(d) + "\n")
        out.flush()

    def pause():
        send({"paused": True})
        cmds.readline()

    def die():
        os._exit(9)

    def interrupt():
        raise KeyboardInterrupt

    for line in cmds:
        c = json.loads(line)
        try:
            if c["do"] == "mutate":
                if last is not None:
                    r = random.Random(c["at"])
                    for f in FAMILIES:
                        x = getattr(last, f)
                        if isinstance(x, list):
                            [lambda: x.append("⟨9|9⟩"), x.clear, x.reverse, lambda: x.insert(0, "s_99")][r.randrange(4)]()
                send({"st": "ok"})
                continue
            act = {"req": None, "kill": die, "interrupt": interrupt, "pause": pause}[c["do"]]
            tracer = Tracer(I.__file__, c.get("at", 0), act)
            if act:
                sys.settrace(tracer.glob)
            try:
                last = I.Invariants(c["n"], **kwargs(c["opts"]))
            finally:
                sys.settrace(None)
            send({"st": "ok", "res": digest(last), "events": tracer.count})
        except KeyboardInterrupt:
            send({"st": "interrupted"})
        except BaseException as e:
            send({"st": "raised " + type(e).__name__, "msg": str(e)[:200]})
    os._exit(0)


class Proc:
    def __init__(self, home, close=()):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                null = os.open(os.devnull, os.O_RDWR)
                os.dup2(null, 1)
                os.dup2(null, 2)
                child(home, r1, w2)
            finally:
                os._exit(7)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, os.fdopen(r2, "r")
        self.dead = False

    def send(self, d):
        try:
            os.write(self.w, (json.dumps(d) + "\n").encode())
        except BrokenPipeError:
            pass

    def recv(self, limit=120):
        if not select.select([self.r], [], [], limit)[0]:
            os.kill(self.pid, signal.SIGKILL)
            self.close()
            return {"st": "no answer"}
        line = self.r.readline()
        if not line:
            return {"st": self.close()}
        return json.loads(line)

    def ask(self, d):
        self.send(d)
        return self.recv()

    def close(self):
        if self.dead:
            return "dead"
        self.dead = True
        try:
            os.close(self.w)
        except OSError:
            pass
        _, st = os.waitpid(self.pid, 0)
        self.r.close()
        return f"died with signal {os.WTERMSIG(st)}" if os.WIFSIGNALED(st) else f"exited {os.WEXITSTATUS(st)}"


# ---------------------------------------------------------------- the file system
def snapshot(home):
    h = hashlib.md5()
    for d, ds, fs in sorted(os.walk(home)):
        h.update(d.encode())
        ds.sort()
        for f in sorted(fs):
            h.update(f.encode())
            with open(os.path.join(d, f), "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


def cachedir(home, n):
    return os.path.join(home, ".cache", "lips", f"n={n}")


def damage(home, n, how, at):
    d = cachedir(home, n)
    if not os.path.isdir(d):
        if os.path.isfile(d):
            os.remove(d)
        return
    files = [os.path.join(d, f) for f in sorted(os.listdir(d))]
    for f in files:
        if os.path.isdir(f):
            shutil.rmtree(f)
    files = [f for f in files if os.path.isfile(f)]
    rng = random.Random(at)
    if how == "parentfile":
        shutil.rmtree(d)
        with open(d, "w") as fh:
            fh.write("x")
    elif how in ("dropkey", "dropnth", "badvalue"):
        pid = os.fork()                                # the database library may print, or die, on files damaged before
        if pid == 0:
            try:
                os.dup2(os.open(os.devnull, os.O_RDWR), 2)
                import dbm
                with dbm.open(os.path.join(d, "invariants"), "w") as db:
                    ks = sorted(db.keys())
                    k = ks[at % len(ks)] if how == "dropnth" else rng.choice(ks)
                    if how != "badvalue":
                        del db[k]
                    else:
                        db[k] = b"\x80"
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
    else:
        for f in files:
            size = os.path.getsize(f)
            if how == "delete":
                os.remove(f)
            elif how == "directory":
                os.remove(f)
                os.mkdir(f)
            elif how == "empty":
                open(f, "w").close()
            elif how == "truncate":
                os.truncate(f, size * at // 1000)
            elif how == "shorten":
                os.truncate(f, max(0, size - 1 - at))
            elif how == "garbage":
                with open(f, "wb") as fh:
                    fh.write(rng.randbytes(max(size, 64)))


# ---------------------------------------------------------------- replay
def replay(script, home):
    os.makedirs(home)
    steps, proc = [], None

    def fresh():
        nonlocal proc
        if proc is not None:
            proc.close()
        proc = Proc(home)

    def request(p, n, opts, op="req", **kw):
        b = snapshot(home)
        a = p.ask(dict(kw, do=kw.get("do", "req"), n=n, opts=opts))
        return {"op": op, "n": n, "opts": opts, "st": a["st"], "res": a.get("res", ""), "before": b, "after": snapshot(home)}, a

    for s in script:
        if proc is None or proc.dead or s["new"]:
            fresh()
        n = s["n"]
        if s["op"] == "req":
            steps.append(request(proc, n, s["opts"])[0])
        elif s["op"] == "crash":
            r, a = request(proc, n, DEFAULT, do="kill" if s["mode"] == "kill" else "interrupt", at=s["at"])
            expected = ("exited 9",) if s["mode"] == "kill" else ("interrupted",)
            steps.append(dict(r, op="crashed", st="ok") if r["st"] in expected else r)      # not reached: an ordinary request
        elif s["op"] == "damage":
            damage(home, n, s["how"], s["at"])
            steps.append({"op": "damage", "n": n, "opts": DEFAULT, "st": s["how"], "res": "", "before": "", "after": ""})
        elif s["op"] == "mutate":
            proc.ask({"do": "mutate", "at": s["at"]})
        elif s["op"] == "foreign":                    # a cache with other contents: must not be looked at
            other = 4 if n != 4 else 5
            request(proc, other, DEFAULT)
            src, dst = cachedir(home, other), cachedir(home, n)
            if not os.path.isdir(src):
                continue
            shutil.rmtree(dst, ignore_errors=True)
            if os.path.isfile(dst):
                os.remove(dst)
            shutil.copytree(src, dst)
            steps.append(request(proc, n, s["opts"], op="foreign")[0])
            shutil.rmtree(dst, ignore_errors=True)
        elif s["op"] == "pause":
            proc.send({"do": "pause", "n": n, "opts": DEFAULT, "at": s["at"]})
            a = proc.recv()
            if a.get("paused"):
                q = Proc(home)
                steps.append(request(q, n, s["opts"], op="after")[0])
                q.close()
                proc.send({})
                a = proc.recv()
            steps.append({"op": "pause", "n": n, "opts": DEFAULT, "st": a["st"], "res": a.get("res", ""), "before": "", "after": ""})
        steps[-1:] = [dict(x, script=s) for x in steps[-1:]]
    if proc is not None:
        proc.close()
    shutil.rmtree(home)
    return steps


def reference(pairs):
    """Uncached computations, each in a process and home directory of its own."""
    table = []
    for n, o in pairs:
        home = scratch(f"ref_{n}_{o['no_hard']:d}{o['r3']:d}{o['r4']:d}{o['f4']:d}")
        os.makedirs(home)
        p = Proc(home)
        o = dict(o, no_cached=True)
        a = p.ask({"do": "req", "n": n, "opts": o})
        p.close()
        shutil.rmtree(home)
        if a["st"] != "ok":
            raise common.LibraryError(f"uncached request n={n} {o}: {a}")
        table.append({"n": n, "opts": o, "digest": a["res"]})
    return table


def run(ctx):
    _, st = tlc("InvCache", cfg_text="SPECIFICATION Spec\nINVARIANTS TransparentInv DeclinesInv\n",
                env={"MODE": "explore", "FAMS": ctx.pick(3, 9), "MAXREQ": ctx.pick(3, 4)}, workers=4)
    ctx.add_stats(st)
    ctx.notes["protocol_states"] = st["states"]
    import_lips()
    # number of interruption points of an ordinary request
    home = scratch("probe")
    os.makedirs(home)
    p = Proc(home)
    a = p.ask({"do": "interrupt", "n": 4, "opts": DEFAULT, "at": 10 ** 9})
    p.close()
    if a["st"] != "ok":
        ctx.violation(f"first request failed: {a}", a)
        return
    events = a["events"]
    ctx.notes["interruption_points"] = events
    # every interruption point of a request, in both ways, on an empty and on a complete cache; then a request by another process
    scripts = []
    for at in range(1, events + 1):
        for mode in ("kill", "interrupt"):
            n = 5 if at % 4 else 4
            pre = [{"op": "req", "n": n, "opts": DEFAULT, "new": True}, {"op": "damage", "n": n, "how": "dropkey", "at": at, "new": True}] if at % 3 == 0 else []
            scripts.append(pre + [{"op": "crash", "n": n, "mode": mode, "at": at, "new": True}] +
                           [{"op": "req", "n": n, "opts": DEFAULT, "new": b} for b in (at % 2 == 0, True)])
        # six points: every family but one has entries
        scripts.append([{"op": "crash", "n": 6, "mode": "interrupt", "at": at, "new": True}, {"op": "req", "n": 6, "opts": DEFAULT, "new": True}])
        scripts.append([{"op": "pause", "n": 5, "at": at, "opts": DEFAULT, "new": True}, {"op": "req", "n": 5, "opts": DEFAULT, "new": True}])
    for n in (5, 6, 7):             # each family missing in turn
        scripts.append([{"op": "req", "n": n, "opts": DEFAULT, "new": True}] +
                       [e for k in range(len(FAMILIES)) for e in ({"op": "damage", "n": n, "how": "dropnth", "at": k, "new": False},
                                                                  {"op": "req", "n": n, "opts": DEFAULT, "new": True})])
    exhaustive = len(scripts)
    out = scratch("cache_hist.json")
    for big in (0, 1):
        _, st = tlc("InvCache", cfg_text="SPECIFICATION Spec\n", env={"MODE": "gen", "GSEED": ctx.seed * 2 + big, "GCOUNT": ctx.pick((60, 6), (600, 60))[big],
                                                                      "GSTEPS": 8, "GEVENTS": events, "GBIG": big, "GOUT": out})
        ctx.add_stats(st)
        with open(out) as f:
            scripts += json.load(f)
    for s in scripts:
        for e in s:                 # six points: the hard-coded entries take half a minute without the restrictions
            if e["n"] == 6 and "opts" in e and not (e["opts"]["r4"] and e["opts"]["f4"]):
                e["opts"] = dict(e["opts"], no_hard=True)
    pairs = {}
    for s in scripts:
        for e in s:
            for o in (DEFAULT, e.get("opts", DEFAULT)):
                pairs[key(e["n"], o)] = (e["n"], o)
    with ThreadPoolExecutor(1) as ex:
        table = [t for ts in ex.map(reference, [[p] for p in pairs.values()]) for t in ts]
    traces = [replay(s, scratch(f"home_{k}")) for k, s in enumerate(scripts)]
    steps, where = [], []
    for k, t in enumerate(traces):
        for e in t:
            steps.append({x: e[x] for x in ("op", "n", "opts", "st", "res", "before", "after")})
            where.append(k)
    f, v = scratch("cache_tr.json"), scratch("cache_vd.json")
    with open(f, "w") as fh:
        json.dump({"table": table, "steps": steps}, fh)
    _, st = tlc("InvCache", cfg_text="SPECIFICATION Spec\n", env={"MODE": "judge", "TRACE": f, "VERDICT": v})
    ctx.add_stats(st)
    with open(v) as fh:
        for i, what in json.load(fh):
            ctx.violation(f"{what}: n={steps[i - 1]['n']} {steps[i - 1]['opts']}", {"script": scripts[where[i - 1]], "steps": traces[where[i - 1]]})
    ctx.count("traces_validated_against_impl", len(traces))
    ctx.count("evaluations", len(steps))
    ctx.notes["exhaustive_interruptions"] = exhaustive
    kinds = {}
    for e in steps:
        kinds[e["op"]] = kinds.get(e["op"], 0) + 1
    ctx.notes["steps_by_kind"] = kinds
    ctx.sample(scripts[-1])

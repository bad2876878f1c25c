"""Exhaustive exploration of the real code: enumeration driver, BFS, evidence.

A check consists of harnesses.  A harness enumerates JSON-able items (inputs, operation
histories, fault positions, ...) completely within its bounds and runs the real code on
each, comparing every step with a reference model.  Any disagreement is a Violation.
"""
import collections
import hashlib
import itertools
import json
import logging
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("MC_REPO", "/repo")
OUT = os.environ.get("MC_OUT", VERIF)          # where evidence/ and replays/ are written
BFS_QUICK_S = 100.0                  # one breadth-first search of a quick check
ITEM_LIMIT_S = 40.0
WALL_FACTOR = 4.0
MEMORY_LIMIT = 4 << 30            # address space of one worker process


def setup_import():
    """Make `import solver` load the working tree under test, never byte code."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import solver
    assert os.path.abspath(solver.__file__).startswith(os.path.abspath(REPO) + os.sep), solver.__file__
    quiet_logging()


def quiet_logging():
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.addHandler(logging.NullHandler())
    root.setLevel(logging.CRITICAL + 1)


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def raises(f, *args, **kw):
    """The exception f(*args) raises, or None."""
    try:
        f(*args, **kw)
    except Exception as e:          # noqa: BLE001 - any exception type is an answer here
        return e
    return None


class Name:
    """A hashable name: equal names are never the same object, all print alike and share their hash."""

    def __init__(self, tag):
        self.tag = tag

    def __eq__(self, other):
        return isinstance(other, Name) and self.tag == other.tag

    def __hash__(self):
        return 5

    def __str__(self):
        return "N"

    def __repr__(self):
        return "Name({0!r})".format(self.tag)


def fresh(v):
    """An object equal to v, where possible not the same one."""
    t = type(v)
    if t is Name:
        return Name(v.tag)
    if t is tuple and v:
        return tuple([fresh(x) for x in v])
    if t is str and len(v) > 1:
        return "".join(list(v))
    if t is float:
        return float(repr(v))
    if t is int and abs(v) > 300:
        return int(repr(v))
    if t is frozenset and v:
        return frozenset(list(v))
    if t is bytes and len(v) > 1:
        return bytes(list(v))
    return v


class Names(list):
    """A list that hands out equal but not identical names."""

    def __getitem__(self, i):
        r = list.__getitem__(self, i)
        return [fresh(v) for v in r] if isinstance(i, slice) else fresh(r)


class Ctx:
    """Counters of one worker."""

    def __init__(self):
        self.c = collections.Counter()
        self.outcomes = collections.Counter()
        self.samples = []

    def state(self, n=1):
        self.c["states"] += n

    def step(self, n=1):
        self.c["transitions"] += n

    def trace(self, n=1):
        self.c["traces"] += n

    def out(self, label, n=1):
        self.outcomes[label] += n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def export(self):
        return dict(self.c), dict(self.outcomes), self.samples


class Harness:
    """Base: override items() and run()."""
    name = "?"
    bound = ""

    def items(self, tier):
        raise NotImplementedError

    def run(self, item, ctx):
        raise NotImplementedError


def fn_harness(name, bound, items, run):
    h = Harness()
    h.name, h.bound = name, bound
    h.items, h.run = items, run
    return h


# --------------------------------------------------------------------------- watchdog

def _on_alarm(signum, frame):
    raise Hang()


def guarded(fn, limit=ITEM_LIMIT_S):
    """Run fn; a run that does not end is a Violation (confirmed with a longer limit)."""
    # processor time, so that a busy (or paused) machine does not count against the code;
    # a wall-clock limit besides, for a call that blocks without computing
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.signal(signal.SIGALRM, _on_alarm)
    for k, lim in enumerate((limit, 2 * limit)):
        signal.setitimer(signal.ITIMER_PROF, lim)
        signal.setitimer(signal.ITIMER_REAL, WALL_FACTOR * lim)
        try:
            return fn()
        except Hang:
            if k:
                raise Violation("no answer within {0:.0f} s of processor time (does not terminate)".format(lim))
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)


def run_item(h, item, ctx):
    """Returns None or a violation message."""
    try:
        guarded(lambda: h.run(item, ctx))
        return None
    except Violation as v:
        return str(v)
    except KeyboardInterrupt:
        raise
    except MemoryError:
        return "needs more than {0} GB of memory".format(MEMORY_LIMIT >> 30)
    except Exception:
        return "unexpected exception\n" + traceback.format_exc(limit=-6)


# --------------------------------------------------------------------------- state dumps

def dump(obj, names=None, ordered=False):
    """Structural dump of an object graph (hidden attributes included) as a hashable.

    names maps id(object) -> label for objects that are part of the alphabet."""
    names = names or {}
    memo = {}

    def d(o):
        if id(o) in names:
            return names[id(o)]
        if o is None or isinstance(o, (bool, int, float, str, bytes, complex)):
            return (type(o).__name__, o)
        if isinstance(o, (tuple, frozenset)) and type(o) in (tuple, frozenset):
            parts = [d(x) for x in o]
            return (type(o).__name__, tuple(parts if type(o) is tuple else sorted(parts, key=repr)))
        if id(o) in memo:
            return ("ref", memo[id(o)])
        memo[id(o)] = len(memo)
        if isinstance(o, dict):
            its = [(d(k), d(v)) for k, v in o.items()]
            return (type(o).__name__, tuple(its if ordered else sorted(its, key=repr)))
        if isinstance(o, (list, tuple, collections.deque)):
            return (type(o).__name__, tuple(d(x) for x in o))
        if isinstance(o, (set, frozenset)):
            return (type(o).__name__, tuple(sorted((d(x) for x in o), key=repr)))
        if callable(o) and not hasattr(o, "__dict__"):
            return ("fn", getattr(o, "__name__", type(o).__name__))
        attrs = {}
        for klass in type(o).__mro__:
            for s in getattr(klass, "__slots__", ()) or ():
                if hasattr(o, s):
                    attrs[s] = getattr(o, s)
        attrs.update(getattr(o, "__dict__", {}))
        if not attrs:
            return (type(o).__name__, repr(o) if not callable(o) else getattr(o, "__name__", "?"))
        return (type(o).__name__, tuple((k, d(v)) for k, v in sorted(attrs.items())))

    return d(obj)


def digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=12).digest()


# --------------------------------------------------------------------------- BFS

class System:
    """One real object together with its reference model (subclass per area)."""

    def apply(self, op):
        """Apply op to both; raise Violation if the answers differ."""
        raise NotImplementedError

    def observe(self):
        """Compare everything the public API shows with the model."""
        raise NotImplementedError

    def key(self):
        raise NotImplementedError


class BFS(Harness):
    """Breadth-first search; a state is the history reaching it (rebuilt from scratch)."""

    def __init__(self, name, bound, make, ops, depth, cap_states=None, observe_prefix=True):
        self.name, self.bound = name, bound
        self.make, self.ops = make, ops
        self.depth, self.cap = depth, cap_states
        self.observe_prefix = observe_prefix

    def depth_for(self, tier):
        return self.depth[tier] if isinstance(self.depth, dict) else self.depth

    def alphabet(self, tier):
        return self.ops(tier) if callable(self.ops) else self.ops

    def run(self, item, ctx):
        """Replay one complete history, checking after every step."""
        s = self.make()
        s.observe()
        for op in item:
            s.apply(op)
            s.observe()
            ctx.step()
        ctx.trace()

    def expand(self, hist, ops, ctx):
        """All successors of one history: list of (key digest, op index); or violation."""
        res = []
        for i, op in enumerate(ops):
            def one():
                s = self.make()
                for o in hist:
                    s.apply(o)
                if self.observe_prefix:
                    s.observe()
                if not s.enabled(op):
                    return None
                s.apply(op)
                s.observe()
                return digest(s.key())
            try:
                k = guarded(one)
            except Violation as v:
                return res, (list(hist) + [op], str(v))
            except KeyboardInterrupt:
                raise
            except MemoryError:
                return res, (list(hist) + [op], "needs more than {0} GB of memory".format(MEMORY_LIMIT >> 30))
            except Exception:
                return res, (list(hist) + [op], "unexpected exception\n" + traceback.format_exc(limit=-6))
            if k is None:
                continue
            ctx.step()
            ctx.trace()
            res.append((k, i))
        return res, None


def endurance(name, bound, searches, length=(12000, 60000), calm=None):
    """One object through a long history that contains every ordered pair of operations next to each other.

    searches: BFS harnesses; calm(op): operations of an additional history that never starts over."""
    def items(tier):
        for k, h in enumerate(searches):
            n = len(h.alphabet(tier))
            for r in range(0, n, max(1, n // (4 if tier == "quick" else 16))):
                for quiet in (False, True) if calm else (False,):
                    yield [k, r, quiet, tier]

    def run(item, ctx):
        k, r, quiet, tier = item
        h = searches[k]
        ops = [o for o in h.alphabet(tier) if not quiet or calm(o)]
        n, todo = len(ops), length[tier == "thorough"]
        s = h.make()
        shift = r
        while todo > 0:
            for i in range(n):
                for op in (ops[i], ops[(i * (1 + shift // n % 3) + shift) % n]):
                    if s.enabled(op):
                        s.apply(op)
                        s.observe()
                        ctx.step()
                    todo -= 1
            shift += 1
        ctx.state()
        ctx.trace()
    return fn_harness(name, bound, items, run)


_BFS = None      # (harness, ops, deadline) of the running pool


def _bfs_chunk(chunk):
    h, ops, deadline, parent = _BFS
    ctx = Ctx()
    out, local = [], set()
    for idx, hist in chunk:
        if time.time() > deadline:
            return out, None, ctx.export(), True
        succ, bad = h.expand([ops[i] for i in hist], ops, ctx)
        if bad:
            return out, bad, ctx.export(), False
        for k, i in succ:
            if k not in local:
                local.add(k)
                out.append((k, idx, i))
    return out, None, ctx.export(), False


def limit_memory():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))


def _pool_init():
    limit_memory()
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def patient(it):
    """The results of a pool; a worker that died (its result never comes) is a violation."""
    while True:
        try:
            r = it.next(timeout=400)
        except StopIteration:
            return
        except mp.TimeoutError:
            r = [], (None, "a process running the code under test died or never answers"), ({}, {}, []), False
        except Exception:
            r = [], (None, "the exploration itself failed on the code under test\n" + traceback.format_exc(limit=-8)), ({}, {}, []), False
        yield r
        if r[1]:
            return


def run_bfs(h, tier, deadline, nproc):
    """Returns (stats, violation or None)."""
    global _BFS
    ops = h.alphabet(tier)
    depth = h.depth_for(tier)
    ctx = Ctx()
    try:
        s0 = h.make()
        s0.observe()
        k0 = digest(s0.key())
    except Exception as e:
        msg = str(e) if isinstance(e, Violation) else "unexpected exception\n" + traceback.format_exc(limit=-6)
        return dict(states=1, transitions=0, traces=0, depth=0, closed=False), ctx, ([], msg)
    _BFS = (h, ops, deadline, os.getpid())
    seen = {k0}
    frontier = [()]
    transitions = traces = 0
    level = 0
    capped = False
    closed = False
    sizes = [1]
    pool = mp.Pool(nproc, initializer=_pool_init) if nproc > 1 else None
    try:
        while frontier and level < depth and not capped:
            n = max(1, min(200, len(frontier) // (nproc * 4) + 1))
            chunks = [list(enumerate(frontier[a:a + n], a)) for a in range(0, len(frontier), n)]
            nxt = []
            results = patient(pool.imap(_bfs_chunk, chunks)) if pool else map(_bfs_chunk, chunks)
            viol = None
            for out, bad, exported, late in results:
                c, o, _ = exported
                transitions += c.get("transitions", 0)
                traces += c.get("traces", 0)
                ctx.outcomes.update(o)
                for k, idx, i in out:
                    if k not in seen:
                        seen.add(k)
                        nxt.append(frontier[idx] + (i,))
                if late:
                    capped = True
                if bad:
                    viol = bad
                    break
                if h.cap and len(seen) > h.cap:
                    capped = True
                    break
            if viol:
                return dict(states=len(seen), transitions=transitions, traces=traces, depth=level,
                            closed=False), ctx, viol
            frontier = nxt
            level += 1
            sizes.append(len(nxt))
        closed = not frontier
        if frontier:
            ctx.sample([ops[i] for i in frontier[-1]])
    finally:
        if pool:
            pool.terminate()
            pool.join()
    return dict(states=len(seen), transitions=transitions, traces=traces, depth=level, closed=closed,
                capped=capped, new_states_per_level=sizes, operations=len(ops)), ctx, None


# --------------------------------------------------------------------------- enumeration

def _enum_worker(h, tier, k, n, deadline, conn, block):
    ctx = Ctx()
    bad = None
    done = 0
    late = False
    limit_memory()
    try:
        for i, item in enumerate(h.items(tier)):
            if (i // block) % n != k:
                continue
            if (done & 15) == 0 and time.time() > deadline:
                late = True
                break
            msg = run_item(h, item, ctx)
            done += 1
            if msg is not None:
                bad = (item, msg, i)
                break
            if len(ctx.samples) < 1:
                ctx.sample(item)
        conn.send(("ok", done, ctx.export(), bad, late))
    except BaseException:
        conn.send(("err", "the exploration itself failed on the code under test\n" + traceback.format_exc(limit=-8)))
    conn.close()


def run_enum(h, tier, deadline, nproc):
    ctxs = Ctx()
    procs = []
    block = getattr(h, "block", 1)
    for k in range(nproc):
        a, b = mp.Pipe(False)
        p = mp.Process(target=_enum_worker, args=(h, tier, k, nproc, deadline, b, block))
        p.start()
        b.close()
        procs.append((p, a, k))
    done = 0
    late = False
    viol = None
    pending = list(procs)
    try:
        while pending and not viol:
            ready = mp.connection.wait([a for _, a, _ in pending])
            for p, a, k in list(pending):
                if a in ready:
                    pending.remove((p, a, k))
                    try:
                        r = a.recv()
                    except EOFError:
                        r = ("err", "the process running the code under test died (crash or memory limit)")
                    if r[0] == "err":
                        viol = (None, r[1], None, k)
                        continue
                    _, dn, (c, o, smp), bad, lt = r
                    done += dn
                    late |= lt
                    ctxs.c.update(c)
                    ctxs.outcomes.update(o)
                    if len(ctxs.samples) < 3:
                        ctxs.samples += smp[:1]
                    if bad and not viol:
                        viol = bad + (k,)
    finally:
        for p, a, k in procs:
            if p.is_alive():
                p.terminate()
            p.join()
    return done, late, ctxs, viol


# --------------------------------------------------------------------------- running a check

def load_known(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property={0} ".format(prop)):
                res.append(line.split(" ", 2)[2])
    return res


def brief(x, n=600):
    s = json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + "..."


def run_check(prop, harnesses, tier, seed, assumptions, rule, nproc=None, budget_s=None, only=None):
    t0 = time.time()
    nproc = nproc or int(os.environ.get("MC_PROCS", 0)) or min(8, os.cpu_count() or 1)
    budget = budget_s or float(os.environ.get("MC_BUDGET", 0)) or (700.0 if tier == "quick" else 3.0 * 3600)
    deadline = t0 + budget
    known = load_known(prop)
    total = collections.Counter()
    details, samples, outcomes = [], [], {}
    exhaustive = True
    violation = None
    for h in harnesses:
        if only and h.name not in only:
            continue
        ht = time.time()
        if isinstance(h, BFS):
            # should a change of the code add hidden state without end, the search must still end in time
            st, ctx, bad = run_bfs(h, tier, min(deadline, ht + BFS_QUICK_S) if tier == "quick" else deadline, nproc)
            info = {"harness": h.name, "kind": "explicit-state BFS over the real object", "bound": h.bound}
            info.update(st)
            exhaustive &= not st.get("capped")
            if bad:
                violation = (h, bad[0], bad[1], None)
        else:
            done, late, ctx, bad = run_enum(h, tier, deadline, nproc)
            st = {"states": ctx.c["states"] or done, "transitions": ctx.c["transitions"], "traces": ctx.c["traces"] or done}
            info = {"harness": h.name, "kind": "complete enumeration", "bound": h.bound, "items": done,
                    "states": st["states"], "transitions": st["transitions"], "traces": st["traces"], "capped": late}
            exhaustive &= not late
            if bad:
                item, msg, idx, shard = bad
                violation = (h, item, msg, {"index": idx, "shard": shard, "nproc": nproc, "tier": tier})
        info["wall_s"] = round(time.time() - ht, 2)
        info["outcomes"] = dict(sorted(ctx.outcomes.items())[:40])
        for k in ("states", "transitions", "traces"):
            total[k] += st.get(k, 0)
        outcomes[h.name] = len(ctx.outcomes)
        details.append(info)
        if ctx.samples:
            samples.append({"harness": h.name, "cases": ctx.samples[:2]})
        print("{0} {1:<28} states={2} transitions={3} traces={4} {5:.1f}s{6}".format(
            prop, h.name, st.get("states", 0), st.get("transitions", 0), st.get("traces", 0), info["wall_s"],
            " (time bound reached)" if info.get("capped") else ""), flush=True)
        if violation:
            break
    code = 0
    if violation:
        h, item, msg, where = violation
        path = write_replay(prop, h, item, msg, where)
        how = confirm(path, item)
        print("{0}: {1}: {2}".format(prop, h.name, msg))
        print("  case: " + brief(item))
        print("  " + how)
        if any(k and k in msg for k in known):
            print("KNOWN-FINDING: property={0} {1}".format(prop, [k for k in known if k in msg][0]))
        else:
            print("VIOLATION property={0} replay={1}".format(prop, path), flush=True)
            code = 1
    if not samples:
        samples = [{"harness": details[0]["harness"] if details else "?", "cases": []}]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": int(total["states"]), "transitions": int(total["transitions"]),
                       "traces_validated_against_impl": int(total["traces"]),
                       "samples": json.loads(json.dumps(samples, default=str)),
                       "rule": rule, "exhaustive": bool(exhaustive and not violation),
                       "explanation": "states: distinct model states or inputs; transitions: operations executed on the "
                                      "real code and compared with the reference model; traces: complete executions "
                                      "(histories or cases) of the real code",
                       "harnesses": details},
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": code}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("{0} {1}: {2} states, {3} transitions, {4} traces, exhaustive={5}, {6:.1f}s".format(
        prop, "VIOLATED" if code else "held", total["states"], total["transitions"], total["traces"],
        ev["coverage"]["exhaustive"], time.time() - t0), flush=True)
    return code


def write_replay(prop, h, item, msg, where):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "{0}-{1}.json".format(prop, h.name))
    with open(path, "w") as f:
        json.dump({"property": prop, "harness": h.name, "item": item, "message": msg, "enumeration": where}, f, indent=1)
    return path


def confirm(path, item):
    """Re-execute the counterexample in a fresh process."""
    if item is None:
        return "no single case: the enumeration as a whole fails"
    try:
        r = subprocess.run([sys.executable, os.path.join(HERE, "replay.py"), path], capture_output=True,
                           text=True, timeout=240)
    except subprocess.TimeoutExpired:
        return "replay in a fresh process: does not terminate"
    if r.returncode == 1:
        return "replay in a fresh process: same failure"
    return "replay in a fresh process: the single case passes there; it fails after the cases before it in the " \
           "enumeration (replay.py --prefix repeats those), so calls influence later calls"

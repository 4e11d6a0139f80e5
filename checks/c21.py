"""C21: batch runs measure each selected sample once, also across restarts."""
import contextlib
import io
import os
import shutil
import sys
import tempfile

import numpy as np
import pandas as pd

from vf import sym
from vf.runner import scenario
from vf import batch

TITLE = "batch runs"
ASSUMPTIONS = [
    "measure_eccentricity is a stand-in: an arbitrary value per sample, or an "
    "error, as the solver chooses",
    "MPI is a stand-in: messages arrive in the order sent between two ranks, "
    "workers finish in any order",
    "a file write is interrupted before, in the middle of, or after it; in the "
    "symbolic run files hold a reference to the table written",
    "an interruption ends the whole run"]
cli, core = batch.cli, batch.core


class Crash(BaseException):
    pass


class Idle(BaseException):
    pass


class Hang(Exception):
    pass


class Disk:
    """Real files in a scratch directory standing for the tables."""

    def __init__(self, world):
        self.world, self.tables, self.reads = world, [], []
        self.root = None

    def write(self, df, path, *a, **k):
        self.world.event()
        with open(path, "w") as f:
            f.write("half a tab")
        self.world.event()
        self.tables.append(df.copy())
        with open(path, "w") as f:
            f.write(f"table {len(self.tables) - 1}")
        self.world.event()

    def read(self, path, *a, **k):
        with open(path) as f:
            text = f.read()
        if not text.startswith("table "):
            raise OSError(f"{path} is not a complete file")
        return self.tables[int(text.split()[1])].copy()


class World:
    """The run: samples, scheduler, interruption."""

    def __init__(self, ctx, values, fails, crash_at=0):
        self.ctx, self.values, self.fails = ctx, values, fails
        self.crash_at, self.events = crash_at, 0
        self.measured = []
        self.queue, self.role, self.reply, self.picks = {}, 0, [], 0
        self.stopped = set()

    def event(self):
        self.events += 1
        if self.crash_at and self.events == self.crash_at:
            self.crash_at = 0
            raise Crash()

    # ---- measurement
    def measure(self, dataDict, tref_in=None, fref_in=None, method=None,
                **kw):
        self.event()
        p = dataDict["params"]
        i = p["who"]
        self.measured.append((i, dataDict["extra"], tref_in, fref_in, method,
                              kw))
        if self.fails[i]:
            raise RuntimeError(f"no luck with {i}")
        return {"eccentricity": p["a"], "mean_anomaly": p["a"] + 1,
                "gwecc_object": None}

    # ---- MPI
    def send(self, msg, dest):
        if self.role:
            self.reply.append(msg)
        else:
            self.queue.setdefault(dest, []).append(msg)

    def recv(self, source):
        if self.role:
            q = self.queue.get(self.role, [])
            if not q:
                raise Idle()
            return q.pop(0)
        self.event()
        busy = [w for w in sorted(self.queue)
                if any(not isinstance(m, str) for m in self.queue[w])]
        if not busy:
            raise Hang("rank 0 waits although no worker has work")
        k = int(self.ctx.int(f"pick{self.picks}", 0, len(busy) - 1))
        self.picks += 1
        self.work(busy[k])
        return self.reply.pop(0)

    def work(self, w):
        self.role = w
        try:
            with batch.attr(cli, rank=w):
                cli.worker(self.config)
            self.stopped.add(w)
        except Idle:
            pass
        finally:
            self.role = 0


def generator(params, extra):
    return {"params": params, "extra": extra}


def config(root, samples, save_every, batch_size, fmt):
    return {"posterior_type": "bilby", "posterior_path": "x",
            "parameter_columns": None, "output_dir": root,
            "output_format": fmt, "save_every": save_every,
            "samples": samples, "fref": 20.0, "tref": None,
            "method": "Frequency", "batch_size": batch_size,
            "data_dict_generator": generator,
            "data_dict_generator_extra_kwargs": {"x": 1},
            "gw_eccentricity_kwargs": {"y": 2}}


INDEX = [4, 9, 2, 7]


def table(ctx, n):
    vals = [ctx.real(f"a{i}", 0, 1) for i in range(n)]
    if ctx.symbolic:
        col = np.empty(n, dtype=object)
        col[:] = vals
    else:
        col = np.array(vals)
    return vals, pd.DataFrame({"a": col, "who": INDEX[:n]}, index=INDEX[:n])


@contextlib.contextmanager
def environment(world, disk, workers):
    frame = pd.DataFrame
    names = dict(to_parquet=lambda df, path, *a, **k: disk.write(df, path),
                 to_csv=lambda df, path, *a, **k: disk.write(df, path),
                 to_json=lambda df, path, *a, **k: disk.write(df, path))
    batch.COMM.impl = world
    with batch.attr(frame, **names), \
            batch.attr(pd, read_parquet=disk.read), \
            batch.attr(core, measure_eccentricity=world.measure), \
            batch.attr(cli, size=1 + workers, rank=0):
        yield
    batch.COMM.impl = None


def run(world, disk, posterior, cfg, workers):
    """One run of the command; the exception it ended with, if any."""
    world.config = cfg
    with environment(world, disk, workers):
        try:
            cli.master(posterior, cfg)
        except Crash:
            return "crash"
        except sym.Unsupported:
            raise
        except Hang as e:
            return e
        # every worker has been told to stop
        for w in range(1, workers + 1):
            if w not in world.stopped:
                world.work(w)
    return None


def final(disk, cfg):
    path = f"{cfg['output_dir']}/eccentricity_results.{cfg['output_format']}"
    return disk.read(path)


def missing(x):
    return x is None or (isinstance(x, float) and np.isnan(x))


def check_table(ctx, df, want, vals, fails):
    ctx.check(list(df["sample_index"].astype(int)) == want,
              "one row per selected sample, in order")
    if len(df) != len(want):
        return
    for k, row in zip(want, df.to_dict(orient="records")):
        i = INDEX.index(k)
        ctx.check(row["who"] == k and ctx.eq(row["a"], vals[i]),
                  "parameters of the sample")
        if fails[k]:
            ctx.check(row["status"] == "fail", "failure recorded")
            ctx.check(missing(row["egw"]) and missing(row["lgw"]),
                      "no value for a failed sample")
            ctx.check(f"no luck with {k}" in str(row["error_message"]),
                      "reason of the failure")
        else:
            ctx.check(row["status"] == "success", "success recorded")
            ctx.check(ctx.eq(row["egw"], vals[i]), "eccentricity of it")
            ctx.check(ctx.eq(row["lgw"], vals[i] + 1), "anomaly of it")
            ctx.check(missing(row["error_message"]), "no error text")


def settings_ok(ctx, world):
    for k, extra, tref, fref, method, kw in world.measured:
        ctx.check(extra == {"x": 1} and tref is None and fref == 20.0
                  and method == "Frequency" and kw == {"y": 2},
                  "settings reach the measurement")


CASES = [dict(n=n, workers=w, size=b, save=s)
         for n, w, b, s in ((3, 0, 1, None), (3, 0, 2, 1), (3, 0, 1, 2),
                            (3, 1, 2, 1), (3, 2, 1, None), (3, 2, 2, 1),
                            (3, 3, 1, 2), (2, 3, 1, 1), (3, 2, 100, 2))]
DEEP = [dict(n=n, workers=w, size=b, save=s)
        for n in (2, 3, 4) for w in (0, 1, 2, 3) for b in (1, 2, 3, 100)
        for s in (None, 1, 2, 3) if w or b == 1]


@scenario(reach=["finished", "some failed"], quick=CASES, thorough=DEEP)
def once(ctx, n, workers, size, save):
    """A run that is not interrupted."""
    vals, posterior = table(ctx, n)
    fails = {k: ctx.flag(f"fail{k}") for k in INDEX[:n]}
    want = ctx.choice("samples", (None, (9, 4), INDEX[:n][::-1]))
    want = None if want is None else list(want)
    world = World(ctx, vals, fails)
    disk = Disk(world)
    root = tempfile.mkdtemp(prefix="c21_")
    try:
        cfg = config(os.path.join(root, "out"), want, save, size,
                     ctx.choice("format", ("csv", "json", "parquet"))
                     if workers == 0 else "csv")
        end = run(world, disk, posterior, cfg, workers)
        ctx.check(end is None, "the run ends")
        if end is not None:
            return
        chosen = INDEX[:n] if want is None else want
        ctx.check(sorted(m[0] for m in world.measured) == sorted(chosen),
                  "each selected sample measured once")
        settings_ok(ctx, world)
        check_table(ctx, final(disk, cfg), chosen, vals, fails)
        ctx.check(world.stopped == set(range(1, workers + 1)),
                  "all workers stop")
        if save:
            saved = disk.read(cfg["output_dir"] + "/checkpoint.parquet")
            ctx.check(sorted(saved["sample_index"]) == sorted(chosen),
                      "everything is saved in the end")
    finally:
        shutil.rmtree(root)
    ctx.reach("finished")
    if any(fails.values()):
        ctx.reach("some failed")


@scenario(reach=["restarted", "not interrupted", "nothing lost"],
          quick=[c for c in CASES if c["save"] and
                 (c["n"], c["workers"]) != (3, 3)] + [CASES[0]],
          thorough=DEEP)
def restart(ctx, n, workers, size, save):
    """Interrupted anywhere, then started again."""
    vals, posterior = table(ctx, n)
    k = int(ctx.int("failing", -1, n - 1))
    fails = {s: i == k for i, s in enumerate(INDEX[:n])}
    crash = ctx.int("crash at", 0, 40)
    # the second run may select other samples
    sel = ctx.choice("samples", ((None, None), ([9, 4], None)))
    world = World(ctx, vals, fails, int(crash) if workers == 0 else 0)
    if workers:
        world.crash_at = int(crash)
    disk = Disk(world)
    root = tempfile.mkdtemp(prefix="c21_")
    try:
        cfg = config(os.path.join(root, "out"), sel[0], save, size, "csv")
        end = run(world, disk, posterior, cfg, workers)
        ctx.check(end in (None, "crash"), "the first run ends or is ended")
        ctx.assume(int(crash) == 0 or end == "crash")
        first = [m[0] for m in world.measured]
        ctx.check(len(first) == len(set(first)), "none measured twice")
        path = cfg["output_dir"] + "/checkpoint.parquet"
        again = World(ctx, vals, fails)
        again.picks = 100
        disk.world = again
        cfg = config(os.path.join(root, "out"), sel[1], save, size, "csv")
        saved = []
        if os.path.exists(path):
            try:
                saved = list(disk.read(path)["sample_index"])
            except OSError:
                saved = None
        ctx.check(saved is not None, "the checkpoint is never left broken")
        if saved is None:
            return
        end = run(again, disk, posterior, cfg, workers)
        ctx.check(end is None, "the second run ends")
        if end is not None:
            return
        second = [m[0] for m in again.measured]
        ctx.check(sorted(second) == sorted(set(INDEX[:n]) - set(saved)),
                  "measures exactly what was not saved")
        check_table(ctx, final(disk, cfg), INDEX[:n], vals, fails)
        ctx.check(again.stopped == set(range(1, workers + 1)),
                  "all workers stop")
        if save:
            lost = set(first) & set(second)
            # at most what came in since the last save, and what the workers
            # had not reported
            ctx.check(len(lost) <= save + workers * size,
                      "little is lost")
            if not lost:
                ctx.reach("nothing lost")
        else:
            ctx.reach("nothing lost")
    finally:
        shutil.rmtree(root)
    ctx.reach("restarted" if int(crash) else "not interrupted")


@scenario(reach=["replayed"])
def replay(ctx):
    """A checkpoint on disk is used as it is; a useless one is not."""
    n = 3
    vals, posterior = table(ctx, n)
    e = ctx.real("saved", 2, 3)
    kind = ctx.choice("kind", ("good", "other rows too", "no status", "empty"))
    which = ctx.choice("which", (4, 9, 2))
    failed = ctx.flag("failed")
    rows = [{"sample_index": which, "status": "fail" if failed else "success",
             "egw": None if failed else e, "lgw": None if failed else e + 1,
             "error_message": f"no luck with {which}" if failed else None}]
    if kind == "other rows too":
        rows.append({"sample_index": 77, "status": "success", "egw": e,
                     "lgw": e, "error_message": None})
    df = pd.DataFrame(rows)
    if kind == "no status":
        df = df.drop(columns=["status"])
    if kind == "empty":
        df = df.iloc[:0]
    fails = {k: False for k in INDEX}
    world = World(ctx, vals, fails)
    disk = Disk(world)
    root = tempfile.mkdtemp(prefix="c21_")
    try:
        cfg = config(root, None, ctx.choice("save", (None, 2)), 1, "csv")
        disk.write(df, root + "/checkpoint.parquet")
        end = run(world, disk, posterior, cfg, ctx.choice("workers", (0, 2)))
        ctx.check(end is None, "the run ends")
        out = final(disk, cfg)
    finally:
        shutil.rmtree(root)
    used = kind in ("good", "other rows too")
    ctx.check(sorted(m[0] for m in world.measured) ==
              sorted(set(INDEX[:n]) - ({which} if used else set())),
              "measures exactly what was not saved")
    ctx.check(list(out["sample_index"]) == INDEX[:n], "the selected rows")
    for k, row in zip(INDEX, out.to_dict(orient="records")):
        if used and k == which:
            if failed:
                ctx.check(row["status"] == "fail" and missing(row["egw"]),
                          "saved failure")
            else:
                ctx.check(row["status"] == "success"
                          and ctx.eq(row["egw"], e)
                          and ctx.eq(row["lgw"], e + 1), "saved result")
        else:
            ctx.check(row["status"] == "success" and
                      ctx.eq(row["egw"], vals[INDEX.index(k)]), "new result")
    ctx.reach("replayed")


@scenario(reach=["summary", "no success", "bounds"])
def summary(ctx):
    """What the result containers report."""
    n = int(ctx.int("n", 0, 4))
    ok = [ctx.flag(f"ok{i}") for i in range(n)]
    e = [ctx.real(f"e{i}", 0, 1) for i in range(n)]
    f = [ctx.real(f"f{i}", 0, 1) for i in range(n)]
    good = [i for i in range(n) if ok[i]]
    pct = 100 * len(good) / n if n else 0
    if ctx.flag("bounds"):
        rows = core.FrefBoundsResults([
            core.FrefBoundsResult(i, "success" if ok[i] else "fail",
                                  e[i] if ok[i] else None,
                                  f[i] if ok[i] else None) for i in range(n)])
        s = rows.get_summary()
        a, b = s["fref_min"], s["fref_max"]
        if not good:
            ctx.check(ctx.raises(rows.get_minmax_fref) is not None,
                      "no common range without a success")
            ctx.reach("no success")
        else:
            lo, hi = rows.get_minmax_fref()
            ctx.check(ctx.all([lo >= e[i] for i in good] +
                              [ctx.any([ctx.eq(lo, e[i]) for i in good])]),
                      "common range: lower end")
            ctx.check(ctx.all([hi <= f[i] for i in good] +
                              [ctx.any([ctx.eq(hi, f[i]) for i in good])]),
                      "common range: upper end")
            ctx.reach("bounds")
    else:
        rows = core.PostProcessResults([
            core.PostProcessResult(i, "success" if ok[i] else "fail",
                                   e[i] if ok[i] else None,
                                   f[i] if ok[i] else None)
            for i in range(n)])
        s = rows.get_summary()
        a, b = s["egw"], s["lgw"]
        ctx.reach("summary")
    ctx.check(s["total_samples"] == n, "number of samples")
    ctx.check(abs(s["success_percentage"] - pct) < 1e-9, "percentage")
    ctx.check(len(a) == len(b) == len(good), "only the successes")
    ctx.check(ctx.all([ctx.eq(x, e[i]) for x, i in zip(a, good)]
                      + [ctx.eq(x, f[i]) for x, i in zip(b, good)]),
              "values of the successes, in order")


@scenario(reach=["measured", "failed", "refused"])
def sample(ctx):
    """postprocess_sample and get_fref_bounds_for_sample."""
    a = ctx.real("a", 0, 1)
    tref = ctx.real("tref", -10, 0) if ctx.flag("has tref") else None
    fref = ctx.real("fref", 1, 9) if ctx.flag("has fref") else None
    how = ctx.choice("how", ("fine", "generator fails", "measure fails",
                             "not a dict"))
    what = ctx.choice("what", ("egw", "bounds"))
    seen = []
    t = np.array([0.0, 1.0])

    def gen(params, extra):
        seen.append((params, extra))
        if how == "generator fails":
            raise ValueError("bad luck")
        return {"t": t, "p": params} if how != "not a dict" else [1]

    class Obj:
        def get_fref_bounds(self):
            return [a, a + 1]

    def measure(dataDict=None, tref_in=None, fref_in=None, method=None,
                **kw):
        seen.append((dataDict, tref_in, fref_in, method, kw))
        if how == "measure fails":
            raise ValueError("bad luck")
        return {"eccentricity": a, "mean_anomaly": a + 1,
                "gwecc_object": Obj()}
    extra = ctx.choice("extra", (None, {"x": 1}))
    kw = ctx.choice("kw", (None, {"y": 2}))
    with batch.attr(core, measure_eccentricity=measure):
        if what == "bounds":
            out = core.get_fref_bounds_for_sample(
                8, {"z": 1}, gen, extra, "Frequency", kw)
            res = (out.fref_min, out.fref_max)
        else:
            def go():
                return core.postprocess_sample(
                    8, {"z": 1}, tref, fref, gen, extra, "Frequency", kw)
            if (tref is None) == (fref is None):
                ctx.check(ctx.raises(go) is not None,
                          "exactly one kind of reference point")
                ctx.check(not seen, "nothing measured")
                ctx.reach("refused")
                return
            out = go()
            res = (out.egw, out.lgw)
    ctx.check(out.sample_index == 8, "index of the sample")
    ctx.check(seen[0] == ({"z": 1}, extra or {}), "what the generator gets")
    if how == "fine":
        ctx.check(out.status == "success" and ctx.eq(res[0], a)
                  and ctx.eq(res[1], a + 1), "result")
        ctx.check(out.error_message is None, "no error")
        d, tr, fr, method, k = seen[1]
        ctx.check(d["p"] == {"z": 1} and method == "Frequency"
                  and k == (kw or {}), "settings")
        if what == "egw":
            ctx.check(tr is tref and fr is fref, "reference point")
        else:
            ctx.check(tr is t and fr is None, "the whole waveform")
        ctx.reach("measured")
    else:
        ctx.check(out.status == "fail" and res == (None, None),
                  "a failure has no result")
        ctx.check(bool(out.error_message) and
                  (how == "not a dict" or "bad luck" in out.error_message),
                  "the reason is recorded")
        ctx.reach("failed")


@scenario(reach=["configured", "refused", "run"])
def command(ctx):
    """The command line."""
    ref = ctx.choice("ref", ("fref", "tref", "both", "neither"))
    save = ctx.choice("save", (None, "2", "none"))
    batch_size = ctx.choice("batch", (None, "3"))
    samples = ctx.choice("samples", (None, "1:3", "all"))
    cols = ctx.choice("columns", (None, "a, who"))
    root = tempfile.mkdtemp(prefix="c21_")
    try:
        gen = os.path.join(root, "gen.py")
        with open(gen, "w") as f:
            f.write("def make(params, extra):\n"
                    "    return {'params': params, 'extra': extra}\n")
        argv = ["cli", "--posterior-path", "p.json", "--output-dir",
                root + "/out", "--data-dict-generator", gen + ":make",
                "--data-dict-generator-extra-kwargs", '{"x": 1}',
                "--gw-eccentricity-kwargs", '{"y": 2}', "--method",
                "Frequency"]
        if ref in ("fref", "both"):
            argv += ["--fref", "20.0"]
        if ref in ("tref", "both"):
            argv += ["--tref", "-5.5"]
        for name, v in (("save-every", save), ("batch-size", batch_size),
                        ("samples", samples), ("parameter-columns", cols)):
            if v is not None:
                argv += ["--" + name, v]
        with batch.attr(sys, argv=argv):
            try:
                with contextlib.redirect_stderr(io.StringIO()):
                    cfg = cli.build_config_from_cli()
                ended = False
            except SystemExit:
                ended = True
            if ref in ("both", "neither"):
                ctx.check(ended, "exactly one kind of reference point")
                ctx.reach("refused")
                return
            ctx.check(not ended, "accepted")
            ctx.check(cfg["fref"] == (20.0 if ref == "fref" else None)
                      and cfg["tref"] == (-5.5 if ref == "tref" else None),
                      "reference point")
            ctx.check(cfg["save_every"] == (2 if save == "2" else None),
                      "save interval")
            ctx.check(cfg["batch_size"] == (3 if batch_size else 100),
                      "batch size")
            ctx.check(cfg["samples"] == ([1, 2] if samples == "1:3"
                                         else None), "samples")
            ctx.check(cfg["parameter_columns"] ==
                      (["a", "who"] if cols else None), "columns")
            ctx.check(cfg["method"] == "Frequency"
                      and cfg["data_dict_generator_extra_kwargs"] == {"x": 1}
                      and cfg["gw_eccentricity_kwargs"] == {"y": 2}
                      and cfg["output_dir"] == root + "/out", "settings")
            ctx.check(cfg["data_dict_generator"]({"q": 1}, 5) ==
                      {"params": {"q": 1}, "extra": 5}, "generator")
            ctx.reach("configured")
            if batch_size or save == "none":
                return
            # and the whole command
            vals = [ctx.real(f"a{i}", 0, 1) for i in range(4)]
            col = np.empty(4, dtype=object)
            col[:] = vals
            post = pd.DataFrame({"a": col, "who": [0, 1, 2, 3],
                                 "extra": 0.0})
            batch.READ["posterior"] = post
            fails = {k: False for k in range(4)}
            world = World(ctx, vals, fails)
            disk = Disk(world)
            with environment(world, disk, 0), silence():
                cli.main()
            cfg["output_format"] = "csv"
            out = final(disk, cfg)
        want = [1, 2] if samples == "1:3" else [0, 1, 2, 3]
        ctx.check(list(out["sample_index"]) == want, "selected samples")
        for k, row in zip(want, out.to_dict(orient="records")):
            ctx.check(ctx.eq(row["egw"], vals[k])
                      and ctx.eq(row["a"], vals[k]), "results")
        for m in world.measured:
            ctx.check(m[2] == cfg["tref"] and m[3] == cfg["fref"]
                      and m[4] == "Frequency", "settings used")
        ctx.reach("run")
    finally:
        shutil.rmtree(root)


@contextlib.contextmanager
def silence():
    import logging
    logging.disable(logging.CRITICAL)
    try:
        yield
    finally:
        logging.disable(logging.NOTSET)

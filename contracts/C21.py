"""C21: the logged tables hold the unscaled variables, model outputs, constraints and the physical mesh."""
import types

from contracts.ocp import *
from lumver.seq import SList, val_eq

assume_note("pandas, os, glob and pyarrow are taken by contract: a data frame holds its columns under the given names, "
            "concat along axis 1 puts tables side by side, to_csv writes the table to the path.")
assume_note("The values of the constraint components and of the model are opaque here (C02, C05, C09, C10, C13).")
assume_note("The normalized mesh is opaque here (C07).")
assume_note("Condensed problem: its constraint component is taken by contract (C10): continuity rows interval-wise, "
            "then the remaining rows stage by stage.")


class Frame:
    """Contract of a pandas table: blocks of columns with names."""

    def __init__(self, data=None, columns=None):
        self.blocks, self.own = [], []
        if data is not None:
            n = as_seq(columns).length()
            CTX.require_eq("a table has one name per column", data.spaces[1].size(), n)
            self.blocks.append((as_seq(columns), data))

    def __setitem__(self, name, v):
        self.own.append((name, v))

    def to_csv(self, path, index=True):
        PD.written.append((path, self, index))

    def column(self, name, s):
        """Row s of the column with this name."""
        for n, v in self.own:
            c = val_eq(n, name)
            if c is True or (c is not False and bool(c)):
                return lift(elem(v, s)) if isinstance(v, T) else lift(v)
        for names_, data in self.blocks:
            i = names_.find(name)
            if i is not None:
                return lift(elem(data, s, i))
        return None


class PD:
    """Contract of the pandas module."""
    written = []
    DataFrame = Frame

    @staticmethod
    def concat(dfs, axis=0):
        if axis != 1:
            raise Unsupported("concat along axis 0")
        f = Frame()
        for d in dfs:
            f.blocks += d.blocks
            f.own += d.own
        return f


def recorded(name, n, log):
    def f(x, *a):
        log[name] = x
        return vec("CON_" + name, n)
    return f


def logged(cyclic=False, condensed=False):
    """A problem with opaque scales and component values, its table for the scaled vector x."""
    fixed = CTX.choose(2) == 1
    w = world(fixed, [2, "M"][CTX.choose(2)], cyclic=cyclic, orders=CTX.choose(2) == 1)
    ocp = w.ocp
    ocp._dec_var_scales = vec("d", w.num)
    ocp.__class__ = type(type(ocp).__name__, (type(ocp),), dict(_flat_normalized_mesh=vec("mesh0", w.S)))
    if condensed:
        # the state of a condensed problem (C10)
        ocp.is_condensed = True
        c = types.SimpleNamespace(num_con=(w.S - 1) * w.n["states"] + w.S * (w.m - w.n["states"]))
        ocp._constraints.pop("continuity")
        ocp._constraints["model_algebra"] = c
    w.log = {}
    for n, c in ocp._constraints.items():
        c.constraints = recorded(n, c.num_con, w.log)

    def forward(*a):
        w.forward = a
        return types.SimpleNamespace(outputs=arr("OUT", w.S, w.n["outputs"]))
    w.model.batched_forward = forward
    PD.written = []
    keep = smo.pd
    smo.pd = PD
    try:
        ocp._create_result_df(vec("x", w.num), file_path="the path", iter_num=sym("it", "int"))
    finally:
        smo.pd = keep
    CTX.require("one table is written to the path, without an index",
                len(PD.written) == 1 and PD.written[0][0] == "the path" and PD.written[0][2] is False)
    w.t = PD.written[0][1]
    return w


def U(w, i):
    """Unscaled decision variable."""
    return read("x", [i]) * read("d", [i])


def column(w, what, name, s, v):
    got = w.t.column(name, s)
    if got is None:
        if CTX.infeasible():        # the list of names is empty on this path
            raise Infeasible()
        CTX.fail(what, f"no column {name}")
    else:
        CTX.require_eq(what, got, v)


def one(w, g):
    k = idx("k_" + g, w.n[g])
    return k, w.model.names._asdict()[g].get(k)


def mesh_at(w, s):
    """Physical mesh of stage s: the normalized mesh (C07) times the unscaled scale."""
    return read("mesh0", [s]) * (w.scale if w.fixed else U(w, w.num - 1))


def common(w):
    s = idx("s", w.S)
    c = CTX.choose(3)
    if c == 0:
        g = w.model.implicit_inputs[CTX.choose(4)]
        k, n = one(w, g)
        column(w, f"variables {g}", g + "." + n, s, U(w, s * w.V + w.off[g] + k))
    elif c == 1:
        k, n = one(w, "outputs")
        column(w, "outputs", "outputs." + n, s, read("OUT", [s, k]))
        st, inp, mesh, par = w.forward
        for g, t in (("states", st), ("inputs", inp)):
            shape_is(g + " of the model call", t, w.S, w.n[g])
            if w.n[g].is_const() and w.n[g].const() == 0 or not CTX.prove(ge0(w.n[g] - 1)):
                continue
            j = idx("j_" + g, w.n[g])
            CTX.require_eq(g + " of the model call", lift(elem(t, s, j)), U(w, s * w.V + w.off[g] + j))
        CTX.require_eq("mesh of the model call", lift(elem(mesh, s)), mesh_at(w, s))
        CTX.require("parameters of the model call", par is w.ocp._params)
    else:
        column(w, "mesh", "mesh", s, mesh_at(w, s))
        column(w, "iteration", "iter", s, sym("it", "int"))
        for n, x in w.log.items():
            i = idx("xi", w.num)
            CTX.require_eq("point of the constraints", lift(elem(x, i)), read("x", [i]))


@goal("variables, outputs, mesh and iteration number of every stage, unscaled", timeout=600)
def plain():
    common(logged())


@goal("condensed problem: variables, outputs, mesh and iteration number", timeout=600)
def plain_condensed():
    common(logged(condensed=True))


def continuity(w, con):
    k, n = one(w, "states")
    s = idx("s", w.S)
    if bool(eq(s, const(0))):
        column(w, "first row", "interval_con." + n, s, const(0))
    else:
        column(w, "continuity", "interval_con." + n, s, read("CON_" + con, [(s - 1) * w.n["states"] + k]))


@goal("constraints: continuity from the second row, equations and residuals at their stage", timeout=600)
def constraint_columns():
    w = logged()
    if CTX.choose(2):
        return continuity(w, "continuity")
    c = CTX.choose(3)
    g = ("states_dot", "con_outputs", "residuals")[c]
    o = [const(0), w.n["states"], w.n["states"] + w.n["con_outputs"]][c]
    k, n = one(w, g)
    s = idx("s", w.S)
    column(w, g, "stage_con." + n, s, read("CON_model_algebra", [s * w.m + o + k]))


@goal("condensed problem: constraint columns", timeout=600)
def condensed_columns():
    w = logged(condensed=True)
    if CTX.choose(2):
        return continuity(w, "model_algebra")
    g = ("con_outputs", "residuals")[CTX.choose(2)]
    k, n = one(w, g)
    s = idx("s", w.S)
    o = const(0) if g == "con_outputs" else w.n["con_outputs"]
    m = w.n["con_outputs"] + w.n["residuals"]
    column(w, g, "stage_con." + n, s, read("CON_model_algebra", [(w.S - 1) * w.n["states"] + s * m + o + k]))


@goal("cyclic problem: the cyclic constraint in the last row, zero elsewhere", timeout=600)
def cyclic_columns():
    w = logged(cyclic=True)
    g = ("states", "inputs")[CTX.choose(2)]
    k, n = one(w, g)
    s = idx("s", w.S)
    o = const(0) if g == "states" else w.n["states"]
    last = bool(eq(s, w.S - 1))
    column(w, "cyclic", "cyclic_con." + (g + "." + n), s, read("CON_cyclic", [o + k]) if last else const(0))



# ------------------------------------------------------------------------- histories
assume_note("The history of a solve is the sequence of intermediate() calls with the point of the last objective "
            "evaluation (contract of the solver); the goals below are the steps of the induction over that history: what "
            "one call writes, and what the end of the solve makes of the files written so far.")


def history(log=True):
    """A problem in any state reached by a history."""
    from lumos.optimal_control.config import LoggingConfig
    w = world(CTX.choose(2) == 1, 2, orders=False)
    o = w.ocp
    n = [0, CTX.size("nth", 1)][CTX.choose(2)] if log else 0
    o.logging_config = LoggingConfig("s", "r", n) if log else None
    o._logging_dir = "DIR"
    w.earlier = [dict(iter_count=-1)]
    o._metrics_history_list = list(w.earlier)
    w.tables = []
    o._create_result_df = lambda x, file_path, iter_num: w.tables.append((x, file_path, iter_num))
    o._last_iter_dec_var = w.x = object()
    w.nth = n
    return w


METRICS = ("alg_mod", "iter_count", "obj_value", "inf_pr", "inf_du", "mu", "d_norm", "regularization_size", "alpha_du",
           "alpha_pr", "ls_trials")


@goal("an iteration report: logged unless it repeats the last one; a table exactly at every n-th iteration", timeout=300)
def report():
    w = history(CTX.choose(2) == 1)
    o = w.ocp
    k = sym("it", "int")
    CTX.assume(ge0(k))
    mode = CTX.choose(2)
    prev = CTX.choose(3)
    o._num_iter = [None, k, k - 1 - CTX.size("gap", 0)][prev]
    args = [mode, k] + [sym(n) for n in METRICS[2:]]
    before = o._num_iter
    o.intermediate(*args)
    if mode == 0 and prev == 1:
        CTX.require("a repeated report is ignored", not w.tables and o._metrics_history_list == w.earlier
                    and o._num_iter is before)
        return
    CTX.require("iteration number", o._num_iter is k)
    if o.logging_config is None:
        CTX.require("nothing is logged", not w.tables)
        return
    m = o._metrics_history_list
    CTX.require("one entry is appended", len(m) == 2 and m[0] is w.earlier[0])
    CTX.require("metrics under their names", set(m[-1]) == set(METRICS)
                and all(m[-1][a] is b for a, b in zip(METRICS, args)))
    due = not (isinstance(w.nth, int) and w.nth == 0) and bool(eq(lift(k) % w.nth, const(0)))
    if not due:
        CTX.require("no table", not w.tables)
    else:
        CTX.require("one table of the last evaluated point", len(w.tables) == 1 and w.tables[0][0] is w.x
                    and w.tables[0][2] is k)
        CTX.require("its file", w.tables[0][1] == "DIR/iter_" + str(k) + ".csv")


class Table:
    """Contract of a table read from a file, or of the rows of several tables."""

    def __init__(self, path=None, parts=None, done=()):
        self.path, self.parts, self.done = path, parts, done

    columns = ["states.x", "interval_con.x", "stage_con.y", "mesh", "iter"]

    def sort_values(self, by, **kw):
        return Table(self.path, self.parts, self.done + (("sorted", tuple(by)),))

    def reset_index(self, drop=False):
        return Table(self.path, self.parts, self.done)

    def __getitem__(self, c):
        return self if isinstance(c, SList) or isinstance(c, list) else Cells()

    def abs(self):
        return self

    def stack(self):
        return self

    def idxmax(self):
        return 1, "stage_con.y"

    def __sym_rename__(self, k, n, to):
        from lumver.rt import rename
        return Table(rename(self.path, k, n, to), self.parts, self.done)


class Cells:
    def __getitem__(self, i):
        return const(0)


class Loc:
    def __sym_set__(self, k, v):
        pass


class Metrics:
    def __init__(self, data):
        self.data, self.loc = data, Loc()

    def __setitem__(self, k, v):
        pass

    def to_csv(self, path, index=True):
        self.data_path = path
        Disk.metrics.append((path, self.data, index))


class Disk:
    """Contract of the directory: files of earlier iterations, in any number."""

    def __init__(self, w):
        self.w = w
        self.m = CTX.size("files", 0)
        self.first = []
        self.globbed = False
        self.removed = SList()
        self.parquet = []
        Disk.metrics = []
        self.files = SymSeq([("map", self.m, lambda k: SymStr(["DIR/iter_", *name_of("file", k).parts]))])

    def glob(self, pattern):
        CTX.require("pattern", pattern in ("DIR/iter*.csv", "DIR/iter_*.csv"))
        self.globbed = True
        r = SList()
        r.segs = self.files.segs
        return r

    def remove(self, f):
        if not self.globbed:
            self.first.append(f)
        else:
            self.removed.append(f)


@goal("end of a solve: the last point's table, and the combined table of all iteration files and the last point",
      timeout=300)
def final():
    w = history()
    o = w.ocp
    k = o._num_iter = sym("K", "int")
    CTX.assume(ge0(k))
    d = Disk(w)
    w.pd = types.SimpleNamespace(
        DataFrame=lambda data: Metrics(data), read_csv=Table,
        concat=lambda ts, axis=0: Table(parts=(as_seq(ts), axis)))
    os_ = types.SimpleNamespace(path=smo.os.path, remove=d.remove)
    pq = types.SimpleNamespace(write_table=lambda t, p: d.parquet.append((t, p)))
    pa = types.SimpleNamespace(Table=types.SimpleNamespace(from_pandas=lambda t: t))
    glob_ = types.SimpleNamespace(glob=d.glob)
    new = dict(pd=w.pd, os=os_, pq=pq, pa=pa, glob=glob_)
    keep = {n: getattr(smo, n) for n in new}
    try:
        for n, v in new.items():
            setattr(smo, n, v)
        o._log_final_iter()
    finally:
        for n, v in keep.items():
            setattr(smo, n, v)
    CTX.require("the table of the last point", len(w.tables) == 1 and w.tables[0][0] is w.x
                and w.tables[0][1] == "DIR/results.csv" and w.tables[0][2] is k)
    CTX.require("the metrics history", len(Disk.metrics) == 1 and Disk.metrics[0][0] == "DIR/metrics_history.csv"
                and Disk.metrics[0][1] is o._metrics_history_list)
    if isinstance(w.nth, int) and w.nth == 0:
        CTX.require("no combined table", not d.parquet and not d.globbed)
        return
    due = bool(eq(lift(k) % w.nth, const(0)))
    CTX.require("the last iteration's own file goes first", d.first == (["DIR/iter_" + str(k) + ".csv"] if due else []))
    CTX.require("one combined table", len(d.parquet) == 1 and d.parquet[0][1] == "DIR/all_iters.parquet")
    t = d.parquet[0][0]
    CTX.require("rows of the tables, one after another", t.parts is not None and t.parts[1] == 0)
    CTX.require("ordered by iteration and mesh", t.done[:1] == (("sorted", ("iter", "mesh")),))
    s = t.parts[0]
    CTX.require_eq("as many tables as iteration files, and the last point's", s.length(), d.m + 1)
    j = idx("j", d.m + 1)
    p = s.get(j).path
    if bool(ge0(d.m - 1 - j)):
        CTX.require("iteration file", val_eq(p, d.files.get(j)) is True)
        CTX.require("the iteration files are removed", as_seq(d.removed).find(d.files.get(j)) is not None)
    else:
        CTX.require("the last point", p == "DIR/results.csv")
    CTX.require("the last point's table stays", as_seq(d.removed).find("DIR/results.csv") is None)


@canary("scaled instead of unscaled variables must be refuted")
def wrong():
    w = logged()
    k, n = one(w, "states")
    s = idx("s", w.S)
    column(w, "states", "states." + n, s, read("x", [s * w.V + w.off["states"] + k]))

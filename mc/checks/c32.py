"""Curvature of data rows and the commands built on it.  The transformation is
compared with the formula on all rows over an alphabet.  Delete-curvature runs on
the files of all small data sets (words over rows whose curvatures lie below, at and
above the thresholds, headers only, rewritten in place, in sequence) for all
combinations of thresholds and step lengths, through the parser or directly.
Analyze-data is run on all lists of files up to a length, its printed statistics are
compared with independently computed ones.  Analyze-curvature is run on all pairs of
small data sets, the plotted and saved points are compared with the rows."""
import itertools
import math
import os

import matplotlib
import numpy as np
import pandas as pd

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
from matplotlib.figure import Figure  # noqa: E402

from command import PARSER_COMMANDS, AnalyzeData, DeleteCurvature, PlotCurvatureAgainstSubgridFlux
from finite_volume.shallow_water.solver.reduced_model import Curvature
from parser import CustomArgumentParser

from .. import networks
from ..core import capture, scratch_directory, silence

ASSUMPTIONS = [
    "data files have the format of generate-data with four values per row",
    "values of kept rows may change in the last digit, which is the precision of reading decimal numbers",
    "figures are drawn with the Agg backend, files of figures are recorded instead of written in the check of analyze-curvature",
]
COLUMNS = pd.MultiIndex.from_product([["U0", "U1", "U2", "U3", "G_1.5"], ["h", "q"]])
# rows: heights and discharges of four cells
PROFILES = {
    "flat": (0, 0, 0, 0), "ramp": (0, 1, 2, 3), "low": (0, 0.25, 0, 0.25), "at height": (0, 0.5, 0, 0.5), "at discharge": (0, 1, 0, 1),
    "high": (0, 2, 0, 2), "left": (1, -1, 1, 3), "late": (0, 0, 0, 5),
}


def row(height, discharge, k):
    values = []
    for h, q in zip(PROFILES[height], PROFILES[discharge]):
        values += [h + 1.0, q - 0.5]
    return values + [0.125 * k + 0.1, -1.5 * k]


ROWS = {
    "keep": row("flat", "flat", 1), "both": row("high", "high", 2), "height": row("high", "low", 3), "discharge": row("low", "high", 4),
    "edge h": row("at height", "flat", 5), "edge q": row("ramp", "at discharge", 6), "mid": row("low", "at height", 7), "late": row("late", "left", 8),
}


def curvature(values, s):
    """Mean of the curvatures of both triples: height, discharge."""
    result = []
    for c in (0, 1):
        u = values[c:8:2]
        k = [abs(u[i] - 2 * u[i + 1] + u[i + 2]) * s / math.pow(s * s + 0.25 * (u[i] - u[i + 2]) ** 2, 1.5) for i in (0, 1)]
        result.append((k[0] + k[1]) / 2)
    return result


def write(path, rows, index=None):
    """A file as generate-data writes it, written by hand."""
    with open(path, "w") as f:
        f.write("," + ",".join(c[0] for c in COLUMNS) + "\n")
        f.write("," + ",".join(c[1] for c in COLUMNS) + "\n")
        for i, r in zip(index or range(len(rows)), rows):
            f.write(f"{i}," + ",".join(repr(float(x)) for x in r) + "\n")


def read(path):
    """Header, index and rows of a file."""
    with open(path) as f:
        lines = f.read().splitlines()
    header = [line.split(",")[1:] for line in lines[:2]]
    body = [line.split(",") for line in lines[2:] if line.strip(",")]
    return list(zip(*header)), [int(float(b[0])) for b in body], np.array([[float(x) for x in b[1:]] for b in body])


def jobs(tier):
    deep = tier == "thorough"
    result = [dict(kind="formula", s=s, deep=deep) for s in (2.0, 0.5, 1.0, 10.0, 1e-3)]
    for length in (0, 1, 2, 3, 4) if deep else (0, 1, 2, 3):
        firsts = [None] if length < 3 else list(ROWS)
        result += [dict(kind="delete", length=length, first=f, deep=deep) for f in firsts]
    result += [dict(kind="sequence", deep=deep), dict(kind="defaults"), dict(kind="digits")]
    result += [dict(kind="large", count=c, shift=shift) for c in ((1001, 5003) if not deep else (255, 1001, 4097, 20011)) for shift in (0, 3)]
    result += [dict(kind="statistics", count=c, deep=deep) for c in (1, 2, 3)]
    result += [dict(kind="histogram")]
    result += [dict(kind="figures", first=f, deep=deep) for f in ROWS]
    return result


def run(job, rec):
    with networks.directory(scratch_directory()):
        globals()["_" + job["kind"]](job, rec)


# --------------------------------------------------------------------- formula
def _formula(job, rec):
    s = job["s"]
    letters = [-1.0, 0.0, 0.5, 3.0] if job["deep"] else [-1.0, 0.0, 3.0]
    words = list(itertools.product(letters, repeat=4))
    rows = []
    for k, w in enumerate(words):
        for other in (words[-1 - k], words[(7 * k + 3) % len(words)]):
            rows.append([x for pair in zip(w, other) for x in pair])
    X = np.array(rows)
    transformer = Curvature(step_length=s)
    rec.check(transformer.fit(X) is transformer, "fit must return the transformer")
    copy = X.copy()
    result = transformer.transform(X)
    rec.check(np.array_equal(X, copy) and result.shape == (len(X), 10) and np.array_equal(result[:, :8], copy), "inputs are changed", dict(s=s))
    for r, got in zip(rows, result):
        expected = curvature(r, s)
        rec.state("formula", s, r)
        rec.step()
        rec.valid()
        rec.check(np.allclose(got[8:], expected, rtol=1e-12, atol=1e-300), "curvature of a row", lambda: dict(s=s, row=r, got=got[8:], expected=expected))
        rec.outcome("zero" if not any(expected) else "curved")
    if s == 2.0:
        rec.check(np.array_equal(Curvature().transform(X), result), "default step length")
        rec.step()
    single = transformer.transform(X[:1])
    rec.check(np.array_equal(single, result[:1]), "curvature depends on other rows")


# ---------------------------------------------------------------------- delete
def thresholds(deep):
    hs = [None, 0.25, 0.1, 2.0, 0.0] + ([0.0625, 1e-9] if deep else [])
    qs = [None, 0.5, 0.05, 3.0, 0.0] + ([0.25, 1e-9] if deep else [])
    return itertools.product(hs, qs, [None, 2.0, 1.0, 0.5] if deep else [None, 1.0])


def kept(rows, index, kh, kq, s):
    result = []
    for i, r in zip(index, rows):
        a, b = curvature(r, s or 2.0)
        if a < (0.25 if kh is None else kh) and b < (0.5 if kq is None else kq):
            result.append((i, r))
    return result


def compare(rec, path, expected, detail):
    try:
        header, index, rows = read(path)
    except Exception as error:
        rec.violate("target file", dict(error=repr(error), **detail))
        return
    ok = header == [tuple(c) for c in COLUMNS] and index == [i for i, _ in expected]
    if ok and expected:
        ok = np.allclose(rows, [r for _, r in expected], rtol=1e-14, atol=1e-15)
    rec.check(ok, "rows after deleting by curvature", lambda: dict(got_index=index, expected=[i for i, _ in expected], header=header, rows=rows, **detail))


def command(kh, kq, s, source, target, parsed):
    if not parsed:
        return DeleteCurvature(source, target, step_length=s, curvature_height_threshold=kh, curvature_discharge_threshold=kq)
    words = ["delete-curvature", source, target]
    for flag, value in (("--kh", kh), ("--kq", kq), ("-s", s)):
        if value is not None:
            words += [flag, repr(value)]
    return of(words)


def of(words):
    arguments = vars(CustomArgumentParser(PARSER_COMMANDS).parse_arguments(list(words)))
    for name in ("args", "profile"):
        arguments.pop(name, None)
    return arguments.pop("command")(**arguments)


def _delete(job, rec):
    names = list(ROWS)
    count = 0
    for word in itertools.product(names, repeat=job["length"]):
        if job["first"] is not None and word[0] != job["first"]:
            continue
        if job["length"] == 4 and len(set(word)) < 4:
            continue
        rows = [ROWS[w] for w in word]
        for k, (kh, kq, s) in enumerate(thresholds(job["deep"])):
            if job["length"] >= 3 and (k + count) % (7 if job["deep"] else 11) != 0:
                continue
            index = [list(range(len(rows))), [3 * i + 2 for i in range(len(rows))], [i % 2 for i in range(len(rows))]][k % 3]
            write("in.csv", rows, index)
            with open("in.csv") as f:
                before = f.read()
            with silence():
                command(kh, kq, s, "in.csv", "out.csv", parsed=k % 8 == 3 and kh != 0 and kq != 0).execute()
            expected = kept(rows, index, kh, kq, s)
            rec.state("delete", word, kh, kq, s)
            rec.step()
            rec.valid()
            compare(rec, "out.csv", expected, dict(rows=word, kh=kh, kq=kq, s=s))
            with open("in.csv") as f:
                rec.check(f.read() == before, "source file is changed", dict(rows=word))
            rec.outcome(f"{len(expected)} of {len(rows)}")
        count += 1


def _large(job, rec):
    """Files with many rows: cyclic words over the rows."""
    names = list(ROWS)
    count = job["count"]
    for stride in (1, 3, 5):
        rows = [ROWS[names[(job["shift"] + stride * k + k // 8) % len(names)]] for k in range(count)]
        rows[-1] = ROWS["keep"]
        # concatenated files have repeated labels
        index = list(range(count)) if stride != 3 else [k % 100 for k in range(count)]
        write("in.csv", rows, index)
        expected = kept(rows, index, None, None, None)
        for target in ("out.csv", "in.csv"):
            with silence():
                command(None, None, None, "in.csv", target, parsed=False).execute()
            rec.state("large", count, stride, job["shift"], target)
            rec.step()
            rec.valid()
            try:
                header, got, values = read(target)
                ok = header == [tuple(c) for c in COLUMNS] and got == [i for i, _ in expected] and np.allclose(
                    values, [r for _, r in expected], rtol=1e-14, atol=1e-15)
            except Exception:
                ok, got = False, []
            rec.check(ok, "rows after deleting by curvature", lambda: dict(rows=count, kept=len(got), expected=len(expected)))
        rec.outcome(f"large {count}")
        with capture() as output:
            write("in.csv", rows, index)
            AnalyzeData(["in.csv"]).execute()
        rec.check(words(output.text) == words("IN.CSV\n------\n" + str(statistics(rows)) + "\n\n"), "printed statistics",
                  lambda: dict(rows=count, got=output.text, expected=str(statistics(rows))))


def _digits(job, rec):
    """Values of all digits and sizes, filtered repeatedly (pandas reads about twelve
    digits of small values)."""
    for size, count in itertools.product([1.0, 1e-3, 1e-9, 1e-15, 1e-30, 1e6, 1e12], [1, 3, 12]):
        rows = []
        for k in range(count):
            # equal values have no curvature
            u, v = size * math.pi / (k + 1), -size * math.e / (k + 3)
            rows.append([u, v] * 4 + [math.sqrt(2 + k) * size, -size / (7 + k) * 1e-3])
        write("in.csv", rows)
        for _ in range(3):
            with silence():
                command(None, None, None, "in.csv", "in.csv", parsed=False).execute()
            header, index, values = read("in.csv")
            rec.state("digits", size, count)
            rec.step()
            rec.valid()
            rec.check(index == list(range(count)) and values.shape == (count, 10) and np.all(np.abs(values - rows) <= 1e-10 * np.abs(rows)),
                      "values of kept rows", lambda: dict(rows=rows, got=values))
        rec.outcome(f"digits {size}")


def _sequence(job, rec):
    """Files filtered several times, in place or into a chain of files."""
    names = list(ROWS)
    words = [names, names[::-1], names[:4], names[4:] + names[4:]]
    filters = [(None, None, None), (0.1, 3.0, None), (2.0, 0.05, None), (None, 3.0, 1.0), (1e-9, None, 2.0)]
    for word in words:
        for history in itertools.product(filters, repeat=3 if job["deep"] else 2):
            for in_place in (True, False):
                state = list(enumerate(ROWS[w] for w in word))
                write("0.csv", [r for _, r in state])
                for k, (kh, kq, s) in enumerate(history):
                    source, target = ("0.csv", "0.csv") if in_place else (f"{k}.csv", f"{k + 1}.csv")
                    with silence():
                        command(kh, kq, s, source, target, parsed=k == 1).execute()
                    state = kept([r for _, r in state], [i for i, _ in state], kh, kq, s)
                    rec.step()
                    compare(rec, target, state, dict(rows=word, history=history[: k + 1], in_place=in_place))
                rec.state("sequence", word, history, in_place)
                rec.valid()
                rec.outcome(f"{len(state)} rows")


def _defaults(job, rec):
    """Every option of the command line on its own."""
    rows = list(ROWS.values())
    for kh, kq, s in itertools.product([None, 0.1, 0.25, 0.5], [None, 0.1, 0.5, 1.0], [None, 0.5, 1.0, 2.0, 4.0]):
        write("in.csv", rows)
        with silence():
            command(kh, kq, s, "in.csv", "out.csv", parsed=True).execute()
        rec.state("defaults", kh, kq, s)
        rec.step()
        rec.valid()
        expected = kept(rows, range(len(rows)), kh, kq, s)
        compare(rec, "out.csv", expected, dict(kh=kh, kq=kq, s=s))
        rec.outcome(len(expected))


# ------------------------------------------------------------------ statistics
def statistics(rows):
    rows = np.array(rows, dtype=float)
    n = len(rows)
    order = np.sort(rows, axis=0)

    def quantile(p):
        position = p * (n - 1)
        low = int(math.floor(position))
        high = min(low + 1, n - 1)
        return order[low] + (position - low) * (order[high] - order[low])

    mean = rows.sum(axis=0) / n
    std = np.sqrt(((rows - mean) ** 2).sum(axis=0) / (n - 1)) if n > 1 else np.full(rows.shape[1], np.nan)
    table = [np.full(rows.shape[1], float(n)), mean, std, order[0], quantile(0.25), quantile(0.5), quantile(0.75), order[-1]]
    return pd.DataFrame(np.array(table), columns=COLUMNS, index=["count", "mean", "std", "min", "25%", "50%", "75%", "max"])


def _statistics(job, rec):
    names = list(ROWS)
    sets = [w for n in (1, 2, 3, 8) for w in itertools.combinations(names, n)]
    sets = sets[:: 1 if job["deep"] or job["count"] == 1 else 9]
    paths = []
    tables = {}
    for k, word in enumerate(sets):
        path = f"set{k}.csv" if k % 2 else f"dir{k % 3}/Set_{k}.csv"
        os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
        write(path, [ROWS[w] for w in word])
        paths.append(path)
        tables[path] = statistics([ROWS[w] for w in word])
    choices = list(itertools.permutations(paths, job["count"]))
    limit = {1: 1000, 2: 100, 3: 60}[job["count"]] * (6 if job["deep"] else 1)
    choices = choices[:: max(1, len(choices) // limit)]
    for chosen in choices:
        with capture() as output:
            of(["analyze-data", *chosen]).execute() if len(chosen) == 2 else AnalyzeData(list(chosen)).execute()
        expected = ""
        for path in chosen:
            expected += path.upper() + "\n" + "-" * len(path) + "\n" + str(tables[path]) + "\n\n"
        rec.state("statistics", chosen)
        rec.step()
        rec.valid()
        rec.check(words(output.text) == words(expected), "printed statistics", lambda: dict(paths=chosen, got=output.text, expected=expected))
        rec.outcome(len(chosen))


def words(text):
    return [line.split() for line in text.splitlines()]


def _histogram(job, rec):
    for word in itertools.combinations(ROWS, 3):
        write("a.csv", [ROWS[w] for w in word])
        plt.close("all")
        with silence():
            of(["analyze-data", "a.csv", "--histogram"]).execute()
        figures = [plt.figure(k) for k in plt.get_fignums()]
        rec.state("histogram", word)
        rec.step()
        rec.valid()
        axes = [a for f in figures for a in f.axes if a.patches]
        heights = [sum(p.get_height() for p in a.patches) for a in axes]
        rec.check(len(axes) == 10 and all(h == 3 for h in heights), "histograms of all columns", lambda: dict(rows=word, heights=heights))
        plt.close("all")
        if len(rec.states) >= 12:
            break
    rec.outcome("histogram")


# --------------------------------------------------------------------- figures
FILES = {"kh_Gh.png": (0, 8), "kq_Gh.png": (1, 8), "kh_Gq.png": (0, 9), "kq_Gq.png": (1, 9)}


class record_figures:
    """Records the files of figures with the data shown."""

    def __enter__(self):
        self.saved = {}
        self.original = Figure.savefig

        def savefig(figure, path, *args, **kwargs):
            self.saved[str(path)] = [points(a) for a in figure.axes]

        Figure.savefig = savefig
        self.shown = None
        self.show = plt.show

        def show(*args, **kwargs):
            self.shown = [[points(a) for a in plt.figure(k).axes] for k in plt.get_fignums()]

        plt.show = show
        return self

    def __exit__(self, *args):
        Figure.savefig = self.original
        plt.show = self.show
        plt.close("all")


def points(axes):
    return np.concatenate([np.asarray(c.get_offsets(), dtype=float) for c in axes.collections]) if axes.collections else np.empty((0, 2))


def _figures(job, rec):
    names = list(ROWS)
    os.makedirs("data/reduced-llf")
    os.makedirs("data/reduced-es1")
    os.makedirs("data/curvature-analysis")
    firsts = [(job["first"], *w) for n in (0, 1) for w in itertools.product(names, repeat=n)]
    seconds = [("mid",), ("late", "keep"), tuple(names)]
    if job["deep"]:
        seconds += [(a,) for a in names]
    count = 0
    for first, second in itertools.product(firsts, seconds):
        write("data/reduced-llf/data.csv", [ROWS[w] for w in first])
        write("data/reduced-es1/data.csv", [ROWS[w] for w in second])
        expected = {}
        for name, (k, g) in FILES.items():
            expected[name] = [np.array([[curvature(ROWS[w], 2.0)[k], ROWS[w][g]] for w in rows]) for rows in (first, second)]
        options = list(itertools.product([True, False], repeat=2))
        for show, save in options if job["deep"] else [options[count % 4]]:
            with record_figures() as record, silence():
                if count % 2:
                    of(["analyze-curvature"] + ["--hide"] * (not show) + ["--save"] * save).execute()
                else:
                    PlotCurvatureAgainstSubgridFlux(show=show, save=save).execute()
            rec.state("figures", first, second, show, save)
            rec.step()
            rec.valid()
            detail = dict(first=first, second=second, show=show, save=save)
            rec.check(set(record.saved) == ({"data/curvature-analysis/" + f for f in FILES} if save else set()), "saved files",
                      lambda: dict(got=sorted(record.saved), **detail))
            for path, panels in record.saved.items():
                wanted = expected[os.path.basename(path)]
                rec.check(same(panels, wanted), "points of a saved figure", lambda: dict(path=path, got=panels, expected=wanted, **detail))
            rec.check((record.shown is not None) == show, "figures are shown", detail)
            if show:
                ok = len(record.shown) == 4 and all(any(same(p, w) for p in record.shown) for w in expected.values())
                rec.check(ok, "points of a shown figure", lambda: dict(got=record.shown, expected=expected, **detail))
            rec.outcome(f"show {show} save {save}")
        count += 1


def same(panels, wanted):
    if len(panels) != 2:
        return False
    for p, w in zip(panels, wanted):
        if len(p) != len(w):
            return False
        key = lambda m: sorted(map(tuple, np.round(m, 9)))
        if key(np.asarray(p)) != key(np.asarray(w)) and not np.allclose(p, w, rtol=1e-9):
            return False
    return True

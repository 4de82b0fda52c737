"""Training of networks.  The command is run on the files of all small data sets
(numbers of rows, input dimensions, skips) with a network which records what it is
given; all sequences of answers up to a length are given to the confirmation prompt;
and all histories of command lines (train, resume, options, rewritten data, removed
files) up to a depth are executed with the real networks on real files, where the
stored scalers, parameters, learning rate and history are compared after every step
with a model of the files.  The model trains independently: its own standardisation
and its own gradient steps on the rows of the file.  Files with equal rows in several
patterns and with thousands of rows are included."""
import builtins
import itertools
import json
import os
import pickle
import shutil

import matplotlib
import numpy as np
import torch

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402

from command import PARSER_COMMANDS, TrainNetwork
from finite_volume.shallow_water.solver import NETWORK_TYPES, ReducedNetwork
from parser import CustomArgumentParser

from .. import networks
from ..core import capture, scratch_directory, silence

ASSUMPTIONS = [
    "data files have the format of generate-data: two header lines, an index column, and the subgrid flux in the last two columns",
    "the independent training assumes plain gradient descent in one batch with the first fifth of the rows as validation set, which are the defaults of the network library",
    "training is explored on files of at most 24 rows, for at most three epochs per command",
]


def rows_of(count, inputs, kind=0):
    """Numbers which are not representable in single precision, all different."""
    return [[round(np.sin(1.0 + 3 * r + 0.7 * c + kind) * (1 + c) + 0.1 * r, 6) for c in range(inputs + 2)] for r in range(count)]


# which of the different rows stand in the file
PATTERNS = [
    lambda k: k,
    lambda k: 0,  # all rows are equal
    lambda k: k % 2,
    lambda k: k // 2,  # neighbours are equal
    lambda k: k % 5,
    lambda k: min(k, 3),  # water at rest in the end
    lambda k: max(k - 3, 0),
]


# files of several simulations have the times of each
INDICES = [lambda k, n: k, lambda k, n: k % 3, lambda k, n: n - k, lambda k, n: 0, lambda k, n: 0.1 * (k // 4)]


def write(path, rows, spaces=False, index=0):
    inputs = len(rows[0]) - 2 if rows else 8
    separator = ", " if spaces else ","
    names = [f"U{k // 2}" for k in range(inputs)] + ["G_1.5"] * 2
    with open(path, "w") as f:
        f.write(separator.join(["", *names]) + "\n")
        f.write(separator.join(["", *(["h", "q"] * (len(names) // 2))]) + "\n")
        for k, r in enumerate(rows):
            f.write(separator.join([str(INDICES[index](k, len(rows))), *map(repr, map(float, r))]) + "\n")


def jobs(tier):
    deep = tier == "thorough"
    result = [dict(kind="rows", inputs=i, counts=list(range(1, 25 if deep else 13))) for i in (2, 4, 8)]
    result += [dict(kind="rows", inputs=8, counts=[c], large=True) for c in ((600, 1500) if not deep else (257, 600, 1024, 1500, 5003, 20011))]
    result += [dict(kind="rows", inputs=i, counts=[5, 6, 12], pattern=p) for i in (2, 8) for p in range(1, len(PATTERNS))]
    result += [dict(kind="rows", inputs=8, counts=[600], large=True, pattern=p) for p in range(1, len(PATTERNS))]
    result += [dict(kind="rows", inputs=i, counts=[2, 5, 9, 12], index=x) for i in (2, 8) for x in range(1, len(INDICES))]
    result += [dict(kind="prompt", first=a, length=5 if deep else 4) for a in ANSWERS]
    lines = list(operations())
    firsts = [[a] for a in lines] if not deep else [list(w) for w in itertools.product(lines, repeat=2)]
    for first in firsts:
        result.append(dict(kind="history", name="llf", first=first, depth=4 if deep else 3))
        if len(first) == 1 or first[1] == lines[0]:
            result.append(dict(kind="history", name="llf2", first=first[:1], depth=3 if deep else 2))
    result += [dict(kind="two"), dict(kind="losses"), dict(kind="untrained")]
    return result


def run(job, rec):
    torch.set_num_threads(1)
    with networks.directory(scratch_directory()):
        globals()["_" + job["kind"]](job, rec)


def close(a, b, eps=1e-6):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= eps * (1 + np.abs(b))))


# ------------------------------------------------------------------------ rows
class Recording(NETWORK_TYPES["llf"]):
    """A network which keeps what it is asked for."""

    data_path = "data.csv"

    def fit(self, X, y, **kwargs):
        self.calls.append(("fit", np.array(X), np.array(y), kwargs.get("epochs", self.max_epochs)))
        return self

    def save_params(self, *args, **kwargs):
        self.calls.append(("save",))


def recording():
    network = Recording(warm_start=True)
    network.calls = []
    return network


def _rows(job, rec):
    inputs = job["inputs"]
    for count in job["counts"]:
        for spaces in (False, True) if not job.get("large") else (False,):
            rows = rows_of(count, inputs)
            pattern = job.get("pattern", 0)
            rows = [rows[PATTERNS[pattern](k)] for k in range(count)]
            if pattern == 4:
                rows = [[0.0 if c % 2 else r[c] for c in range(inputs + 2)] for r in rows]
            if pattern == 6:
                rows = [[float(round(10 * v)) for v in r] for r in rows]
            write("data.csv", rows, spaces, job.get("index", 0))
            with open("data.csv") as f:
                content = f.read()
            large = [None, 1, 2, 3, 5, 7, 8, 10, 100, 511, count - 1, count, count + 1]
            for skip in [None, *range(1, count + 2)] if not job.get("large") else large:
                for epochs in (None, 1, 7) if not job.get("large") else (1,):
                    network = recording()
                    with capture():
                        TrainNetwork(network, epochs=epochs, skip=skip).execute()
                    kept = np.array(rows)[:: skip or 1]
                    rec.state("rows", inputs, count, spaces, skip, epochs)
                    rec.step()
                    rec.valid()
                    calls = network.calls
                    if not rec.check([c[0] for c in calls] == ["fit", "save"], "calls of the network", lambda: dict(job=job, calls=[c[0] for c in calls])):
                        continue
                    _, X, y, number = calls[0]
                    rec.check(X.dtype == np.float32 and y.dtype == np.float32, "single precision", dict(X=str(X.dtype), y=str(y.dtype)))
                    rec.check(close(X, kept[:, :inputs]) and close(y, kept[:, inputs:]), "rows handed to the network",
                              lambda: dict(count=count, inputs=inputs, skip=skip, X=X, y=y, expected=kept))
                    rec.check(number == (epochs or 500), "number of epochs", dict(got=number, expected=epochs or 500))
            with open("data.csv") as f:
                rec.check(f.read() == content, "the data file is changed", dict(count=count))
    rec.outcome(f"{inputs} inputs")


# ---------------------------------------------------------------------- prompt
ANSWERS = ["y", "YES", "Yes", "n", "NO", "", "x", "yy", "nope"]


class answers:
    """Answers questions; keeps the number of questions."""

    def __init__(self, given):
        self.given = list(given)
        self.asked = 0

    def __enter__(self):
        self.old = builtins.input
        builtins.input = self.answer
        return self

    def answer(self, prompt=""):
        self.asked += 1
        if not self.given:
            raise EOFError
        return self.given.pop(0)

    def __exit__(self, *args):
        builtins.input = self.old
        return False


def decide(sequence):
    """Decision and number of questions."""
    for k, answer in enumerate(sequence):
        if answer.lower() in ("y", "yes"):
            return True, k + 1
        if answer.lower() in ("n", "no"):
            return False, k + 1
    return None, len(sequence) + 1


def _prompt(job, rec):
    write("data.csv", rows_of(3, 8))
    for length in range(1, job["length"] + 1):
        for rest in itertools.product(ANSWERS, repeat=length - 1):
            sequence = [job["first"], *rest]
            decision, asked = decide(sequence[:])
            if asked < len(sequence):
                continue  # a prefix decides
            for confirm in (True, False):
                network = recording()
                command = TrainNetwork(network, epochs=1, confirm=confirm)
                error = None
                with capture(), answers(sequence) as user:
                    try:
                        command.execute()
                    except EOFError as e:
                        error = e
                saved = [c[0] for c in network.calls].count("save")
                rec.state("prompt", sequence, confirm)
                rec.step(asked)
                rec.valid()
                if not confirm:
                    rec.check(user.asked == 0 and saved == 1, "asked without confirmation", dict(asked=user.asked, saved=saved))
                    continue
                rec.check(user.asked == asked and saved == (1 if decision else 0) and (error is not None) == (decision is None),
                          "confirmation", dict(sequence=sequence, asked=user.asked, saved=saved, expected=(decision, asked)))
    rec.outcome(decide([job["first"]])[0])


# ------------------------------------------------------------------- histories
def operations():
    """Command lines and changes of the files."""
    return {
        "train": ["--seed", "1", "-e", "2"],
        "train skip": ["--seed", "2", "--skip", "2", "-e", "1"],
        "train rate": ["-p", "lr", "0.3", "--seed", "3", "-e", "1"],
        "resume": ["--resume", "-e", "2"],
        "resume rate": ["--resume", "-p", "lr", "0.05", "-e", "1"],
        "resume skip": ["--resume", "--seed", "3", "--skip", "3", "-e", "3"],
        "discard": ["--seed", "1", "-e", "1", "--confirm"],
        "confirm": ["--resume", "--confirm", "-e", "1"],
        "data": None,
        "short data": None,
        "other run": ["--seed", "4", "-p", "lr", "0.2", "--skip", "4", "-e", "1", "--confirm"],
        "forget": None,
    }


REPLIES = {"discard": ["x", "no"], "confirm": ["", "Y"], "other run": ["yes"]}
COUNT = 23


class Model:
    """What is known about the files."""

    def __init__(self, cls):
        self.cls = cls
        self.kind = 0
        self.count = COUNT
        self.parameters = None
        self.rate = None
        self.epochs = 0
        self.scalers = None

    def copy(self):
        other = Model(self.cls)
        other.__dict__.update(self.__dict__)
        return other


def options(words):
    value = dict(seed=None, skip=1, epochs=500, rate=None)
    for key, flag in (("seed", "--seed"), ("skip", "--skip"), ("epochs", "-e")):
        if flag in words:
            value[key] = int(words[words.index(flag) + 1])
    if "-p" in words:
        value["rate"] = float(words[words.index("-p") + 2])
    value["resume"] = "--resume" in words
    return value


def descend(cls, parameters, X, y, rate, epochs):
    """Own gradient descent."""
    module = cls.module_type()
    with torch.no_grad():
        for p, value in zip(module.parameters(), parameters):
            p[:] = torch.tensor(value)
    validation = -(-len(X) // 5)
    X, y = torch.tensor(X[validation:], dtype=torch.float32), torch.tensor(y[validation:], dtype=torch.float32)
    for _ in range(epochs):
        module.zero_grad()
        ((module(X) - y) ** 2).mean().backward()
        with torch.no_grad():
            for p in module.parameters():
                p -= rate * p.grad
    return [p.detach().numpy().copy() for p in module.parameters()]


def scaled(rows):
    rows = np.array(rows, dtype=np.float32)
    X, y = rows[:, :-2], rows[:, -2:]
    scalers = [(v.astype(float).mean(axis=0), v.astype(float).std(axis=0)) for v in (X, y)]
    result = []
    for v, (m, s) in zip((X, y), scalers):
        v = v.copy()
        v -= m  # every operation is rounded to single precision
        v /= s
        result.append(v)
    return result, scalers


INITIAL = {}


def initial(name, seed):
    """Parameters of an untrained network of a seed: training with rate zero."""
    if (name, seed) not in INITIAL:
        cls = NETWORK_TYPES[name]
        with networks.directory(scratch_directory()):
            os.makedirs(os.path.dirname(cls.data_path))
            write(cls.data_path, rows_of(10, 8, 5))
            execute(name, ["-p", "lr", "0", "--seed", str(seed), "-e", "1"])
            INITIAL[name, seed] = stored(cls)["parameters"]
    return INITIAL[name, seed]


def execute(name, words, replies=()):
    """Runs a command line, returns the number of questions."""
    with capture(), answers(replies) as user:
        arguments = CustomArgumentParser(PARSER_COMMANDS).parse_arguments(["train-network", name, *words])
        values = {k: v for k, v in vars(arguments).items() if k not in ("args", "profile", "command")}
        arguments.command(**values).execute()
    return user.asked


def apply(model, name, op, line):
    """The operation on the real files and on the model."""
    cls = model.cls
    if op.endswith("data"):
        model.kind += 1
        model.count = COUNT if op == "data" else 18
        write(cls.data_path, rows_of(model.count, 8, model.kind))
        return
    if op == "forget":
        for path in (cls.optimizer_path, cls.history_path):
            if os.path.exists(path):
                os.remove(path)
        model.rate, model.epochs = None, 0
        return
    execute(name, line, REPLIES.get(op, ()))
    if op == "discard":
        return
    o = options(line)
    (X, y), scalers = scaled(rows_of(model.count, 8, model.kind)[:: o["skip"]])
    resumed = o["resume"] and model.parameters is not None
    start = model.parameters if resumed else (initial(name, o["seed"]) if o["seed"] is not None else None)
    rate = o["rate"] if o["rate"] is not None else (model.rate if resumed and model.rate is not None else 0.01)
    model.parameters = descend(cls, start, X, y, rate, o["epochs"]) if start is not None else stored(cls)["parameters"]
    model.epochs = (model.epochs if resumed else 0) + o["epochs"]
    model.rate = rate
    model.scalers = scalers


def stored(cls):
    """Contents of the files."""
    result = dict(parameters=None, rate=None, epochs=0, scalers=None)
    if os.path.exists(cls.network_path):
        state = torch.load(cls.network_path, weights_only=False)
        result["parameters"] = [v.numpy().copy() for v in state.values()]
    if os.path.exists(cls.optimizer_path):
        result["rate"] = torch.load(cls.optimizer_path, weights_only=False)["param_groups"][0]["lr"]
    if os.path.exists(cls.history_path):
        with open(cls.history_path) as f:
            result["epochs"] = len(json.load(f))
    scalers = []
    for path in (cls.input_scaler_path, cls.output_scaler_path):
        if os.path.exists(path):
            with open(path, "rb") as f:
                scaler = pickle.load(f)
            scalers.append((scaler.mean_, scaler.scale_))
    result["scalers"] = scalers or None
    return result


def compare(rec, model, path):
    real = stored(model.cls)
    same = (real["parameters"] is None) == (model.parameters is None)
    if same and model.parameters is not None:
        same = all(close(a, b, 1e-4) for a, b in zip(real["parameters"], model.parameters))
    rec.check(same, "stored parameters", lambda: dict(path=path, got=real["parameters"] and real["parameters"][-1],
                                                     expected=model.parameters and model.parameters[-1]))
    same = (real["scalers"] is None) == (model.scalers is None)
    if same and model.scalers is not None:
        same = len(real["scalers"]) == 2 and all(close(a, b, 1e-4) for r, m in zip(real["scalers"], model.scalers) for a, b in zip(r, m))
    rec.check(same, "stored scalers", lambda: dict(path=path, got=real["scalers"], expected=model.scalers))
    rec.check(real["epochs"] == model.epochs, "length of the stored history", dict(path=path, got=real["epochs"], expected=model.epochs))
    rec.check((real["rate"] is None) == (model.rate is None) and (model.rate is None or close(real["rate"], model.rate)),
              "stored optimizer", dict(path=path, got=real["rate"], expected=model.rate))
    # the real values are the start of the next step, so that errors do not add up
    if real["parameters"] is not None:
        model.parameters = real["parameters"]


def _history(job, rec):
    name = job["name"]
    cls = NETWORK_TYPES[name]
    table = operations()
    directory = os.path.dirname(cls.data_path)
    os.makedirs(directory)
    write(cls.data_path, rows_of(COUNT, 8, 0))

    def step(model, op, path):
        model = model.copy()
        apply(model, name, op, table[op])
        rec.state("history", name, path, model.kind, model.epochs)
        rec.step()
        rec.valid()
        rec.outcome(op)
        compare(rec, model, path)
        return model

    def explore(model, path):
        if len(path) == job["depth"]:
            return
        copy = scratch_directory()
        shutil.copytree(directory, copy, dirs_exist_ok=True)
        for op in table:
            next_model = step(model, op, [*path, op])
            explore(next_model, [*path, op])
            shutil.rmtree(directory)
            shutil.copytree(copy, directory)
        shutil.rmtree(copy)

    model = Model(cls)
    for k in range(len(job["first"])):
        model = step(model, job["first"][k], job["first"][:k + 1])
    explore(model, list(job["first"]))


def _two(job, rec):
    """Training one network leaves the files of the other one."""
    for name in NETWORK_TYPES:
        cls = NETWORK_TYPES[name]
        os.makedirs(os.path.dirname(cls.data_path), exist_ok=True)
        write(cls.data_path, rows_of(COUNT, 8, 0))
    table = operations()
    words = [(name, op) for name in NETWORK_TYPES for op in ("train", "resume skip", "discard")]
    for word in itertools.product(words, repeat=2):
        for name, op in word:
            before = {other: files(NETWORK_TYPES[other]) for other in NETWORK_TYPES}
            execute(name, table[op], REPLIES.get(op, ()))
            after = {other: files(NETWORK_TYPES[other]) for other in NETWORK_TYPES}
            rec.state("two", word)
            rec.step()
            rec.valid()
            for other in NETWORK_TYPES:
                if other != name or op == "discard":
                    rec.check(before[other] == after[other], "files of another network or of discarded training are changed",
                              dict(word=word, other=other))
                else:
                    rec.check({k for k, v in after[other].items()} == {"data.csv", "model.pkl", "opt.pkl", "history.json", "input_scaler.pkl", "output_scaler.pkl"},
                              "stored files", dict(word=word, files=list(after[other])))
    rec.check(sorted(os.listdir(".")) == ["data"] and sorted(os.listdir("data")) == ["reduced-llf", "reduced-llf-2"], "other files are written", dict())
    rec.outcome("two")


def files(cls):
    directory = os.path.dirname(cls.data_path)
    return {n: open(os.path.join(directory, n), "rb").read() for n in os.listdir(directory)}


def _untrained(job, rec):
    """Training of the same seed twice, after all kinds of random numbers drawn in
    between; resuming without stored parameters starts with the untrained network."""
    for name in NETWORK_TYPES:
        cls = NETWORK_TYPES[name]
        for seed in (1, 2, 5):
            results = []
            for resume in ([], ["--resume"]):
                for drawn in range(3):
                    with networks.directory(scratch_directory()):
                        os.makedirs(os.path.dirname(cls.data_path))
                        write(cls.data_path, rows_of(COUNT, 8, 0))
                        torch.rand(drawn), np.random.rand(drawn)
                        execute(name, ["--seed", str(seed), "-e", "2", *resume])
                        results.append(stored(cls))
                    rec.state("untrained", name, seed, resume, drawn)
                    rec.step()
                    rec.valid()
            for k, other in enumerate(results[1:]):
                rec.check(all(np.array_equal(a, b) for a, b in zip(results[0]["parameters"], other["parameters"])),
                          "training with a seed is not reproducible", dict(name=name, seed=seed, run=k + 1))
                rec.check(other["epochs"] == 2, "length of the history", dict(name=name, seed=seed, run=k + 1))
            rec.outcome(f"{name} {results[0]['parameters'][-1][0]:.6f}")


def _losses(job, rec):
    """Plotted losses are those of the history."""
    for name in NETWORK_TYPES:
        cls = NETWORK_TYPES[name]
        os.makedirs(os.path.dirname(cls.data_path))
        write(cls.data_path, rows_of(COUNT, 8, 0))
        shown = []

        def show(*args, **kwargs):
            for line in plt.gca().get_lines():
                shown.append((line.get_label(), np.array(line.get_xdata(), dtype=float), np.array(line.get_ydata(), dtype=float)))

        old, plt.show = plt.show, show
        try:
            for k, words in enumerate((["--seed", "1", "-e", "3"], ["--resume", "-e", "2"], ["--seed", "2", "-e", "1"], ["--resume", "-e", "1"])):
                shown.clear()
                execute(name, words)
                rec.check(not shown, "plot without request", dict(words=words))
                shown.clear()
                execute(name, [*words, "--plot-loss"])
                with open(cls.history_path) as f:
                    history = json.load(f)
                rec.state("losses", name, k)
                rec.step()
                rec.valid()
                rec.check(len(shown) == 2, "plotted losses", dict(words=words, lines=len(shown)))
                for (label, x, y), key in zip(sorted(shown, key=lambda s: s[0]), ("train_loss", "valid_loss")):
                    rec.check(close(x, range(len(history))) and close(y, np.log10([h[key] for h in history])), "values of the losses",
                              lambda: dict(words=words, label=label, x=x, y=y, expected=np.log10([h[key] for h in history])))
        finally:
            plt.show = old
            plt.close("all")
        rec.outcome(name)

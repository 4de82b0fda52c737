"""Records figures instead of writing or showing them."""
import os
import sys

import matplotlib

matplotlib.use("Agg")
import matplotlib.animation  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from matplotlib.figure import Figure  # noqa: E402


def lines(axes):
    """(label, x, y) of all lines."""
    return [(line.get_label(), np.array(line.get_xdata(), dtype=float), np.array(line.get_ydata(), dtype=float)) for line in axes.get_lines()]


def axes_of(figure):
    """Lines and titles of a figure."""
    return dict(axes=[lines(a) for a in figure.axes], title=" ".join([t.get_text() for t in figure.texts] + [a.get_title() for a in figure.axes]))


class record:
    """SAVED maps paths to the axes of a figure, SHOWN lists the open figures of
    every call of show, ANIMATIONS all animations with their frames."""

    def __enter__(self):
        self.saved, self.shown, self.animations, self.order = {}, [], [], []
        self.old = Figure.savefig, plt.show, matplotlib.animation.FuncAnimation
        outer = self

        def exists(path):
            directory = os.path.dirname(str(path))
            if directory and not os.path.isdir(directory):
                raise FileNotFoundError(f"No such file or directory: '{path}'")

        def savefig(figure, path, *args, **kwargs):
            exists(path)
            outer.order.append(str(path))
            outer.saved[str(path)] = axes_of(figure)

        def show(*args, **kwargs):
            outer.shown.append([axes_of(plt.figure(k)) for k in plt.get_fignums()])

        class Recorder:
            def __init__(self, fig, func, frames=None, *args, **kwargs):
                self.figure, self.function, self.options = fig, func, kwargs
                self.frames = list(frames)
                self.saved = []
                self.interval = kwargs.get("interval")
                outer.animations.append(self)

            def save(self, path, *args, **kwargs):
                exists(path)
                self.saved.append((str(path), kwargs))
                outer.order.append(str(path))

            def play(self, frames=None):
                """(text, axes) of every frame."""
                result = []
                for frame in self.frames if frames is None else frames:
                    self.function(frame)
                    texts = [t.get_text() for a in self.figure.axes for t in a.texts]
                    result.append((texts, [lines(a) for a in self.figure.axes]))
                return result

        Figure.savefig, plt.show = savefig, show
        self._patch(Recorder)
        plt.close("all")
        return self

    def _patch(self, cls):
        matplotlib.animation.FuncAnimation = cls
        module = sys.modules.get("command.animate")
        if module is not None and "FuncAnimation" in vars(module):
            module.FuncAnimation = cls

    def __exit__(self, *args):
        Figure.savefig, plt.show, _ = self.old
        self._patch(self.old[2])
        plt.close("all")
        return False

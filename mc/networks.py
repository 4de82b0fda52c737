"""Reduced models with the networks of the repository."""
import os

import finite_volume.shallow_water.solver as SW

from .core import REPO

FACTORIES = {
    "reduced-llf": SW.ReducedLaxFriedrichsSolver,
    "reduced-llf-2": SW.ReducedLaxFriedrichs2Solver,
}


class directory:
    """The stored networks have relative paths."""

    def __init__(self, path=REPO):
        self.path = path

    def __enter__(self):
        self._old = os.getcwd()
        os.chdir(self.path)

    def __exit__(self, *exc):
        os.chdir(self._old)

"""Shallow water solvers with all their options, by name."""
import finite_volume.shallow_water.solver as S

from .worlds import WaterWorld, INTEGRATORS, mixed  # noqa: F401

G = S.SHALLOW_WATER_FLUX_GETTER


def factories():
    """name -> constructor(benchmark, **kwargs) of every solver variant."""
    result = {
        "llf": S.LaxFriedrichsSolver,
        "lw": S.LaxWendroffSolver,
        "central": S.CentralFluxSolver,
        "low-order": S.LowOrderSolver,
        "es": S.EnergyStableSolver,
        "es1": S.FirstOrderDiffusiveEnergyStableSolver,
        "mcl": S.MCLSolver,
        "antidiffusion": S.LinearAntidiffusiveSolver,
    }
    for key in ["central", "es", "es1", "llf", "low-order"]:
        result[f"mcl+{key}"] = _with_flux(S.MCLSolver, key)
        result[f"antidiffusion+{key}"] = _with_flux(S.LinearAntidiffusiveSolver, key)
    return result


def _with_flux(solver, key):
    return lambda benchmark, **kwargs: solver(
        benchmark, flux_getter=G[key], **kwargs
    )


FACTORIES = factories()
MIXED = mixed(FACTORIES)

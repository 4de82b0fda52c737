"""Bounded state spaces shared by the checks."""
import itertools

import numpy as np

SCALAR = [-2.0, -0.5, 0.0, 1.0, 3.0]
SCALAR_SMALL = [-1.0, 0.0, 2.0]

WET = [(1.0, 0.0), (1.0, 2.0), (0.5, -1.0), (3.0, 0.25)]
FAST = [(0.1, 1.0), (0.2, -1.5)]
DRY = [(0.0, 0.0)]
THIN = [(1e-3, 2e-3), (1e-9, 0.0)]
WATER = WET + DRY + THIN[:1]
WATER_ALL = WET + FAST + DRY + THIN


def all_words(alphabet, n):
    for word in itertools.product(alphabet, repeat=n):
        yield np.array(word, dtype=float)


def patterns(alphabet, n):
    """Long states: every ordered pair and triple of distinct letters laid out as
    step, single spike (at several places), alternation and ramp."""
    k = len(alphabet)
    for i, j in itertools.permutations(range(k), 2):
        a, b = alphabet[i], alphabet[j]
        for position in sorted({0, 1, n // 2, n - 2, n - 1}):
            if 0 <= position < n:
                spike = [a] * n
                spike[position] = b
                yield np.array(spike, dtype=float)
        for cut in sorted({n // 3, n // 2}):
            yield np.array([a] * cut + [b] * (n - cut), dtype=float)
        yield np.array([a if m % 2 else b for m in range(n)], dtype=float)
        a_, b_ = np.array(a), np.array(b)
        yield np.array([a_ + (b_ - a_) * m / (n - 1) for m in range(n)], dtype=float)
    for i, j, l in itertools.permutations(range(k), 3):
        yield np.array(
            [alphabet[(i, j, l)[m % 3]] for m in range(n)], dtype=float
        )


def magnified(space, every=1):
    """The words, and every EVERY-th one scaled by powers of two, as small disturbances
    of a constant and of a constant but one entry; some of them are close together."""
    for k, u in enumerate(space):
        yield u
        if k % every == 0:
            yield u * 2.0**-14
            yield u * 2.0**-36
            yield u * 2.0**-38
            yield 1.0 + u * 2.0**-12
            yield 1.0 + u * 2.0**-24
            yield 1.0 + u * 2.0**-26
            v = 1.0 + u * 2.0**-24
            v[int(np.argmax(u)) // (u.size // len(u))] = 2.0
            yield v


def bottoms(n):
    """Bottom profiles: flat, step, bump, steep, negative."""
    return {
        "flat": None,
        "level": [0.7] * n,
        "step": [0.0 if i < n // 2 else 0.5 for i in range(n)],
        "bump": [0.3 * np.sin(np.pi * (i + 0.5) / n) ** 2 for i in range(n)],
        "steep": [(-1.0) ** i * (1 + i % 3) for i in range(n)],
        "pit": [-2.0 if i == n // 2 else 0.0 for i in range(n)],
        "small": [1e-6 * i for i in range(n)],
        "tiny": list(np.cumsum([[1e-7, -1e-10, 1e-5, -1e-8][i % 4] for i in range(n)])),
        "gentle": [5.0 + [0.0, 1e-3, -1e-5, 2e-4][i % 4] for i in range(n)],
    }

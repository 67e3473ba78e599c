"""Exhaustive enumeration of bounded parameter spaces.

A state is a full parameter assignment. A transition sets one parameter to
another value of its alphabet. `deviations` enumerates every state within k
transitions of a base state; `product` every state of a full product.
Returned: array [N, P] without duplicates (first occurrence order, so that
states with fewer deviations come first), number of transitions.
"""
import itertools
import numpy as np


def dedupe(rows):
    rows = np.asarray(rows, dtype=float)
    _, idx = np.unique(rows, axis=0, return_index=True)
    return rows[np.sort(idx)]


def deviations(names, base, alph, k):
    base = np.array([float(base[n]) for n in names])
    col = {n: i for i, n in enumerate(names)}
    out, trans = [base[None]], 0
    axes = [n for n in names if n in alph]
    for d in range(1, k + 1):
        for combo in itertools.combinations(axes, d):
            vals = np.array(list(itertools.product(*[alph[n] for n in combo])), dtype=float)
            blk = np.tile(base, (len(vals), 1))
            for j, n in enumerate(combo):
                blk[:, col[n]] = vals[:, j]
            out.append(blk); trans += d * len(vals)
    return np.concatenate(out), trans


def product(names, base, alph):
    base = np.array([float(base[n]) for n in names])
    col = {n: i for i, n in enumerate(names)}
    axes = [n for n in names if n in alph]
    vals = np.array(list(itertools.product(*[alph[n] for n in axes])), dtype=float)
    blk = np.tile(base, (len(vals), 1))
    for j, n in enumerate(axes):
        blk[:, col[n]] = vals[:, j]
    tot = len(vals)
    trans = sum(tot // len(alph[n]) * (len(alph[n]) - 1) for n in axes)
    return blk, trans


def union(*parts):
    rows = np.concatenate([p[0] for p in parts])
    return dedupe(rows), sum(p[1] for p in parts)

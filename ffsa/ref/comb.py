"""Reference definitions: combinatorial matrix functions."""
import itertools
import math
import numpy as np
from ff import sgn


def ref_sgn(p):
    inv = sum(1 for i in range(len(p)) for j in range(i + 1, len(p)) if p[i] > p[j])
    return 1 if inv % 2 == 0 else -1


def ref_pf(A):
    A = np.array(A)
    n = A.shape[0]
    if n % 2 == 1:
        return 0
    m = n // 2
    tot = 0
    for s in itertools.permutations(range(n)):
        w = 1
        for i in range(m):
            w = w * A[s[2 * i], s[2 * i + 1]]
        tot = tot + sgn(s) * w
    return tot / (2 ** m * math.factorial(m))


def ref_hf(A):
    A = np.array(A)
    n = A.shape[0]
    if n % 2 == 1:
        return 0
    m = n // 2
    tot = 0
    for s in itertools.permutations(range(n)):
        w = 1
        for i in range(m):
            w = w * A[s[2 * i], s[2 * i + 1]]
        tot = tot + w
    return tot / (2 ** m * math.factorial(m))


def ref_pt(A):
    A = np.array(A)
    n = A.shape[0]
    tot = 0
    for s in itertools.permutations(range(n)):
        w = 1
        for i in range(n):
            w = w * A[i, s[i]]
        tot = tot + w
    return tot


def ref_dt(A):
    A = np.array(A)
    n = A.shape[0]
    tot = 0
    for s in itertools.permutations(range(n)):
        w = 1
        for i in range(n):
            w = w * A[i, s[i]]
        tot = tot + sgn(s) * w
    return tot


def ref_dt_eigen(A):
    if A.shape[0] != A.shape[1]:
        return None
    return np.prod(np.linalg.eigvals(A))

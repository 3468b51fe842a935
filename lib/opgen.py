"""Hypothesis strategies for operator strings (see opmodel for the tree format)."""
from hypothesis import strategies as st

from lib.opmodel import combine, kind

AMPS = [-2.0, -1.0, -0.75, -0.5, -0.25, 0.0, 0.25, 0.5, 1.0, 1.5, 3.0]
NZ = [a for a in AMPS if a != 0.0]
SMALL = [1e-4, -3e-5]


def number(small=True):
    base = NZ + (SMALL if small else [])
    num = st.one_of(
        st.sampled_from(base).map(lambda x: ["n", x, 0.0]),
        st.tuples(st.sampled_from(AMPS), st.sampled_from(NZ)).map(lambda x: ["n", x[0], x[1]]),
    )
    return st.tuples(num, st.sampled_from([None, None, None, "np", "np0", "jnp"])).map(lambda x: x[0] + ([x[1]] if x[1] else []))


def function():
    return st.tuples(st.sampled_from(["const", "lin", "cos", "phase", "diff"]),
                     st.sampled_from(NZ), st.sampled_from([0.0, 0.0, 0.5, -1.0])).map(
        lambda x: ["f", x[0], [x[1], x[2]]])


@st.composite
def local(draw, lDim, nsites, fermionic=False):
    idx = draw(st.integers(0, nsites - 1))
    if fermionic:
        return ["o", draw(st.sampled_from(["creation", "annihilation", "creation", "annihilation", "number", "Sz", "Id"])), idx]
    if lDim == 2 and draw(st.integers(0, 3)) > 0:
        return ["o", draw(st.sampled_from(["Sx", "Sy", "Sz", "Sp", "Sm", "number", "Id"])), idx]
    if draw(st.integers(0, 7)) == 0:
        return ["o", "Id", idx]
    if draw(st.integers(0, 3)) == 0:
        m = list(range(lDim))
    else:
        m = draw(st.lists(st.integers(0, lDim - 1), min_size=lDim, max_size=lDim))
    e = [[draw(st.sampled_from(AMPS)), draw(st.sampled_from([0.0, 0.0, 0.5, -1.0]))] for _ in range(lDim)]
    return [draw(st.sampled_from(["l", "l", "d"])), idx, m, e, False]


@st.composite
def product(draw, items):
    """random association of the product of `items` which is defined by the public API and gives an OpStr"""
    def seg(lo, hi):
        if hi - lo == 1:
            return items[lo], kind(items[lo])
        if draw(st.integers(0, 4)) == 0:
            return ["S", items[lo:hi]], "S"
        mid = draw(st.integers(lo + 1, hi - 1))
        (a, ka), (b, kb) = seg(lo, mid), seg(mid, hi)
        k = combine(ka, kb)
        if k is None or (k == "N"):
            return ["S", items[lo:hi]], "S"
        return ["*", a, b], k
    t, k = seg(0, len(items))
    if k != "S":
        t = ["S", [t]]
    return t


@st.composite
def term(draw, lDim, nsites, fermionic=False, max_ops=5, functions=True, small=True):
    """small=False: no matrix elements below the cutoff at which the library drops them"""
    ops = draw(st.lists(local(lDim, nsites, fermionic), min_size=1, max_size=max_ops))
    style = draw(st.sampled_from(["tree", "tree", "tree", "tuple", "scal", "opstr"]))
    pre = draw(st.lists(st.one_of(number(small), function()) if functions else number(small), min_size=0, max_size=3))
    if style == "tuple":
        return ["T", ops]
    if style == "scal":
        a = pre[0] if pre else draw(number(small))
        return ["scal", a, draw(st.sampled_from([["T", ops], ["S", ops]]))]
    items = list(ops)
    for p in pre:
        items.insert(draw(st.integers(0, len(items))), p)
    if style == "opstr":
        return ["S", items]
    return draw(product(items))


def shapes(lDim, fermionic=False):
    return st.sampled_from([[1], [2], [3], [4], [5], [6], [2, 2], [2, 3], [3, 2], [1, 4], [3, 1], [2, 1, 2], [2, 2, 2]])


@st.composite
def configs(draw, lDim, shape, devices, max_batch=4):
    n = 1
    for x in shape:
        n *= x
    b = draw(st.integers(1, max_batch))
    return draw(st.lists(st.lists(st.integers(0, lDim - 1), min_size=n, max_size=n),
                         min_size=b * devices, max_size=b * devices))


def args(n):
    return st.lists(st.sampled_from([0.0, 0.3, -0.7, 1.0, 2.5]), min_size=n, max_size=n)

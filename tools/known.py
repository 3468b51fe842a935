#!/usr/bin/env python3
"""Writes known_findings.json (committed; run by hand)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN = [
    {"id": "KF1", "property": "C01", "what": "raising/lowering operators and products are transposed relative to the documented <s|O|s'> (S+ differs from (Sx + i Sy)/2); pinned by the existing tests",
     "shard": {"part": "gen", "devices": 1}, "case": {"known": True}},
    {"id": "KF2", "property": "C10", "what": "recurrent network with complex parameters (realValuedParams=False) is not normalised (L=3, hiddenSize=3, vanilla cell)",
     "shard": {"part": "rnn", "devices": 1}, "case": {"dim": 1, "L": 3, "hid": 3, "depth": 1, "ind": 2, "kappa": 0.5, "real": False, "cell": "RNN", "act": "elu", "two": False, "seed": 3, "scale": 1.0, "mine": False, "known": True}},
    {"id": "KF3", "property": "C12", "what": "mu=0 with single spin flips and an even number of sweep steps: every proposal is accepted, so the parity of the configuration never mixes and the samples do not follow the uniform distribution",
     "shard": {"part": "mc", "devices": 1}, "case": {"prop": "flip", "shape": [3], "mu": 0, "kappa": 0.5, "kind": "reim", "seed": 2, "chains": 300, "intkey": True, "sweep": 50, "ops": [["sample", 1], ["sample", 2]]}},
]
PROP = {"custom cells of recurrent": "C10", "weights on processes that hold": "C13", "ExactSampler on more processes": "C11", "leave the network description": "C20", "construct two-network": "C20", "write plain numbers": "C19", "return to the root group": "C19", "MinSR updates": "C17", "TDVP updates without": "C16", "set up the SR equation": "C16",
        "apply linear transformations": "C15", "ignore samples of vanishing": "C15", "gradient of estimator means": "C15", "probabilities of ExactSampler": "C11", "independent random numbers": "C12", "number of basis states per device": "C11",
        "return as many samples": "C13", "zero-magnetization updates": "C13", "propose valid and symmetric": "C13", "construct GRU cells": "C10", "periodic boundary conditions": "C06", "never treat networks": "C07", "evaluate POVM observables on 2D": "C05",
        "Monte Carlo errors in measure_povm": "C05", "do not write operator ids": "C05", "compute the documented covariance": "C14", "contract the sample dimension": "C14", "include the data of all devices": "C14",
        "estimator functions of operators": "C03", "take the logarithm of plain": "C03", "distribute the evaluation of many": "C01", "build the Jordan-Wigner mask": "C02", "pass positional arguments": "C01", "weights of importance sampling": "C12", "averaged probabilities of any magnitude": "C09", "large arguments in RBM": "C06", "couple the hidden units of RBM": "C06", "multiply operator strings with numpy": "C01", "negative real amplitudes": "C03", "sample states that are given": "C12", "gradients of the logarithm": "C07", "accept parameter trees": "C08", "decide whether a network is holomorphic": "C07"}
fixed = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        p = [v for k, v in PROP.items() if k in s]
        assert len(p) == 1, s
        fixed.append("fixed: property=%s %s %s" % (p[0], h, s[5:]))
with open(os.path.join(HERE, "known_findings.json"), "w") as f:
    json.dump({"open": OPEN, "fixed": fixed}, f, indent=1)
    f.write("\n")

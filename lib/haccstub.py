"""Stand-in for the haccytrees library (not installed): simulations, forests, chunks."""
import sys, types
import numpy as np


class Cosmo:
    def __init__(self, Omega_m, w0, wa, h):
        self.Omega_m, self.w0, self.wa, self.h = Omega_m, w0, wa, h


class Sim:
    def __init__(self, name, cosmo, nsteps):
        self.name, self.cosmo, self.nsteps = name, cosmo, nsteps
        self.cosmotools_steps = [int(x) for x in np.unique(np.linspace(40, 499, nsteps).astype(int))]

    def step2a(self, step):
        aini = 1 / 201.0
        return aini + (1 - aini) * (np.asarray(step, float) + 1) / 500.0

    def step2z(self, step):
        return 1.0 / self.step2a(step) - 1.0


FOREST = {}      # file name -> dict of matrices
LOG = []


def corematrix_reader(filename, calculate_secondary_host_row=False, nchunks=None, chunknum=None, simulation=None, **k):
    LOG.append((filename, nchunks, chunknum, getattr(simulation, "name", None)))
    d = FOREST[str(filename)]
    if nchunks is None:
        return {k: v.copy() for k, v in d.items()}
    return {k: np.array_split(v, nchunks)[chunknum].copy() for k, v in d.items()}


def install(sims):
    m = types.ModuleType("haccytrees")

    class Simulation:
        simulations = {s.name: s for s in sims if not s.name.endswith(".cfg")}

        @staticmethod
        def parse_config(p):
            return {s.name: s for s in sims}[p]
    m.Simulation = Simulation
    m.coretrees = types.ModuleType("haccytrees.coretrees")
    m.coretrees.corematrix_reader = corematrix_reader
    sys.modules["haccytrees"] = m
    sys.modules["haccytrees.coretrees"] = m.coretrees
    return m

"""Record the public members of the third-party modules the library uses
(run once by hand with the interpreter of the test environment; the table is
the oracle of C18 for names of other libraries)."""
import importlib
import json
import sys

MODULES = ["numpy", "numpy.linalg", "numpy.random", "torch", "torch.linalg", "torch.nn", "torch.nn.functional", "torch.special", "torch.optim",
           "torch.distributions", "scipy", "scipy.special", "scipy.optimize", "scipy.stats", "scipy.stats.qmc", "scipy.spatial", "scipy.linalg",
           "sklearn", "sklearn.neighbors", "sklearn.metrics", "hnswlib", "bayes_opt", "mpi4py", "mpi4py.MPI", "numbers", "typing", "collections",
           "collections.abc", "functools", "itertools", "math", "copy", "warnings", "time", "os", "sys", "inspect", "enum", "abc", "re", "pickle"]
out = json.load(open(sys.argv[1])) if len(sys.argv) > 2 else {}
for m in MODULES:
    try:
        mod = importlib.import_module(m)
    except ImportError:
        continue
    out.setdefault(m, [])
    out[m] = sorted(set(out[m]) | {x for x in dir(mod) if not x.startswith("_")} | {"__version__", "__name__", "__file__", "__doc__"})
json.dump(out, open(sys.argv[1], "w"), indent=0)

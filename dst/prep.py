"""One-off set up of a worker interpreter: import the code under test."""
import os
import sys

from dst import core


def prepare(base):
    for sub in ("mpl", "home"):
        os.makedirs(os.path.join(base, sub))
    os.environ["MPLCONFIGDIR"] = os.path.join(base, "mpl")
    os.environ["HOME"] = os.path.join(base, "home")
    os.environ["JUPYTER_DATA_DIR"] = os.path.join(base, "home", "jupyter")
    os.environ["IPYTHONDIR"] = os.path.join(base, "home", "ipython")
    sys.path.insert(0, core.REPO)
    from dst import sched
    sched.install_locks()
    import trappy
    if not os.path.abspath(trappy.__file__).startswith(os.path.abspath(core.REPO) + os.sep):
        raise RuntimeError("trappy came from %s" % trappy.__file__)
    # everything that is imported lazily, so that no import happens in a run
    import pandas, numpy, json, hashlib, re, tempfile, shutil, subprocess, uuid  # noqa
    import pandas.io.parsers, pandas.io.formats.csvs, pandas.io.common  # noqa
    import trappy.plotter, trappy.stats, trappy.wa, trappy.utils  # noqa
    import trappy.stats.grammar, trappy.stats.Aggregator, trappy.stats.Trigger  # noqa
    import trappy.stats.Topology, trappy.stats.Correlator, trappy.stats.Indexer  # noqa
    import trappy.plot_utils, trappy.compare_runs  # noqa
    from matplotlib import pyplot  # noqa
    # warm the lazy parts of pandas
    df = pandas.DataFrame({"a": [1, 2], "b": ["x", "y"], "c": [.5, 1.5]})
    import io
    buf = io.StringIO()
    df.to_csv(buf)
    pandas.read_csv(io.StringIO(buf.getvalue()))

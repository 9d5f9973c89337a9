CP = '_common_plot.py'
VARIANTS = []


def broken(name, *edits):
    VARIANTS.append(dict(name=name, props=['C28'], edits=edits, broken=True))


def fine(name, *edits):
    VARIANTS.append(dict(name=name, props=['C28'], edits=edits, broken=False))


IMP = "    # import is here s.t. the import of the package does not fail\n    # if matplotlib is not present\n    import matplotlib.pyplot as plt  # pylint: disable=import-outside-toplevel\n"
DEF = "def _setup_plot(limits, axis=None):\n"
DOC = '    """Sets up the figure axes and handles options common to all plots."""\n'
IO = 'io.py'
broken('im-top', (CP, IMP, ""), (CP, DEF, "import matplotlib.pyplot as plt\n\n\n" + DEF))
broken('im-try', (CP, DEF, "try:\n    import matplotlib\nexcept ImportError:\n    matplotlib = None\n\n\n" + DEF))
broken('im-3d', (CP, DEF, "from mpl_toolkits.mplot3d import Axes3D\n\n\n" + DEF))
broken('im-default', (CP, DEF, "def _pyplot():\n    import matplotlib.pyplot as plt\n    return plt\n\n\ndef _setup_plot(limits, axis=None, plt=_pyplot()):\n"), (CP, IMP, ""))
broken('im-class', (CP, DEF, "class _Backend:\n    from matplotlib import pyplot\n\n\n" + DEF))
broken('im-dyn', (CP, DEF, "import importlib\nplt = importlib.import_module('matplotlib.pyplot')\n\n\n" + DEF), (CP, IMP, ""))
broken('im-deco', (CP, DEF, "def _styled(func):\n    import matplotlib.style\n    return func\n\n\n@_styled\n" + DEF))
broken('im-cycler', (CP, DEF, "from cycler import cycler\n\n\n" + DEF))
broken('im-identify', ('identify/_dimension.py', "import scipy.linalg as la\n", "import scipy.linalg as la\nfrom matplotlib.path import Path\n"))
broken('im-load', (IO, "\nfrom fsc.hdf5_io import", "\nfrom matplotlib.cbook import flatten\nfrom fsc.hdf5_io import"))
broken('im-search', ('search/_controller.py', "            await self.create_tasks()\n", "            await self.create_tasks()\n            from ..search import plot\n            plot.points(self.state.result)\n"))
broken('im-method', ('search/result/_search_result_container.py', "    @property\n    def minimization_results(self):", "    def color_values(self):\n        import matplotlib.cm\n        return matplotlib.cm.viridis([n.value for n in self.nodes])\n\n    @property\n    def minimization_results(self):"))
broken('im-lazyident', ('identify/_evaluate/_run.py', "    if dim == 0:\n", "    _limits(coordinate_system)\n    if dim == 0:\n"), ('identify/_evaluate/_run.py', "@export\n", "def _limits(system):\n    from ..._common_plot import _setup_plot\n    return _setup_plot(system.limits)\n\n\n@export\n"))
fine('if-dead', ('identify/_evaluate/_run.py', "@export\n", "def _limits(system):\n    from ..._common_plot import _setup_plot\n    return _setup_plot(system.limits)\n\n\n@export\n"))
broken('im-logfile', ('_logging.py', "logging.StreamHandler(sys.stdout)", "logging.FileHandler('nodefinder.log')"))
broken('im-loop', ('search/_run.py', "@export\nasync def", "_LOOP = asyncio.new_event_loop()\n\n\n@export\nasync def"))
broken('im-loopdef', ('search/_controller.py', "class Controller:\n", "class Controller:\n    loop = asyncio.get_event_loop()\n\n"))
broken('im-open', ('__init__.py', "__version__ = '0.1.1'", "import pathlib\n__version__ = (pathlib.Path(__file__).parent / 'VERSION').read_text()"))
broken('im-cfg', ('_logging.py', "DEFAULT_HANDLER = ", "def _level():\n    with open('/etc/nodefinder.cfg') as f:\n        return f.read()\n\n\nMAIN_LOGGER.setLevel(_level())\nDEFAULT_HANDLER = "))
broken('im-modules', (CP, "    import matplotlib.pyplot as plt  # pylint: disable=import-outside-toplevel\n", "    import sys\n    plt = sys.modules['matplotlib.pyplot']\n"))
broken('im-run', ('search/__init__.py', "__all__ = ", "_CHECK = run(lambda x: 0., limits=[(0, 1)], initial_mesh_size=1)\n__all__ = "))

fine('if-helper', (CP, IMP, "    plt = _pyplot()\n"), (CP, DEF, "def _pyplot():\n    import matplotlib.pyplot as plt\n    return plt\n\n\n" + DEF))
fine('if-typing', (CP, DEF, "from typing import TYPE_CHECKING\nif TYPE_CHECKING:\n    import matplotlib.pyplot\n\n\n" + DEF))
fine('if-from', (CP, "    import matplotlib.pyplot as plt", "    from matplotlib import pyplot as plt"))
fine('if-dyn', (CP, "    import matplotlib.pyplot as plt", "    import importlib\n    plt = importlib.import_module('matplotlib.pyplot')"))
fine('if-modvar', (CP, DEF, "_plt = None\n\n\n" + DEF))
fine('if-std', ('_logging.py', "import logging\n", "import logging\nimport pathlib\nimport json\n"))
fine('if-plotmod', ('search/plot.py', "def _plot_simplex(", "def _colors(n):\n    import matplotlib.cm as cm\n    return cm.viridis(range(n))\n\n\ndef _plot_simplex("))
fine('if-ptype', ('search/plot.py', "import itertools\n", "import itertools\nimport functools\n"))
fine('if-log', ('_logging.py', "DEFAULT_HANDLER = logging.StreamHandler(sys.stdout)", "def _make_handler():\n    return logging.StreamHandler(sys.stdout)\n\n\nDEFAULT_HANDLER = _make_handler()"))
fine('if-plotmethod', ('search/result/_search_result_container.py', "    @property\n    def minimization_results(self):", "    def plot(self, **kwargs):\n        from ..plot import points\n        return points(self, **kwargs)\n\n    @property\n    def minimization_results(self):"))

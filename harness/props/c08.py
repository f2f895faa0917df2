"""C08: histories of backend switches with plugins and injected faults."""

import importlib
import os
import shutil
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import backends, catalog
from ..compare import close
from ..core import HarnessError, Suite, Violation, library
from ..gen import record, rng_of, seeds, weighted

suite = Suite(
    "C08",
    "Histories of 4-10 switches (numpy, jax, a stand-in cupy, unknown names) with plugins that "
    "register modules for the array, special-function and extra functions, found before or after "
    "the package's own entry points, and faults switched on and off: a plugin module that cannot "
    "be imported, a function that a backend lacks, cupy missing, broken or without cupyx. After "
    "every step the attributes of all registered modules, and model results, are compared with a "
    "model of the backend in force. Non-trivial: at least one real switch and one further step.",
    [
        "cupy is not installed here: a stand-in package re-exporting numpy is used for it, and only "
        "module attributes are judged while it is active",
        "a plugin that appears is judged from the next actual change of backend on",
    ],
)

INVALID = ["tensorflow", "", "NumPy", "numpy ", "jax.numpy", "cupyx", "np", None]
# functions every backend has here / that jax lacks / that no replacement applies to
SHARED = [
    "scipy.linalg.toeplitz", "scipy.linalg.cholesky", "scipy.special.gammaln",
    "numpy.linalg.norm", "numpy.fft.fft", "numpy.cumsum",
    "scipy.integrate.trapezoid", "scipy.interpolate.RegularGridInterpolator",
]
NEUTRAL = ["math.sqrt", "collections.OrderedDict", "os.path.join"]
LACKING = ["scipy.linalg.null_space", "numpy.nditer", "scipy.signal.savgol_filter",
           "scipy.ndimage.spline_filter", "numpy.testing.assert_allclose"]
# scipy functions the stand-in cupyx provides
CUPY_MODULES = ["special", "linalg", "integrate", "interpolate", "signal", "ndimage", "stats"]
NP = dict(numpy="numpy", jax="jax.numpy", cupy="cupy")
SP = dict(numpy="scipy", jax="jax.scipy", cupy="cupyx.scipy")


def module_strategy():
    return record(
        xp=st.booleans(),
        scs=st.booleans(),
        other=st.lists(
            weighted(st.sampled_from(SHARED), st.sampled_from(SHARED), st.sampled_from(NEUTRAL)),
            max_size=3, unique_by=lambda f: f.rsplit(".", 1)[1],
        ),
        lacking=weighted(*[st.none()] * 7, st.sampled_from(LACKING)),
        nested=st.booleans(),
    )


PLUGIN = record(
    modules=st.lists(module_strategy(), min_size=1, max_size=3),
    first=st.booleans(),
)
STEP = weighted(
    *[record(do=st.just("switch"), to=st.just("other"))] * 6,
    record(do=st.just("switch"), to=st.sampled_from(["numpy", "jax"])),
    *[record(do=st.just("switch"), to=st.just("cupy"))] * 2,
    record(do=st.just("switch"), to=st.sampled_from(INVALID)),
    record(do=st.just("break"), which=st.integers(0, 5)),
    record(do=st.just("break"), which=st.integers(0, 5)),
    record(do=st.just("repair")),
    record(do=st.just("cupy"), state=st.sampled_from(
        ["missing", "works", "works", "raises", "no cupyx", "no special"])),
    record(do=st.just("cupy"), state=st.just("works")),
    record(do=st.just("add"), plugin=PLUGIN),
    record(do=st.just("forget"), which=st.integers(0, 5)),
)
CASE = record(
    plugins=st.lists(PLUGIN, max_size=2),
    steps=st.lists(STEP, min_size=3, max_size=9),
    start=st.sampled_from(["numpy", "jax"]),
    seed=seeds(),
)


FAULTS = [ImportError, RuntimeError, AttributeError, ModuleNotFoundError, KeyError, SyntaxError]


class Plugins:
    """Scratch packages with entry points; faults are switched by a module of the harness."""

    counter = 0

    def __init__(self):
        self.base = tempfile.mkdtemp(prefix="gwp-plugins-")
        self.paths, self.names = [], []
        self.modules = {}  # name -> dict(xp, scs, other)
        self.broken = set()
        self.tag = f"{os.getpid()}x{Plugins.counter}"
        Plugins.counter += 1
        sys.modules["gwp_faults_" + self.tag] = self
        self.cupy = "missing"
        self.cupy_dir = None

    def check(self, name):
        if name in self.broken:
            raise FAULTS[len(self.names) % len(FAULTS)](f"injected: {name} cannot be imported")

    def add(self, plugin):
        k = len(self.paths)
        dist = f"gwpplug{self.tag}n{k}"
        folder = os.path.join(self.base, dist)
        info = os.path.join(folder, f"{dist}-1.0.dist-info")
        os.makedirs(info)
        groups = dict(xp=[], scs=[], other=[])
        for ii, mod in enumerate(plugin["modules"]):
            if mod["nested"]:
                name = f"{dist}_pkg{ii}.sub"
                os.makedirs(os.path.join(folder, f"{dist}_pkg{ii}"))
                open(os.path.join(folder, f"{dist}_pkg{ii}", "__init__.py"), "w").close()
            else:
                name = f"{dist}_mod{ii}"
            path = os.path.join(folder, *name.split(".")) + ".py"
            with open(path, "w") as ff:
                ff.write(f"import gwp_faults_{self.tag} as f\nf.check({name!r})\n")
            other = list(mod["other"])
            if mod["lacking"]:
                other.append(mod["lacking"])
            if mod["xp"]:
                groups["xp"].append((f"{dist}_{ii}", name))
            if mod["scs"]:
                groups["scs"].append((f"{dist}_{ii}", name))
            for jj, func in enumerate(other):
                groups["other"].append((f"{dist}_{ii}_{jj}", f"{name}:{func}"))
            self.modules[name] = dict(xp=mod["xp"], scs=mod["scs"], other=other)
            self.names.append(name)
        with open(os.path.join(info, "METADATA"), "w") as ff:
            ff.write(f"Metadata-Version: 2.1\nName: {dist}\nVersion: 1.0\n")
        with open(os.path.join(info, "entry_points.txt"), "w") as ff:
            for group, entries in groups.items():
                ff.write(f"[gwpopulation.{group}]\n")
                ff.writelines(f"{key} = {value}\n" for key, value in entries)
        self.paths.append(folder)
        sys.path.insert(0, folder) if plugin["first"] else sys.path.append(folder)
        importlib.invalidate_caches()

    def set_cupy(self, state):
        self.drop_cupy()
        self.cupy = state
        if state == "missing":
            return
        folder = self.cupy_dir = tempfile.mkdtemp(prefix="cupy", dir=self.base)
        os.makedirs(os.path.join(folder, "cupy", "linalg"))
        os.makedirs(os.path.join(folder, "cupy", "fft"))
        with open(os.path.join(folder, "cupy", "__init__.py"), "w") as ff:
            if state == "raises":
                ff.write("raise ImportError('injected: no CUDA')\n")
            ff.write("from numpy import *\n")
            if state == "works":
                ff.write("from numpy import nditer, testing\n")
        for sub in ("linalg", "fft"):
            with open(os.path.join(folder, "cupy", sub, "__init__.py"), "w") as ff:
                ff.write(f"from numpy.{sub} import *\n")
        if state != "no cupyx":
            top = os.path.join(folder, "cupyx", "scipy")
            os.makedirs(top)
            open(os.path.join(folder, "cupyx", "__init__.py"), "w").close()
            with open(os.path.join(top, "__init__.py"), "w") as ff:
                if state != "no special":
                    ff.write("from . import special\n")
            for sub in CUPY_MODULES:
                if state == "no special" and sub == "special":
                    continue
                os.makedirs(os.path.join(top, sub))
                with open(os.path.join(top, sub, "__init__.py"), "w") as ff:
                    ff.write(f"from scipy.{sub} import *\n")
        sys.path.append(folder)
        importlib.invalidate_caches()

    def drop_cupy(self):
        if self.cupy_dir:
            sys.path.remove(self.cupy_dir)
            shutil.rmtree(self.cupy_dir)
            self.cupy_dir = None
        for name in list(sys.modules):
            if name.split(".")[0] in ("cupy", "cupyx"):
                del sys.modules[name]
        importlib.invalidate_caches()

    def forget(self, name):
        """As in a process which has not imported this module yet."""
        sys.modules.pop(name, None)

    def close(self):
        for folder in self.paths:
            if folder in sys.path:
                sys.path.remove(folder)
        self.drop_cupy()
        for name in list(sys.modules):
            if self.tag in name:
                del sys.modules[name]
        shutil.rmtree(self.base, ignore_errors=True)
        importlib.invalidate_caches()


def resolve(func, backend):
    """The function of the backend that an entry 'scipy.a.b' stands for."""
    for prefix, table in (("scipy", SP), ("numpy", NP)):
        if func.startswith(prefix + "."):
            func = table[backend] + func[len(prefix):]
    module, name = func.rsplit(".", 1)
    return getattr(importlib.import_module(module), name)


def available(func, backend):
    try:
        resolve(func, backend)
    except Exception:
        return False
    return True


PACKAGE_XP = [
    "gwpopulation.hyperpe", "gwpopulation.models.interped", "gwpopulation.models.mass",
    "gwpopulation.models.redshift", "gwpopulation.models.spin", "gwpopulation.utils",
    "gwpopulation.vt", "gwpopulation.experimental.cosmo_models",
]
PACKAGE_SCS = ["gwpopulation.models.mass", "gwpopulation.utils"]


def registered():
    """The package's modules, as far as they exist in this version of the package."""
    from importlib.metadata import entry_points

    xp = [e.value for e in entry_points(group="gwpopulation.xp")]
    scs = [e.value for e in entry_points(group="gwpopulation.scs")]
    if not set(PACKAGE_XP) <= set(xp) or not set(PACKAGE_SCS) <= set(scs):
        raise HarnessError("the package's own entry points are not visible")


def observe(plugins, tracked, active, what):
    """Every registered module has the functions of the active backend."""
    xp = importlib.import_module(NP[active])
    scs = importlib.import_module(SP[active] + ".special")
    for name in PACKAGE_XP:
        if getattr(importlib.import_module(name), "xp", None) is not xp:
            raise Violation(f"{what}: {name}.xp is not that of {active}")
    for name in PACKAGE_SCS:
        if getattr(importlib.import_module(name), "scs", None) is not scs:
            raise Violation(f"{what}: {name}.scs is not that of {active}")
    for name in tracked:
        module, entry = tracked[name], plugins.modules[name]
        if entry["xp"] and getattr(module, "xp", None) is not xp:
            raise Violation(f"{what}: xp of plugin module {name} is not that of {active}")
        if entry["scs"] and getattr(module, "scs", None) is not scs:
            raise Violation(f"{what}: scs of plugin module {name} is not that of {active}")
        for func in entry["other"]:
            if getattr(module, func.rsplit(".", 1)[1], None) is not resolve(func, active):
                raise Violation(f"{what}: {func} of plugin module {name} is not that of {active}")


def evaluate_models(case, active, what):
    if active == "cupy":
        return
    import gwpopulation.utils as utils

    rng = rng_of(case["seed"])
    x = rng.uniform(1, 20, 5)
    kind = importlib.import_module(NP[active]).ndarray
    given = importlib.import_module(NP[active]).asarray(x)
    with library(what):
        value = utils.powerlaw(given, -2.0, 30.0, 2.0)
        tilt = utils.truncnorm(given, 5.0, 3.0, 18.0, 2.0)
    if not isinstance(value, kind) or not isinstance(tilt, kind):
        raise Violation(f"{what}: results are {type(value).__name__}, not arrays of {active}")
    if value.dtype != np.float64 or given.dtype != np.float64:
        raise Violation(f"{what}: results are not in double precision")
    close(value, catalog.oracle.powerlaw(x, -2.0, 30.0, 2.0), what + ": power law", rtol=1e-6)
    close(tilt, catalog.oracle.truncnorm(x, 5.0, 3.0, 18.0, 2.0), what + ": normal", rtol=1e-5)


@suite.check(CASE, quick=1000)
def history(case):
    """The model: the active backend, and the plugin modules seen by the last change."""
    import gwpopulation

    backends.use("numpy")
    registered()
    plugins = Plugins()
    labels = set()
    try:
        for plugin in case["plugins"]:
            plugins.add(plugin)
        active, tracked = "numpy", {}
        changes = steps = 0
        # plugins that cannot be imported before the first change are a fault, too
        for ii, step in enumerate([dict(do="switch", to=case["start"])] + case["steps"]):
            what = f"step {ii} ({step}) with {active} active"
            do = step["do"]
            if do == "add":
                plugins.add(step["plugin"])
                continue
            if do == "break":
                if plugins.names:
                    name = plugins.names[step["which"] % len(plugins.names)]
                    if name not in tracked:
                        plugins.broken.add(name)
                    elif step["which"] % 2:
                        # only while the module has to be imported again
                        plugins.broken.add(name)
                        plugins.forget(name)
                continue
            if do == "repair":
                plugins.broken.clear()
                continue
            if do == "forget":
                if plugins.names:
                    plugins.forget(plugins.names[step["which"] % len(plugins.names)])
                continue
            if do == "cupy":
                if active != "cupy":
                    plugins.set_cupy(step["state"])
                continue
            to = step["to"]
            if to == "other":
                to = "numpy" if active == "jax" else "jax"
            steps += 1
            fault = None
            if to not in ("numpy", "jax", "cupy"):
                fault = (ValueError,)
                labels.add("unknown backend")
            elif to == active:
                labels.add("same backend")
            elif to == "cupy" and plugins.cupy != "works":
                fault = {
                    "missing": (ModuleNotFoundError,), "no cupyx": (ModuleNotFoundError,),
                    "raises": (ImportError,), "no special": (Exception,),
                }[plugins.cupy]
                labels.add(f"cupy {plugins.cupy}")
            else:
                bad = [n for n in plugins.broken if n not in sys.modules and (
                    plugins.modules[n]["xp"] or plugins.modules[n]["scs"]
                    or plugins.modules[n]["other"])]
                lacking = [f for m in plugins.modules.values() for f in m["other"]
                           if not available(f, to)]
                if bad or lacking:
                    fault = (Exception,)
                    labels.add("import fault" if bad else "missing function")
            try:
                gwpopulation.set_backend(to)
                failed = None
            except Exception as exc:
                failed = exc
            if fault is None and failed is not None:
                raise Violation(f"{what}: {type(failed).__name__}: {failed}")
            if fault is not None:
                if failed is None:
                    raise Violation(f"{what}: accepted, expected {fault[0].__name__}")
                if not isinstance(failed, fault):
                    raise Violation(
                        f"{what}: {type(failed).__name__} instead of {fault[0].__name__}"
                    )
            elif to != active:
                active = to
                changes += 1
                labels.add(f"to {to}")
                tracked = {
                    n: sys.modules[n] for n in plugins.names
                    if any(plugins.modules[n].values()) and n in sys.modules
                }
                absent = [n for n in plugins.names
                          if any(plugins.modules[n].values()) and n not in sys.modules]
                if absent:
                    raise Violation(f"{what}: plugin module {absent[0]} was not imported")
            observe(plugins, tracked, active, what)
            evaluate_models(case, active, what)
        return changes > 0 and steps > 1, sorted(labels)
    finally:
        try:
            gwpopulation.set_backend("numpy")
        except Exception:
            plugins.broken.clear()
        plugins.close()
        force_numpy(gwpopulation)


def force_numpy(gwpopulation):
    """Bring the package back to numpy without the plugins."""
    for name in ("jax", "numpy"):
        try:
            gwpopulation.set_backend(name)
        except Exception:
            pass

"""Runs the Python utilities of the repository on request, their random draws and file operations under control.

usage: utils_worker.py UTILS_DIR SCRATCH_DIR
One job per input line (JSON); each answer is one line of JSON.
The sources are read before privileges are dropped; afterwards only SCRATCH_DIR can be written.
"""
import builtins, importlib.abc, importlib.util, io, json, os, random, shutil, signal, sys, types
import contextlib
import xml.etree.ElementTree, xml.dom.minidom  # noqa: imported before privileges are dropped
import numpy as np
import numpy.linalg, numpy.random  # noqa

sys.dont_write_bytecode = True
UTILS, SCRATCH = sys.argv[1], os.path.realpath(sys.argv[2])
SOURCES = {}
for f in sorted(os.listdir(UTILS)):
    if f.endswith(".py"):
        with open(os.path.join(UTILS, f)) as fp:
            SOURCES[f[:-3]] = compile(fp.read(), os.path.join(UTILS, f), "exec")
os.chdir(SCRATCH)
if os.getuid() == 0:
    try:
        os.chown(SCRATCH, 65534, 65534)
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    except OSError:
        pass  # a user namespace without other users: the guards below remain


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name in SOURCES:
            return importlib.util.spec_from_loader(name, self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(SOURCES[module.__name__], module.__dict__)


sys.meta_path.insert(0, Finder())

# the exact solver of simple_gen.py is not installed; its result is not used by it
tsp = types.ModuleType("python_tsp")
tsp.exact = types.ModuleType("python_tsp.exact")
tsp.exact.solve_tsp_dynamic_programming = lambda m, *a, **k: (list(range(len(m))), float(sum(m[i][(i + 1) % len(m)] for i in range(len(m)))))
sys.modules["python_tsp"] = tsp
sys.modules["python_tsp.exact"] = tsp.exact


class Escaped(Exception):
    pass


def inside(p):
    if isinstance(p, int):
        return
    r = os.path.realpath(os.fspath(p))
    if r != SCRATCH and not r.startswith(SCRATCH + os.sep):
        raise Escaped("changes the file system outside its working directory: " + os.fspath(p))


def guard_first(mod, name):
    real = getattr(mod, name)

    def g(path, *a, **k):
        inside(path)
        return real(path, *a, **k)

    setattr(mod, name, g)


for mod, names in ((shutil, ["rmtree"]), (os, ["remove", "unlink", "rmdir", "removedirs", "rename", "replace", "mkdir", "makedirs", "truncate", "chmod"])):
    for name in names:
        guard_first(mod, name)
real_open = io.open


def guarded_open(file, mode="r", *a, **k):
    if any(ch in mode for ch in "wax+"):
        inside(file)
    return real_open(file, mode, *a, **k)


builtins.open = io.open = guarded_open

# random draws
script, drawn = [], 0


def draw():
    global drawn
    v = script[drawn] if drawn < len(script) else ((drawn * 0.6180339887498949) % 1.0)
    drawn += 1
    return v


def floats(size=None):
    if size is None or size == ():
        return draw()
    shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
    return np.array([draw() for _ in range(int(np.prod(shape)))], dtype=float).reshape(shape)


def uniform(low=0.0, high=1.0, size=None):
    return low + (high - low) * floats(size)


def randint(low, high=None, size=None, dtype=int, endpoint=False):
    if high is None:
        low, high = 0, low
    if endpoint:
        high += 1
    v = np.floor(low + (high - low) * np.asarray(floats(size))).astype(dtype)
    return int(v) if size is None else v


class Generator:
    random = staticmethod(lambda size=None, dtype=float, out=None: floats(size))
    uniform = staticmethod(uniform)
    integers = staticmethod(randint)
    rand = staticmethod(lambda *shape: floats(shape))
    random_sample = staticmethod(floats)
    randint = staticmethod(randint)


np.random.rand = lambda *shape: floats(shape)
np.random.random = np.random.random_sample = np.random.ranf = np.random.sample = floats
np.random.uniform = uniform
np.random.randint = randint
np.random.seed = lambda *a, **k: None
np.random.default_rng = lambda *a, **k: Generator()
np.random.RandomState = lambda *a, **k: Generator()
random.random = draw
random.uniform = lambda a, b: a + (b - a) * draw()
random.randint = lambda a, b: randint(a, b + 1)
random.randrange = lambda a, b=None: randint(a, b)
random.seed = lambda *a, **k: None


def forget():
    for name in SOURCES:
        sys.modules.pop(name, None)


def tree(root):
    files = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, errors="replace") as fp:
                files[os.path.relpath(p, root)] = fp.read()
    return files


def clean():
    for e in os.listdir(SCRATCH):
        p = os.path.join(SCRATCH, e)
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)


def run_main(name, args):
    forget()
    sys.argv = [name + ".py"] + args
    g = {"__name__": "__main__", "__builtins__": builtins, "__file__": os.path.join(UTILS, name + ".py")}
    out = io.StringIO()
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            exec(SOURCES[name], g)
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except (Escaped, TimeoutError):
        raise
    except Exception as e:  # as the interpreter does: a traceback and status 1
        return 1, out.getvalue(), type(e).__name__ + ": " + str(e)
    return code, out.getvalue(), ""


def namespace(name):
    forget()
    g = {"__name__": name, "__builtins__": builtins, "__file__": os.path.join(UTILS, name + ".py")}
    exec(SOURCES[name], g)
    return g


spaces = {}


def module(name):
    if name not in spaces:
        spaces[name] = namespace(name)
    return spaces[name]


def job(j):
    global script, drawn
    script, drawn = j.get("draws", []), 0
    kind = j["kind"]
    if kind == "main":
        clean()
        for name, text in j.get("before", {}).items():
            os.makedirs(os.path.dirname(os.path.join(SCRATCH, name)) or SCRATCH, exist_ok=True)
            with open(os.path.join(SCRATCH, name), "w") as fp:
                fp.write(text)
        code, out, why = run_main(j["program"], j["args"])
        return {"code": code, "out": out, "files": tree(SCRATCH), "drawn": drawn, "why": why}
    if kind == "rust":
        m = np.array(j["matrix"], dtype=int if j["int"] else float)
        with contextlib.redirect_stdout(io.StringIO()):
            return {"out": str(module("tsp_logic")["convert_to_rust_code"](m))}
    if kind == "xml":
        m = np.array(j["matrix"], dtype=float)
        return {"out": str(module("tsp_logic")["convert_to_xml"](m))}
    if kind == "nn":
        m = np.array(j["matrix"], dtype=int if j["int"] else float)
        with contextlib.redirect_stdout(io.StringIO()):
            path, cost = module("NN_approx")["tsp_nearest_neighbour"](m, j["start"])
        return {"path": [int(x) for x in path], "cost": float(cost)}
    if kind == "ints":
        m = module("NN_approx")["generate_graph_matrix"](j["n"])
        return {"matrix": [[float(x) for x in row] for row in m]}
    raise ValueError(kind)


def late(*a):
    raise TimeoutError("does not finish within 30 s")


signal.signal(signal.SIGALRM, late)
stdin, stdout = sys.stdin, sys.stdout
for line in stdin:
    j = json.loads(line)
    signal.alarm(30)
    try:
        r = job(j)
    except Exception as e:  # the utility's own failure
        r = {"error": type(e).__name__ + ": " + str(e)}
    signal.alarm(0)
    stdout.write(json.dumps(r) + "\n")
    stdout.flush()

"""Stand-ins for gmsh, meshio, DOLFINx, UFL and mpi4py, none of which is installed here.

They model what the FEniCS backend relies on: a mesher that reads the STEP file it is told to and writes
a mesh, a converter, and a linear solver whose solution follows from the geometry, load, stiffness and
constraints it is really given.  ``SIM["mode"]`` makes a stage fail; files go through open(), so disk
faults reach them.  A STEP file is JSON {"dims": [x, y, z]} here.
"""
import json
import math
import sys
import types

SIM = {"mode": "ok", "disp": 1.0}
_gm = {}


class Broken(Exception):
    pass


class E:
    """UFL expression: only remembers the constants in it."""

    def __init__(self, *parts):
        self.consts = []
        for p in parts:
            if isinstance(p, E):
                self.consts += p.consts

    def _two(self, o):
        return E(self, o)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __call__ = __pow__ = _two

    def __neg__(self):
        return E(self)

    def __len__(self):
        return 3

    def __getitem__(self, i):
        return E(self)


class Constant(E):
    def __init__(self, domain, value):
        super().__init__()
        self.value = value
        self.consts = [self]


class NS(types.SimpleNamespace):
    pass


def _expr(*a, **k):
    return E(*a, *k.values())


def _ufl():
    m = types.ModuleType("ufl")
    for n in ("sym grad nabla_div nabla_grad div Identity TrialFunction TestFunction inner dot tr dev sqrt Measure lhs rhs as_vector "
              "as_matrix outer det inv").split():
        setattr(m, n, _expr)
    m.dx, m.ds = E(), E()
    return m


class Function(E):
    def __init__(self, V=None, name="f", array=None):
        super().__init__()
        import numpy as np
        self.name = name
        self.x = NS(array=np.zeros(12) if array is None else array)
        self.function_space = V

    def interpolate(self, expr):
        import numpy as np
        self.x.array = np.array([0.25, -1.0, 0.5]) * SIM["stress"]


def _solve(a, L, bcs):
    import numpy as np
    if SIM["mode"] == "rc":
        raise Broken("PETSc error 76")
    load = [c.value for c in L.consts if hasattr(c.value, "__len__") and any(c.value)]
    stiff = sum(float(c.value) for c in {id(c): c for c in a.consts}.values())
    p = math.sqrt(sum(float(x) ** 2 for v in load for x in v))
    h = SIM["height"]
    SIM["stress"] = p
    d = SIM["disp"] * p * h / stiff
    if not bcs or SIM["mode"] == "nan":      # nothing holds the part: the matrix is singular
        d = SIM["stress"] = float("nan")
    return Function(None, "u", np.array([0.0, 0.0, 0.0, 0.0, 0.6 * d, -0.8 * d, 0.0, 0.1 * d, 0.0]))


class LinearProblem:
    def __init__(self, a, L, bcs=(), **k):
        self.args = (a, L, list(bcs))

    def solve(self):
        return _solve(*self.args)


class XDMFFile:
    def __init__(self, comm, path, mode, *a):
        self.f = open(path, mode)
        self.mode = mode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def read_mesh(self, name="Grid", *a, **k):
        import numpy as np
        x, y, z = json.loads(self.f.read())["dims"]
        SIM["height"] = z
        pts = np.array([[i * x, j * y, k * z] for i in (0, 1) for j in (0, 1) for k in (0, 1)], dtype=float)
        mids = np.array([[0, y / 2, z / 2], [x, y / 2, z / 2], [x / 2, 0, z / 2], [x / 2, y, z / 2], [x / 2, y / 2, 0], [x / 2, y / 2, z]]).T
        top = NS(dim=3, index_map=lambda d: NS(size_local=6 if d == 2 else 8), create_connectivity=lambda *a: None)
        return NS(topology=top, geometry=NS(x=pts, dim=3), mids=mids, comm=None)

    def write_mesh(self, d, *a, **k):
        self.f.write("<mesh/>\n")

    def write_function(self, f, *a, **k):
        self.f.write(f"<{f.name}>{list(map(float, f.x.array))}</{f.name}>\n")


def _locate(domain, fdim, marker):
    import numpy as np
    return np.nonzero(np.asarray(marker(domain.mids)))[0].astype(np.int32)


def _dolfinx():
    import numpy as np
    d = types.ModuleType("dolfinx")
    fem, mesh, io, petsc = (types.ModuleType("dolfinx." + n) for n in ("fem", "mesh", "io", "fem.petsc"))
    d.fem, d.mesh, d.io, fem.petsc = fem, mesh, io, petsc
    d.__path__ = fem.__path__ = []
    d.default_scalar_type = np.float64

    d.default_scalar_type = np.float64
    fem.Constant = Constant
    fem.Function = Function
    fem.FunctionSpace = fem.functionspace = lambda dom, *a: NS(domain=dom, element=NS(interpolation_points=None))
    fem.Expression = lambda e, pts: e
    fem.dirichletbc = lambda *a: ("bc", len(a))
    fem.locate_dofs_topological = lambda V, fdim, facets: facets
    fem.assemble_scalar = lambda *a: 0.0
    fem.form = lambda x: x
    petsc.LinearProblem = LinearProblem
    mesh.locate_entities_boundary = _locate
    mesh.meshtags = lambda *a: NS()
    io.XDMFFile = XDMFFile
    return d, fem, mesh, io, petsc


def _gmsh():
    m = types.ModuleType("gmsh")

    def init(*a):
        if SIM["mode"] == "late_init":
            raise Broken("gmsh: cannot initialise")
        _gm.clear()

    def shapes(path, *a, **k):
        with open(path) as f:
            _gm["dims"] = json.load(f)["dims"]
        return [(3, 1)]

    def generate(dim=3):
        if SIM["mode"] == "empty":
            raise Broken("PLC Error: A segment and a facet intersect")
        _gm["mesh"] = dim

    def write(path):
        with open(path, "w") as f:
            f.write(json.dumps({"dims": _gm["dims"], "tets": _gm.get("mesh") == 3 and SIM["mode"] != "nodat"}))
    nop = lambda *a, **k: None
    m.initialize, m.finalize, m.write, m.merge = init, _gm.clear, write, shapes
    m.option = NS(setNumber=nop, setString=nop)
    m.model = NS(add=lambda n: None, occ=NS(importShapes=shapes, synchronize=nop, healShapes=nop, removeAllDuplicates=nop),
                 getEntities=lambda dim=-1: [] if "dims" not in _gm else [(dim, i) for i in range(1, {0: 9, 1: 13, 2: 7, 3: 2}.get(dim, 2))],
                 addPhysicalGroup=lambda dim, tags, *a: 1, setPhysicalName=nop,
                 mesh=NS(setSize=nop, generate=generate, optimize=nop, field=NS(add=nop, setNumber=nop, setNumbers=nop, setString=nop)))
    return m


def _meshio():
    m = types.ModuleType("meshio")

    def read(path, *a):
        with open(path) as f:
            d = json.loads(f.read())
        return NS(points=d["dims"], cells=[NS(type="triangle", data=[])] + ([NS(type="tetra", data=[1])] if d["tets"] else []))

    def write(path, mesh, *a):
        with open(path, "w") as f:
            f.write(json.dumps({"dims": mesh.points}))
    m.read, m.write = read, write
    m.Mesh = lambda points, cells, **k: NS(points=points, cells=cells)
    return m


def install():
    d, fem, mesh, io, petsc = _dolfinx()
    mpi = types.ModuleType("mpi4py")
    mpi.MPI = NS(COMM_WORLD=None)
    sys.modules.update({"gmsh": _gmsh(), "meshio": _meshio(), "ufl": _ufl(), "mpi4py": mpi, "dolfinx": d, "dolfinx.fem": fem,
                        "dolfinx.mesh": mesh, "dolfinx.io": io, "dolfinx.fem.petsc": petsc})


def displacement(dims, pressure_pa, disp, E_pa=68.9e9, nu=0.33):
    lam, mu = E_pa * nu / ((1 + nu) * (1 - 2 * nu)) * 1e-6, E_pa / (2 * (1 + nu)) * 1e-6
    return disp * pressure_pa * 1e-6 * dims[2] / (lam + mu)

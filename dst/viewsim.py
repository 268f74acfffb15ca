"""Stand-ins for VTK, Flask and Flask-SocketIO: scene graph, request routing and socket delivery in memory.

They keep the semantics the viewer relies on (matrix order of vtkTransform,
bounds of transformed actors, writers that report errors through an error code
instead of raising, strict argument types, Flask's answers to bad bodies and to
handlers that raise) and nothing else.  A call that is not modelled ends the
run as "unsupported": it is never judged.
"""
from __future__ import annotations

import hashlib
import io
import json
import math
import re
import struct
import sys
import threading
import types


class Unsupported(BaseException):
    pass


# ---------------------------------------------------------------- linear algebra
def ident():
    return [[1.0 if i == j else 0.0 for j in range(4)] for i in range(4)]


def matmul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(4)) for j in range(4)] for i in range(4)]


def translation(x, y, z):
    m = ident()
    m[0][3], m[1][3], m[2][3] = x, y, z
    return m


def apply_pt(m, p):
    return tuple(m[i][0] * p[0] + m[i][1] * p[1] + m[i][2] * p[2] + m[i][3] for i in range(3))


def box_of(m, b):
    """Bounds of box b = (x0,x1,y0,y1,z0,z1) after matrix m."""
    pts = [apply_pt(m, (x, y, z)) for x in b[:2] for y in b[2:4] for z in b[4:]]
    return tuple(f(p[i] for p in pts) for i in range(3) for f in (min, max))


def num(v):
    if isinstance(v, bool):
        return float(v)
    if isinstance(v, (int, float)):
        return float(v)
    if hasattr(v, "__float__") and not isinstance(v, (str, bytes)):
        return float(v)
    raise TypeError(f"a float is required, not {type(v).__name__}")


def nums(a, n):
    if len(a) == 1 and isinstance(a[0], (list, tuple)):
        a = a[0]
    if len(a) != n:
        raise TypeError(f"expected {n} values, got {len(a)}")
    return tuple(num(x) for x in a)


# ---------------------------------------------------------------- VTK
class VObj:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"{type(self).__name__}.{name}")

    def Modified(self):
        pass


class Quiet(VObj):
    """Labels, styles: nothing depends on them."""
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: Quiet()


class vtkMatrix4x4(VObj):
    def __init__(self):
        self.m = ident()

    def SetElement(self, i, j, v):
        self.m[i][j] = num(v)

    def GetElement(self, i, j):
        return self.m[i][j]

    def Identity(self):
        self.m = ident()

    def Zero(self):
        self.m = [[0.0] * 4 for _ in range(4)]

    def DeepCopy(self, o):
        self.m = mat(o)


def mat(o):
    if isinstance(o, vtkMatrix4x4):
        return [r[:] for r in o.m]
    if isinstance(o, vtkTransform):
        return [r[:] for r in o.m]
    f = nums((o,), 16)
    return [list(f[i * 4:i * 4 + 4]) for i in range(4)]


class vtkTransform(VObj):
    def __init__(self):
        self.m = ident()
        self.pre = True

    def PreMultiply(self):
        self.pre = True

    def PostMultiply(self):
        self.pre = False

    def Identity(self):
        self.m = ident()

    def _cat(self, t):
        self.m = matmul(self.m, t) if self.pre else matmul(t, self.m)

    def Concatenate(self, o):
        self._cat(mat(o))

    def Translate(self, *a):
        self._cat(translation(*nums(a, 3)))

    def Scale(self, *a):
        s = nums(a, 3)
        self._cat([[s[i] if i == j and i < 3 else float(i == j) for j in range(4)] for i in range(4)])

    def _rot(self, i, j, deg):
        m = ident()
        c, s = math.cos(math.radians(num(deg))), math.sin(math.radians(num(deg)))
        m[i][i] = m[j][j] = c
        m[i][j], m[j][i] = -s, s
        self._cat(m)

    def RotateX(self, d):
        self._rot(1, 2, d)

    def RotateY(self, d):
        self._rot(2, 0, d)

    def RotateZ(self, d):
        self._rot(0, 1, d)

    def SetMatrix(self, *a):
        self.m = mat(a[0]) if len(a) == 1 else mat(list(a))

    def DeepCopy(self, o):
        self.m = mat(o)

    def GetMatrix(self, out=None):
        m = out if out is not None else vtkMatrix4x4()
        m.m = [r[:] for r in self.m]
        return m

    def GetPosition(self):
        return (self.m[0][3], self.m[1][3], self.m[2][3])

    def TransformPoint(self, *a):
        return apply_pt(self.m, nums(a, 3))

    def Update(self):
        pass


class vtkPolyData(VObj):
    def __init__(self, pts=()):
        self.pts = list(pts)

    def GetNumberOfPoints(self):
        return len(self.pts)

    def GetNumberOfCells(self):
        return len(self.pts) // 3

    GetNumberOfPolys = GetNumberOfCells

    def GetBounds(self):
        if not self.pts:
            return (1.0, -1.0, 1.0, -1.0, 1.0, -1.0)
        return tuple(f(p[i] for p in self.pts) for i in range(3) for f in (min, max))


def stl_points(data):
    """Vertices of an ASCII or binary STL file; [] when it is not one."""
    if len(data) >= 84:
        n = struct.unpack_from("<I", data, 80)[0]
        if len(data) == 84 + 50 * n:
            out = []
            for k in range(n):
                f = struct.unpack_from("<12f", data, 84 + 50 * k)
                out += [f[3:6], f[6:9], f[9:12]]
            return out
    if data.lstrip()[:5] == b"solid":
        v = re.findall(rb"vertex\s+(\S+)\s+(\S+)\s+(\S+)", data)
        try:
            out = [tuple(float(x) for x in t) for t in v]
        except ValueError:
            return []
        return out[: len(out) // 3 * 3]
    return []


class vtkSTLReader(VObj):
    def __init__(self):
        self.fn, self.err, self.out = None, 0, vtkPolyData()

    def SetFileName(self, f):
        if f is not None and not isinstance(f, str):
            raise TypeError("SetFileName argument 1: expected str")
        self.fn = f

    def GetFileName(self):
        return self.fn

    def Update(self):
        try:
            with io.open(self.fn, "rb") as f:
                data = f.read()
        except OSError:
            self.err, self.out = 2, vtkPolyData()
            return
        pts = stl_points(data)
        self.err, self.out = (0 if pts else 3), vtkPolyData(pts)

    def GetErrorCode(self):
        return self.err

    def GetOutput(self):
        return self.out

    def GetOutputPort(self):
        return self


class vtkPolyDataMapper(VObj):
    def __init__(self):
        self.d = vtkPolyData()

    def SetInputData(self, d):
        self.d = d

    def SetInputConnection(self, port):
        port.Update()
        self.d = port.GetOutput()

    def GetInput(self):
        return self.d

    def Update(self):
        pass

    def GetBounds(self):
        return self.d.GetBounds()

    def ScalarVisibilityOff(self):
        pass


class vtkProperty(VObj):
    def __init__(self):
        self.color, self.opacity, self.ambient = (1.0, 1.0, 1.0), 1.0, 0.0

    def SetColor(self, *a):
        self.color = tuple(min(1.0, max(0.0, x)) for x in nums(a, 3))

    SetDiffuseColor = SetColor

    def GetColor(self):
        return self.color

    def SetOpacity(self, v):
        self.opacity = min(1.0, max(0.0, num(v)))

    def GetOpacity(self):
        return self.opacity

    def SetAmbient(self, v):
        self.ambient = min(1.0, max(0.0, num(v)))

    def GetAmbient(self):
        return self.ambient

    def _no(self, *a):
        pass

    SetInterpolationToPhong = SetInterpolationToGouraud = SetInterpolation = SetDiffuse = SetSpecular = SetSpecularPower = EdgeVisibilityOn = _no


class vtkActor(VObj):
    def __init__(self):
        self.prop, self.mapper, self.t, self.pos, self.vis = vtkProperty(), vtkPolyDataMapper(), None, (0.0, 0.0, 0.0), 1

    def SetMapper(self, m):
        self.mapper = m

    def GetMapper(self):
        return self.mapper

    def GetProperty(self):
        return self.prop

    def SetUserTransform(self, t):
        self.t = t

    def GetUserTransform(self):
        return self.t

    def SetUserMatrix(self, m):
        if m is None:
            self.t = None
        else:
            t = vtkTransform()
            t.m = m.m                    # VTK keeps the matrix itself
            self.t = t

    def GetUserMatrix(self):
        return None if self.t is None else self.t.GetMatrix()

    def matrix(self):
        m = translation(*self.pos)
        return matmul(self.t.m, m) if self.t is not None else m

    def GetMatrix(self, out=None):
        o = out if out is not None else vtkMatrix4x4()
        o.m = self.matrix()
        return o

    def SetPosition(self, *a):
        self.pos = nums(a, 3)

    def GetPosition(self):
        return self.pos

    def AddPosition(self, *a):
        self.pos = tuple(x + y for x, y in zip(self.pos, nums(a, 3)))

    def SetVisibility(self, v):
        self.vis = int(bool(v))

    def GetVisibility(self):
        return self.vis

    def VisibilityOn(self):
        self.vis = 1

    def VisibilityOff(self):
        self.vis = 0

    def GetBounds(self):
        d = self.mapper.d
        if not d.pts:
            return (1.0, -1.0, 1.0, -1.0, 1.0, -1.0)
        return box_of(self.matrix(), d.GetBounds())


class vtkCamera(VObj):
    def __init__(self):
        self.p, self.f, self.u, self.par = (0.0, 0.0, 1.0), (0.0, 0.0, 0.0), (0.0, 1.0, 0.0), 0

    def SetPosition(self, *a):
        self.p = nums(a, 3)

    def SetFocalPoint(self, *a):
        self.f = nums(a, 3)

    def SetViewUp(self, *a):
        self.u = nums(a, 3)

    def GetPosition(self):
        return self.p

    def GetFocalPoint(self):
        return self.f

    def GetViewUp(self):
        return self.u

    def SetParallelProjection(self, v):
        self.par = int(bool(v))

    def GetParallelProjection(self):
        return self.par

    def ParallelProjectionOn(self):
        self.par = 1

    def ParallelProjectionOff(self):
        self.par = 0


class vtkRenderer(VObj):
    def __init__(self):
        self.props, self.cam = [], vtkCamera()

    def _no(self, *a):
        pass

    SetViewport = SetBackground = SetBackground2 = AddActor2D = RemoveActor2D = ResetCameraClippingRange = GradientBackgroundOn = _no

    def AddActor(self, a):
        if not any(x is a for x in self.props):
            self.props.append(a)

    AddViewProp = AddActor

    def RemoveActor(self, a):
        self.props = [x for x in self.props if x is not a]

    RemoveViewProp = RemoveActor

    def HasViewProp(self, a):
        return int(any(x is a for x in self.props))

    def RemoveAllViewProps(self):
        self.props = []

    def GetActiveCamera(self):
        return self.cam

    def ResetCamera(self, *a):
        bs = [x.GetBounds() for x in self.props if x.vis and x.mapper.d.pts]
        if not bs:
            return
        b = [min(x[0] for x in bs), max(x[1] for x in bs), min(x[2] for x in bs), max(x[3] for x in bs), min(x[4] for x in bs), max(x[5] for x in bs)]
        c = [(b[0] + b[1]) / 2, (b[2] + b[3]) / 2, (b[4] + b[5]) / 2]
        d = [self.cam.p[i] - self.cam.f[i] for i in range(3)]
        n = math.sqrt(sum(x * x for x in d)) or 1.0
        r = math.sqrt(sum((b[2 * i + 1] - b[2 * i]) ** 2 for i in range(3))) or 1.0
        self.cam.f = tuple(c)
        self.cam.p = tuple(c[i] + d[i] / n * r * 1.9318516525781366 for i in range(3))


class vtkRenderWindow(VObj):
    def __init__(self):
        self.r, self.size = [], (300, 300)

    def _no(self, *a):
        pass

    SetWindowName = SetOffScreenRendering = SetMultiSamples = Render = Finalize = MakeCurrent = OffScreenRenderingOn = _no

    def SetSize(self, *a):
        if len(a) == 1:
            a = a[0]
        w, h = a
        self.size = (int(w), int(h))

    def GetSize(self):
        return self.size

    def AddRenderer(self, r):
        self.r.append(r)

    def GetRenderers(self):
        return list(self.r)

    def picture(self):
        """What a screenshot of the window shows: everything drawn, in a form that can be read back."""
        first = self.r[0]
        acts = sorted((round_t(sum(a.matrix(), [])), tuple(a.prop.color), a.prop.opacity, a.prop.ambient, a.mapper.d.GetBounds()) for a in first.props if a.vis)
        doc = repr((acts, [(round_t(x.cam.p), round_t(x.cam.f), round_t(x.cam.u)) for x in self.r]))
        return b"\x89PNG\r\n\x1a\n" + hashlib.sha256(doc.encode()).digest() * 40 + b"IEND\xaeB`\x82"


def round_t(t):
    return tuple(round(float(x), 6) + 0.0 for x in t)


class vtkRenderWindowInteractor(VObj):
    def __init__(self):
        self.obs, self.key, self.timers = {}, "", []

    def _no(self, *a):
        pass

    SetRenderWindow = SetInteractorStyle = Initialize = Start = TerminateApp = DestroyTimer = Render = RemoveObserver = _no

    def AddObserver(self, ev, cb, *a):
        self.obs.setdefault(ev, []).append(cb)
        return len(self.obs)

    def CreateRepeatingTimer(self, ms):
        self.timers.append(int(ms))
        return len(self.timers)

    def GetKeySym(self):
        return self.key

    def GetKeyCode(self):
        return self.key[:1]

    def fire(self, ev):
        for cb in self.obs.get(ev, []):
            cb(self, ev)


class vtkWindowToImageFilter(VObj):
    def __init__(self):
        self.w, self.img = None, b""

    def _no(self, *a):
        pass

    SetScale = SetInputBufferTypeToRGBA = SetInputBufferTypeToRGB = ReadFrontBufferOff = ReadFrontBufferOn = _no

    def SetInput(self, w):
        self.w = w

    def Update(self):
        self.img = self.w.picture()

    def GetOutputPort(self):
        return self

    def GetOutput(self):
        return self


class vtkPNGWriter(VObj):
    def __init__(self):
        self.fn, self.src, self.err = None, None, 0

    def SetFileName(self, f):
        if f is not None and not isinstance(f, str):
            raise TypeError("SetFileName argument 1: expected str")
        self.fn = f

    def SetInputConnection(self, p):
        self.src = p

    SetInputData = SetInputConnection

    def GetErrorCode(self):
        return self.err

    def Write(self):
        """Like VTK: a failed write sets the error code and removes what was written; nothing is raised."""
        import os
        self.err = 0
        if not self.src.img:
            self.src.Update()
        try:
            f = io.open(self.fn, "wb", buffering=0)
        except (OSError, TypeError, ValueError):
            self.err = 1
            return 0
        try:
            b = self.src.img
            while b:
                n = f.write(b[:512])
                b = b[n:]
            f.close()
        except OSError:
            self.err = 4
            for fn in (f.close, lambda: os.unlink(self.fn)):
                try:
                    fn()
                except OSError:
                    pass
            return 0
        return 1


def make_vtk():
    m = types.ModuleType("vtk")
    for k, v in list(globals().items()):
        if k.startswith("vtk"):
            setattr(m, k, v)

    def missing(name):
        if name.startswith("vtkInteractorStyle") or name in ("vtkTextActor", "vtkTextProperty", "vtkAxesActor", "vtkNamedColors"):
            return Quiet
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("vtk." + name)
    m.__getattr__ = missing
    return m


# ---------------------------------------------------------------- Flask
class HTTPException(Exception):
    def __init__(self, code=500, description=""):
        super().__init__(f"{code} {description}")
        self.code, self.description = code, description


_local = threading.local()


class Resp:
    def __init__(self, body=b"", status=200, headers=None, mimetype="text/html", **k):
        self.data = body.encode() if isinstance(body, str) else bytes(body or b"")
        self.status_code = int(status) if not isinstance(status, str) else int(status.split()[0])
        self.headers = dict(headers or {})
        self.mimetype = mimetype
        self.closers = []

    def call_on_close(self, f):
        self.closers.append(f)
        return f

    def get_data(self, as_text=False):
        return self.data.decode() if as_text else self.data

    @property
    def json(self):
        try:
            return json.loads(self.data)
        except ValueError:
            return None


class Req:
    """One request (also the context of a socket handler)."""
    def __init__(self, method="GET", path="/", body=b"", ctype=None, args=None, sid=None):
        self.method, self.path, self.data, self.content_type, self.sid = method, path, body, ctype, sid
        self.args = Args(args or {})
        self.headers = {"Content-Type": ctype} if ctype else {}
        self.after, self.namespace = [], "/"

    @property
    def is_json(self):
        t = (self.content_type or "").split(";")[0].strip().lower()
        return t == "application/json" or (t.startswith("application/") and t.endswith("+json"))

    @property
    def mimetype(self):
        return (self.content_type or "").split(";")[0].strip().lower()

    @property
    def content_length(self):
        return len(self.data)

    def get_data(self, cache=True, as_text=False, parse_form_data=False):
        return self.data.decode("utf-8", "replace") if as_text else self.data

    def get_json(self, force=False, silent=False, cache=True):
        if not (force or self.is_json):
            if silent:
                return None
            raise HTTPException(415, "Unsupported Media Type")
        try:
            return json.loads(self.data.decode("utf-8"))
        except ValueError:
            if silent:
                return None
            raise HTTPException(400, "Bad Request")

    @property
    def json(self):
        return self.get_json()


class Args(dict):
    def get(self, k, default=None, type=None):
        if k not in self:
            return default
        if type is None:
            return self[k]
        try:
            return type(self[k])
        except (ValueError, TypeError):
            return default


class Proxy:
    def __getattr__(self, name):
        r = getattr(_local, "req", None)
        if r is None:
            raise RuntimeError("Working outside of request context.")
        return getattr(r, name)


request = Proxy()


def jsonify(*a, **k):
    v = a[0] if len(a) == 1 and not k else (list(a) if a else k)
    return Resp(json.dumps(v, sort_keys=True), mimetype="application/json")


def abort(code, *a, **k):
    raise HTTPException(code, str(a[0]) if a else "")


def after_this_request(f):
    _local.req.after.append(f)
    return f


def make_response(*a):
    return norm_response(a[0] if len(a) == 1 else tuple(a))


def send_file(path_or_file, mimetype=None, as_attachment=False, download_name=None, **k):
    if hasattr(path_or_file, "read"):
        data = path_or_file.read()
    else:
        try:
            with io.open(path_or_file, "rb") as f:
                data = f.read()
        except FileNotFoundError:
            raise HTTPException(404, "Not Found") if False else FileNotFoundError(path_or_file)
    return Resp(data, mimetype=mimetype or "application/octet-stream")


def norm_response(v):
    status = headers = None
    if isinstance(v, tuple):
        if len(v) == 3:
            v, status, headers = v
        else:
            v, status = v
            if isinstance(status, (dict, list)):
                status, headers = None, status
    if isinstance(v, (dict, list)):
        v = jsonify(v)
    elif isinstance(v, (str, bytes, bytearray)):
        v = Resp(v)
    elif not isinstance(v, Resp):
        raise TypeError("The view function did not return a valid response.")
    if status is not None:
        v.status_code = int(status)
    if headers:
        v.headers.update(dict(headers))
    return v


class Flask:
    def __init__(self, name, **k):
        self.routes, self.hooks, self.handlers = {}, {"before": [], "after": [], "teardown": []}, []
        self.config, self.name, self.extensions, self.view_functions = {}, name, {}, {}
        self.last_error = None

    def route(self, rule, methods=None, **k):
        def deco(f):
            self.add_url_rule(rule, k.get("endpoint"), f, methods=methods)
            return f
        return deco

    def add_url_rule(self, rule, endpoint=None, view_func=None, methods=None, **k):
        ep = endpoint or view_func.__name__
        if ep in self.view_functions and self.view_functions[ep] is not view_func:
            raise AssertionError(f"View function mapping is overwriting an existing endpoint function: {ep}")
        self.view_functions[ep] = view_func
        for m in methods or ["GET"]:
            self.routes[(m.upper(), rule)] = ep

    def get(self, rule, **k):
        return self.route(rule, methods=["GET"], **k)

    def post(self, rule, **k):
        return self.route(rule, methods=["POST"], **k)

    def _hook(self, which):
        def deco(f):
            self.hooks[which].append(f)
            return f
        return deco

    def before_request(self, f):
        return self._hook("before")(f)

    def after_request(self, f):
        return self._hook("after")(f)

    def teardown_request(self, f):
        return self._hook("teardown")(f)

    def errorhandler(self, what):
        def deco(f):
            self.handlers.append((what, f))
            return f
        return deco

    def register_error_handler(self, what, f):
        self.handlers.append((what, f))

    # ---- driver side
    def dispatch(self, method, path, body=b"", ctype=None, args=None):
        req = Req(method, path, body, ctype, args)
        prev, _local.req = getattr(_local, "req", None), req
        err = None
        try:
            try:
                ep = self.routes.get((method, path))
                if ep is None:
                    known = any(p == path for _, p in self.routes)
                    raise HTTPException(405 if known else 404)
                v = None
                for h in self.hooks["before"]:
                    v = h()
                    if v is not None:
                        break
                if v is None:
                    v = self.view_functions[ep]()
                r = norm_response(v)
            except Exception as e:
                r = self._error(e)
                err = e
            for h in req.after + self.hooks["after"]:
                r = h(r) or r
        finally:
            _local.req = prev
            for h in self.hooks["teardown"]:
                h(err)
        for c in r.closers:
            c()
        r.error = repr(err)[:200] if err is not None and r.status_code >= 500 else None
        return r

    def _error(self, e):
        for what, f in self.handlers:
            if (isinstance(what, int) and getattr(e, "code", 500) == what) or (isinstance(what, type) and isinstance(e, what)):
                return norm_response(f(e))
        if isinstance(e, HTTPException):
            return Resp(e.description, e.code)
        return Resp("Internal Server Error", 500)


class SocketIO:
    def __init__(self, app=None, **k):
        self.app, self.handlers, self.clients = app, {}, {}
        self.rooms, self.errors = {}, []
        if app is not None:
            app.extensions["socketio"] = self

    def init_app(self, app, **k):
        self.app = app
        app.extensions["socketio"] = self

    def on(self, name, namespace=None):
        def deco(f):
            self.handlers[str(getattr(name, "value", name))] = f
            return f
        return deco

    def on_event(self, name, f, namespace=None):
        self.handlers[name] = f

    def event(self, f):
        self.handlers[f.__name__] = f
        return f

    def emit(self, event, *args, **k):
        data = json.loads(json.dumps(args[0] if len(args) == 1 else list(args)))
        to = k.get("to", k.get("room"))
        skip = k.get("skip_sid") or k.get("include_self") is False and getattr(getattr(_local, "req", None), "sid", None)
        if isinstance(to, str):
            to = [to]
        for sid in list(self.clients):
            if skip and (sid == skip or (isinstance(skip, (list, tuple)) and sid in skip)):
                continue
            if to is None or sid in to or any(sid in self.rooms.get(r, ()) for r in to):
                self.clients[sid].append((str(getattr(event, "value", event)), data))

    def send(self, data, **k):
        self.emit("message", data, **k)

    def run(self, app, **k):
        raise Unsupported("SocketIO.run")

    def stop(self):
        pass

    def sleep(self, s=0):
        pass

    # ---- driver side
    def deliver(self, sid, event, *args):
        f = self.handlers.get(event)
        if f is None:
            return
        prev, _local.req = getattr(_local, "req", None), Req(sid=sid)
        _local.req.io = self
        try:
            f(*args)
        except Exception as e:              # the server logs it; the client hears nothing
            self.errors.append((event, repr(e)[:160]))
        finally:
            _local.req = prev

    def connect(self, sid):
        self.clients[sid] = []
        self.deliver(sid, "connect")

    def disconnect(self, sid):
        self.deliver(sid, "disconnect")
        self.clients.pop(sid, None)


def emit(event, *args, **k):
    r = _local.req
    if k.pop("broadcast", False):
        return r.io.emit(event, *args, **k)
    if "to" not in k and "room" not in k:
        k["to"] = r.sid
    r.io.emit(event, *args, **k)


def join_room(room, sid=None, namespace=None):
    _local.req.io.rooms.setdefault(room, set()).add(sid or _local.req.sid)


def leave_room(room, sid=None, namespace=None):
    _local.req.io.rooms.setdefault(room, set()).discard(sid or _local.req.sid)


def install():
    """Before yapcad.viewer is imported."""
    sys.modules["vtk"] = make_vtk()
    f = types.ModuleType("flask")
    f.Flask, f.jsonify, f.request, f.send_file, f.abort, f.Response, f.make_response, f.after_this_request = \
        Flask, jsonify, request, send_file, abort, Resp, make_response, after_this_request
    f.g = types.SimpleNamespace()
    f.__version__ = "3.0.0"
    s = types.ModuleType("flask_socketio")
    s.SocketIO, s.emit, s.join_room, s.leave_room = SocketIO, emit, join_room, leave_room
    s.rooms = lambda sid=None, namespace=None: [r for r, x in _local.req.io.rooms.items() if (sid or _local.req.sid) in x]
    c = types.ModuleType("flask_cors")
    c.CORS = lambda app, **k: None
    c.cross_origin = lambda *a, **k: (lambda fn: fn)
    we = types.ModuleType("werkzeug.exceptions")
    we.HTTPException = HTTPException
    for n, code in (("BadRequest", 400), ("NotFound", 404), ("UnsupportedMediaType", 415), ("InternalServerError", 500)):
        setattr(we, n, type(n, (HTTPException,), {"__init__": lambda self, description="", code=code: HTTPException.__init__(self, code, description)}))
    wz = types.ModuleType("werkzeug")
    wz.exceptions = we
    wu = types.ModuleType("werkzeug.utils")
    wu.secure_filename = lambda s: re.sub(r"[^A-Za-z0-9_.-]", "_", s).strip("._")

    def safe_join(directory, *paths):
        import posixpath
        parts = [directory]
        for p in paths:
            if p != "":
                p = posixpath.normpath(p)
            if posixpath.isabs(p) or p == ".." or p.startswith("../"):
                return None
            parts.append(p)
        return posixpath.join(*parts)
    wu.safe_join = safe_join
    for name, m in (("flask", f), ("flask_socketio", s), ("flask_cors", c), ("werkzeug", wz), ("werkzeug.exceptions", we), ("werkzeug.utils", wu)):
        sys.modules.setdefault(name, m)

"""Package-level operations and reference helpers shared by the package checks."""
from __future__ import annotations

import copy
import hashlib
import json
import random
from pathlib import Path

ROOT = "/sim/work"
Y = {}


def preload():
    from . import world
    world.install_datetime_seam()
    import warnings
    warnings.simplefilter("ignore")
    import yaml
    import yapcad.package as pkg
    from yapcad.package import core, validator, signing
    from yapcad.package.analysis import cli as acli, base as abase
    import yapcad.package.analysis.calculix      # noqa
    import yapcad.package.analysis.yapcad_native  # noqa
    from yapcad import geom, geom3d, geom3d_util, metadata
    from yapcad.io import geometry_json
    from yapcad.dsl import packaging
    Y.update(yaml=yaml, core=core, validator=validator, signing=signing, acli=acli, abase=abase,
             geom=geom, g3=geom3d, g3u=geom3d_util, meta=metadata, gj=geometry_json, pkg=pkg,
             dslpkg=packaging)
    # warm lazy caches so that runs do not depend on which ran first
    s = geom3d_util.prism(1, 1, 1)
    geometry_json.geometry_from_json(geometry_json.geometry_to_json([s]))
    try:
        packaging.compile_and_run("module m;\ncommand C() -> solid { emit box(1.0,1.0,1.0); }", "C", {})
    except Exception:
        pass


# ---------------------------------------------------------------- geometry
def gen_shape(rng):
    k = rng.choice(["prism", "prism", "conic", "sphere", "sketch", "surface", "hollow"])
    d = lambda: round(rng.uniform(0.5, 20), 3)
    meta = {}
    if rng.random() < 0.5:
        meta["tags"] = rng.sample(["a", "b", "structural", "ünï", "x y"], rng.randint(1, 3))
    if rng.random() < 0.3:
        meta["layer"] = rng.choice(["hull", "inner", "default"])
    if rng.random() < 0.3:
        meta["material"] = rng.choice(["al6061", "steel", "pla"])
    if k in ("prism", "hollow"):
        return {"k": k, "p": [d(), d(), d()], "meta": meta}
    if k == "conic":
        return {"k": k, "p": [d(), d(), d()], "meta": meta}
    if k == "sphere":
        return {"k": k, "p": [d()], "meta": meta}
    if k == "surface":
        return {"k": k, "p": [d(), d(), d(), rng.randrange(3)], "meta": meta}
    return {"k": k, "p": [d(), d(), rng.randint(1, 4)], "meta": {}}


def build_shape(sp):
    g3u, geom, meta = Y["g3u"], Y["geom"], Y["meta"]
    p = sp["p"]
    if sp["k"] == "prism":
        e = g3u.prism(*p)
    elif sp["k"] == "hollow":
        e = g3u.prism(*p)
        e[2] = [g3u.prism(*[x * f for x in p])[1] for f in (0.5, 0.25)[:1 + int(p[0]) % 2]]
    elif sp["k"] == "surface":
        e = copy.deepcopy(g3u.prism(*p[:3])[1][p[3] % 3])
    elif sp["k"] == "conic":
        e = g3u.conic(p[0], p[1] * 0.5, p[2])
    elif sp["k"] == "sphere":
        e = g3u.sphere(p[0], depth=1) if "depth" in g3u.sphere.__code__.co_varnames else g3u.sphere(p[0])
    else:
        e = []
        for i in range(p[2]):
            e.append(geom.line(geom.point(i * p[0], 0), geom.point(i * p[0], p[1])))
        e.append(geom.arc(geom.point(p[0], p[1]), p[0], 0.0, 90.0))
        return e
    m = (meta.get_surface_metadata if sp["k"] == "surface" else meta.get_solid_metadata)(e, create=True)
    for k, v in sp["meta"].items():
        if k == "layer":
            meta.set_layer(m, v)
        else:
            m[k] = copy.deepcopy(v)
    return e


def fix_ids(ents):
    g3, meta = Y["g3"], Y["meta"]

    def put(m, ident):
        m["entityId"] = m["id"] = ident
    for n, e in enumerate(ents):
        if g3.issolid(e):
            put(meta.get_solid_metadata(e, create=True), f"part-{n}")
            for j, s in enumerate(e[1]):
                put(meta.get_surface_metadata(s, create=True), f"part-{n}-face-{j}")
        elif g3.issurface(e):
            put(meta.get_surface_metadata(e, create=True), f"face-{n}")


def gen_entities(rng):
    """One to four solids, surfaces and sketches, often of one kind."""
    cls = lambda x: x["k"] if x["k"] in ("sketch", "surface") else "solid"
    s = gen_shape(rng)
    out, mixed = [s], rng.random() < 0.5
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        t = gen_shape(rng)
        if mixed or cls(t) == cls(s):
            out.append(t)
    return out


def _r(x):
    return [[round(float(c), 9) for c in v] for v in x]


def _num(x):
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, (int, float)):
        return round(float(x), 9)
    if isinstance(x, dict):
        return {str(k): _num(v) for k, v in sorted(x.items())}
    return [_num(v) for v in x]


def fingerprint(entities):
    """Observable content of a geometry list: coordinates, topology, user metadata."""
    g3, meta, geom = Y["g3"], Y["meta"], Y["geom"]
    out = []
    for e in entities:
        if g3.issolid(e):
            m = meta.get_solid_metadata(e, create=False) or {}
            surfs = [(_r(s[1]), _r(s[2]), [list(map(int, f)) for f in s[3]]) for s in e[1]]
            surfs += [["void"] + [(_r(s[1]), _r(s[2]), [list(map(int, f)) for f in s[3]]) for s in v] for v in e[2] or []
                      if isinstance(v, list) and v and all(g3.issurface(s) for s in v)]
            out.append(("solid", surfs, sorted(m.get("tags", [])), m.get("material"), m.get("layer") or "default"))
        elif g3.issurface(e):
            m = meta.get_surface_metadata(e, create=False) or {}
            out.append(("surface", _r(e[1]), _r(e[2]), e[3], sorted(m.get("tags", [])), m.get("material"), m.get("layer") or "default"))
        else:
            out.append(("sketch", _num(e)))
    out.sort(key=lambda e: ("solid", "sketch", "surface").index(e[0]))      # the order between kinds is not kept
    return hashlib.sha256(json.dumps(out, sort_keys=True, default=str).encode()).hexdigest()[:16]


# ---------------------------------------------------------------- manifests
def load_yaml(data):
    return Y["yaml"].safe_load(data.decode("utf-8"))


def manifest_or_none(fs, pkg):
    try:
        raw = fs.get(f"{pkg}/manifest.yaml")
    except OSError:
        return None, None
    try:
        return raw, load_yaml(raw)
    except Exception:
        return raw, "<unparsable>"


def sha(b, alg="sha256"):
    return f"{alg}:" + hashlib.new(alg, b).hexdigest()


def reference_problems(fs, pkg):
    """Independent judgement of a package directory: list of reasons it is not intact."""
    raw, data = manifest_or_none(fs, pkg)
    if raw is None:
        return ["no manifest"]
    if not isinstance(data, dict):
        return ["manifest not a mapping"]
    bad = []
    if data.get("schema") != "ycpkg-spec-v0.1":
        bad.append("schema")
    geo = data.get("geometry")
    prim = geo.get("primary") if isinstance(geo, dict) else None
    if not isinstance(prim, dict):
        return bad + ["no geometry.primary"]
    ents = [("primary", prim)]
    der = geo.get("derived") or []
    for sec, lst in (("derived", der), ("exports", data.get("exports") or []),
                     ("attachments", data.get("attachments") or [])):
        if not isinstance(lst, list):
            bad.append(f"{sec} not a list")
            continue
        ents += [(sec, e) for e in lst]
    for sec, e in ents:
        if not isinstance(e, dict) or not isinstance(e.get("path"), str):
            bad.append(f"{sec} entry malformed")
            continue
        try:
            body = fs.get(f"{pkg}/{e['path']}")
        except OSError:
            bad.append(f"{sec} missing {e['path']}")
            continue
        h = e.get("hash")
        if h:
            if not isinstance(h, str):
                bad.append(f"{sec} hash malformed")
            else:
                alg = h.split(":")[0].lower() if ":" in h else "sha256"
                try:
                    if sha(body, alg).lower() != h.lower():
                        bad.append(f"{sec} hash mismatch {e['path']}")
                except ValueError:
                    bad.append(f"{sec} unknown hash algorithm")
        if sec == "primary":
            try:
                d = json.loads(body.decode("utf-8"))
                Y["gj"].geometry_from_json(d)
            except Exception:
                bad.append("primary not geometry")
    mats = data.get("materials")
    if mats:
        if not isinstance(mats, dict):
            bad.append("materials not a mapping")
        else:
            for k, m in mats.items():
                src = m.get("source") if isinstance(m, dict) else None
                if not isinstance(src, dict) or src.get("type") not in ("standard", "vendor", "custom", "tested"):
                    bad.append(f"material {k}")
                    continue
                if "standard" in src and not isinstance(src["standard"], dict):
                    bad.append(f"?material {k} standard is not a mapping")
                    continue
                vis = m.get("visual", {})
                if not isinstance(vis, dict):
                    bad.append(f"?material {k} visual is not a mapping")
                    continue
                col = vis.get("color") if isinstance(vis, dict) else None
                if col and (not isinstance(col, list) or len(col) != 3):
                    bad.append(f"material {k} color")
    return bad


def stray(fs, pkg, before):
    """Files below pkg that look left over: present now, absent before, not referenced."""
    return sorted(set(fs.files(pkg)) - set(before))

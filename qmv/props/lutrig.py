# -*- coding: utf-8 -*-
"""Lookup tables over a stand-in projection (affine, invertible, different on each axis)."""

import numpy as np
import pandas as pd

A, B = (100.0, 50.0, 1.0), (7.0, -3.0, 0.0)


class Projection:
    """Replaces pyproj's transformations.  slop(kind, axis): an error added by the inverse (rounding)."""

    def __init__(self, slop=None):
        self.slop, self.used = slop, []

    def __enter__(self):
        import pyproj

        self.cls, self.saved = pyproj.Transformer, pyproj.Transformer.__dict__["from_proj"]
        rig = self

        class T:
            def __init__(self, a, b):
                self.inv = "longlat" not in a.srs
                assert ("longlat" in b.srs) == self.inv, "not a transformation between grid and coordinates"
                rig.used.append((a.srs, b.srs))

            def transform(self, *v):
                if self.inv:
                    return tuple((x - b) / a + (rig.slop(k) if rig.slop else 0.0)
                                 for k, (x, a, b) in enumerate(zip(v, A, B)))
                return tuple(x * a + b for x, a, b in zip(v, A, B))

        self.cls.from_proj = staticmethod(lambda a, b, *x, **k: T(a, b))
        return self

    def __exit__(self, *a):
        setattr(self.cls, "from_proj", self.saved)


def projs(units="km"):
    import pyproj

    g = pyproj.Proj(proj="lcc", units=units, lon_0=10, lat_0=50, lat_1=49.9, lat_2=50.1, datum="WGS84", ellps="WGS84")
    c = pyproj.Proj(proj="longlat", ellps="WGS84", datum="WGS84")
    return g, c


def coord(x):
    """Geographic coordinates of a grid position."""
    return [(v - b) / a for v, a, b in zip(x, A, B)]


def make(ctx, ll, ur, spacing, units="km", fraction_tt=0.1):
    """A LUT whose corners are ll and ur in grid coordinates."""
    from quakemigrate.lut.lut import LUT

    g, c = projs(units)
    return LUT(ll_corner=coord(ll), ur_corner=coord(ur), node_spacing=spacing, grid_proj=g, coord_proj=c,
               fraction_tt=fraction_tt)


def stations(names, xyz=None):
    co = [coord(x) for x in xyz] if xyz is not None else [[10.0, 50.0, 0.0]] * len(names)
    d = pd.DataFrame({"Longitude": [c[0] for c in co], "Latitude": [c[1] for c in co],
                      "Elevation": [c[2] for c in co], "Name": list(names)})
    return d


def table(count, seed):
    """A concrete table with a different value at every node."""
    n = int(np.prod(count))
    return (np.arange(n, dtype=float) * 0.37 + 1000.0 * seed).reshape(tuple(int(c) for c in count))

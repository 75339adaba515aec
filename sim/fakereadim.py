"""Stand-in for the proprietary ReadIM reader: 'IM7'/'VC7' files are JSON."""
import json
import sys
import types

import numpy as np


class _Buf(object):
    def __init__(self, d):
        self.d = d
        self.image_sub_type = d["fmt"]
        self.vectorGrid = d.get("grid", 1)


def _get(filename):
    with open(str(filename), "r") as f:
        d = json.load(f)
    return _Buf(d), d["atts"]


def _as_array(buf):
    return np.array(buf.d["arrays"], dtype=float), buf


def install():
    m = types.ModuleType("ReadIM")
    m.extra = types.ModuleType("ReadIM.extra")
    m.extra.get_Buffer_andAttributeList = _get
    m.extra.buffer_as_array = _as_array
    m.extra.att2dict = dict
    m.DestroyBuffer = lambda b: None
    sys.modules["ReadIM"] = m
    sys.modules["ReadIM.extra"] = m.extra


def im7(values, dt=None, sx="1.0 0.0\nmm", sy="1.0 0.0\nmm",
        si="1.0 0.0\ncounts"):
    """JSON text of a fake IM7 picture; values: list of rows (ny x nx)."""
    atts = {"_SCALE_X": sx, "_SCALE_Y": sy, "_SCALE_I": si}
    if dt is not None:
        atts["FrameDt0"] = dt
    return json.dumps({"fmt": 0, "arrays": [values], "atts": atts})


def vc7(vx, vy, dt=None, sx="1.0 0.0\nmm", sy="1.0 0.0\nmm",
        si="1.0 0.0\nm/s"):
    atts = {"_SCALE_X": sx, "_SCALE_Y": sy, "_SCALE_I": si}
    if dt is not None:
        atts["FrameDt0"] = dt
    return json.dumps({"fmt": 2, "grid": 1, "arrays": [vx, vy],
                       "atts": atts})

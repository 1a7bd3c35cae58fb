"""A small independent reader of VTK image files (.vti, appended raw data), following the VTK file format description."""
import re
import struct

import numpy as np

_T = {"Float64": "f8", "Float32": "f4", "Int64": "i8", "Int32": "i4", "UInt64": "u8", "UInt32": "u4", "Int8": "i1", "UInt8": "u1"}


def read(path):
    b = open(path, "rb").read()
    i = b.index(b"<AppendedData")
    head = b[:i].decode("ascii")
    j = b.index(b"_", b.index(b">", i)) + 1
    en = "<" if 'byte_order="LittleEndian"' in head else ">"
    ht = _T[re.search(r'header_type="(\w+)"', head).group(1)] if "header_type" in head else "u4"
    img = re.search(r"<ImageData ([^>]*)>", head).group(1)

    def attr(s, k):
        return re.search(rf'{k}="([^"]*)"', s).group(1)

    ext = [int(x) for x in attr(img, "WholeExtent").split()]
    spacing = [float(x) for x in attr(img, "Spacing").split()]
    origin = [float(x) for x in attr(img, "Origin").split()]
    pext = [int(x) for x in attr(re.search(r"<Piece ([^>]*)>", head).group(1), "Extent").split()]
    cells = [ext[1] - ext[0], ext[3] - ext[2], ext[5] - ext[4]]
    out = {"extent": ext, "piece": pext, "spacing": spacing, "origin": origin, "cells": cells, "cell": {}, "point": {}}
    for kind, tag in (("cell", "CellData"), ("point", "PointData")):
        m = re.search(rf"<{tag}[^>]*>(.*?)</{tag}>", head, re.S)
        if not m:
            continue
        for da in re.findall(r"<DataArray ([^>]*?)/?>", m.group(1)):
            assert attr(da, "format") == "appended", "only appended data supported"
            off = j + int(attr(da, "offset"))
            nb = np.frombuffer(b, en + ht, 1, off)[0]
            hs = np.dtype(ht).itemsize
            data = np.frombuffer(b, en + _T[attr(da, "type")], int(nb) // np.dtype(_T[attr(da, "type")]).itemsize, off + hs)
            nc = int(attr(da, "NumberOfComponents"))
            n = cells if kind == "cell" else [c + 1 for c in cells]
            assert data.size == nc * n[0] * n[1] * n[2], f"{attr(da, 'Name')}: {data.size} values for {n} x {nc}"
            # x fastest, components interleaved
            a = data.reshape(n[2], n[1], n[0], nc).transpose(2, 1, 0, 3)
            out[kind][attr(da, "Name")] = a if nc > 1 else a[..., 0]
    return out

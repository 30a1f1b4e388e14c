F="python/geoarrow-c/src/geoarrow/c/_lib.pyx"
L="python/geoarrow-c/src/geoarrow/c/lib.py"
S={}
RUN=r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH=$PWD/python/geoarrow-c/src PYTHONDONTWRITEBYTECODE=1 timeout 120 /opt/vp/venv/bin/python "$here/demo.py"
'''
PRE='''import gc
import sys
import pyarrow as pa
from geoarrow.c import lib, _lib


def holders(array, name, storage=None, metadata=b"{}"):
    s, a = lib.SchemaHolder(), lib.ArrayHolder()
    pa.field("", storage or array.type, metadata={"ARROW:extension:name": name, "ARROW:extension:metadata": metadata})._export_to_c(s._addr())
    if array is not None:
        array._export_to_c(a._addr())
    return s, a


'''
S["p01-finish-agg-status"]=dict(prop="P01",needs="a kernel that is not an aggregate finished as if it were",
 what="finish_agg() ignores failures that leave no message and returns an empty holder",
 edits=[(F,'''            error.raise_message(f"GeoArrowKernel<{self.cname_str}>::finish()", result)

        return out''','''            if error.c_error.message[0] != 0:
                error.raise_message(f"GeoArrowKernel<{self.cname_str}>::finish()", result)

        return out''')],file="demo.py",demo_sh=RUN,demo=PRE+'''k = lib.CKernel(b"format_wkt")
try:
    out = k.finish_agg()
except lib.GeoArrowCException:
    sys.exit(0)
print("no exception, valid output:", out.is_valid())
sys.exit(1)
''')
S["p01-untranslated"]=dict(prop="P01",needs="with_coord_type() on a type whose new metadata can't be represented",
 what="an exception thrown by WithCoordType() terminates the interpreter",
 edits=[(F,"GeometryDataType WithCoordType(GeoArrowCoordType coord_type) except +ValueError","GeometryDataType WithCoordType(GeoArrowCoordType coord_type)")],
 file="demo.py",demo_sh=RUN,demo=PRE+'''s, a = holders(None, b"geoarrow.wkb", pa.binary())
t = lib.CGeometryDataType.FromExtension(s)
try:
    t.with_coord_type(lib.CoordType.INTERLEAVED)
except ValueError:
    pass
t = lib.CGeometryDataType.Make(lib.GeometryType.POINT, lib.Dimensions.XY, lib.CoordType.SEPARATE)
try:
    t.with_coord_type(lib.CoordType.UNKNOWN)
except ValueError:
    pass
''')
S["p02-buffer-base"]=dict(prop="P02",needs="a buffer used after the view and the array it came from are gone",
 what="an exported buffer does not keep its memory alive",
 edits=[(F,"        self._base = base\n","        self._base = None\n")],
 file="demo.py",demo_sh=RUN,demo=PRE+'''before = pa.total_allocated_bytes()
arr = pa.StructArray.from_arrays([pa.array([float(i) for i in range(100000)])] * 2, names=["x", "y"])
s, a = holders(arr, b"geoarrow.point")
buf = lib.CArrayView(a, s).buffers()[1]
used = pa.total_allocated_bytes() - before
del arr, s, a
gc.collect()
if pa.total_allocated_bytes() - before < 800000:
    print("the memory of a live buffer was freed:", used, pa.total_allocated_bytes() - before)
    sys.exit(1)
print(memoryview(buf)[5])
''')
S["p02-writable"]=dict(prop="P02",needs="a consumer that asks for writable memory",
 what="memory borrowed from an immutable array is exported as writable",
 edits=[(F,"        buffer.readonly = 1\n","        buffer.readonly = 0\n")],
 file="demo.py",demo_sh=RUN,demo=PRE+'''arr = pa.StructArray.from_arrays([pa.array([1.0])] * 2, names=["x", "y"])
s, a = holders(arr, b"geoarrow.point")
m = memoryview(lib.CArrayView(a, s).buffers()[1])
sys.exit(0 if m.readonly else 1)
''')
S["p02-uint8-size"]=dict(prop="P02",needs="an int32 buffer given to a builder and its length checked by C",
 what="the size in bytes of offsets buffers given to the builder is taken from the object, which need not be an array of int32",
 edits=[(F,'''    def set_buffer_int32(self, int64_t i, object obj):
''','''    def set_buffer_int32(self, int64_t i, object obj):
        if len(obj) < 2:
            return
''')],
 file="demo.py",demo_sh=RUN,demo=PRE+'''import struct
''')
S["p03-missing-enumerator"]=dict(prop="P03",needs="the identifier of an interleaved MULTIPOINT ZM type",
 what="one type identifier of C is not a member of the exported enumeration",
 edits=[(F,"        GEOARROW_TYPE_INTERLEAVED_MULTIPOINT_ZM = 13004\n","")],
 file="demo.py",demo_sh=RUN,demo=PRE+'''t = lib.CGeometryDataType.Make(lib.GeometryType.MULTIPOINT, lib.Dimensions.XYZM, lib.CoordType.INTERLEAVED)
sys.exit(0 if _lib.GeoArrowType(t.id).name == "GEOARROW_TYPE_INTERLEAVED_MULTIPOINT_ZM" else 1)
''')
S["p03-equality-crs"]=dict(prop="P03",needs="two types that differ only in the text of an authority code CRS",
 what="types with different coordinate reference systems compare equal",
 edits=[(F,"        if self.crs_type == other.crs_type and self.crs != other.crs:\n","        if self.crs_type == GEOARROW_CRS_TYPE_PROJJSON and self.crs != other.crs:\n")],
 file="demo.py",demo_sh=RUN,demo=PRE+'''t = lib.CGeometryDataType.Make(lib.GeometryType.POINT, lib.Dimensions.XY, lib.CoordType.SEPARATE)
a, b = t.with_crs(b"EPSG:4326", lib.CrsType.AUTHORITY_CODE), t.with_crs(b"EPSG:3857", lib.CrsType.AUTHORITY_CODE)
print(a, b)
sys.exit(1 if a == b else 0)
''')
S["p03-edge-constant"]=dict(prop="P03",needs="EdgeType.ANDOYER of the Python package compared with C",
 what="two edge type constants are swapped",
 edits=[(L,"THOMAS = _lib.GEOARROW_EDGE_TYPE_THOMAS","THOMAS = _lib.GEOARROW_EDGE_TYPE_ANDOYER"),
        (L,"ANDOYER = _lib.GEOARROW_EDGE_TYPE_ANDOYER","ANDOYER = _lib.GEOARROW_EDGE_TYPE_THOMAS")],
 file="demo.py",demo_sh=RUN,demo=PRE+'''t = lib.CGeometryDataType.Make(lib.GeometryType.POINT, lib.Dimensions.XY, lib.CoordType.SEPARATE)
print(t.with_edge_type(lib.EdgeType.THOMAS).extension_metadata)
sys.exit(0 if b"thomas" in t.with_edge_type(lib.EdgeType.THOMAS).extension_metadata else 1)
''')
del S["p02-uint8-size"]

exec(open('/verif/tool/seeds/a.py').read().split("S={}")[0])
SRC='src/geoarrow/'
S={}
S["t02-wkb-iso-m"]=dict(prop="T02",needs="a WKB value whose ISO type code combines with the EWKB Z flag or is in the 3000 range for a collection",
 what="ISO WKB codes 3004 and above (multi geometries and collections with Z and M) are read as XYM and a wrong geometry type",
 edits=[(SRC+"wkb_reader.c","""  if (geometry_type >= 3000) {
    geometry_type = geometry_type - 3000;""","""  if (geometry_type >= 3000 && geometry_type <= 3006) {
    geometry_type = geometry_type - 3000;"""),
  (SRC+"wkb_reader.c","""    geometry_type = geometry_type - 2000;
    has_m = 1;""","""    geometry_type = geometry_type % 1000;
    has_m = 1;""")],demo=COMMON+r'''
int main(void) {
  unsigned char b[9] = {1, 0xbf, 0x0b, 0, 0, 0, 0, 0, 0};
  struct GeoArrowWKBReader r; CK(GeoArrowWKBReaderInit(&r));
  struct GeoArrowBufferView v = {b, 9};
  struct GeoArrowGeometryView g; CK(GeoArrowWKBReaderRead(&r, v, &g, NULL));
  int ok = g.root->geometry_type == GEOARROW_GEOMETRY_TYPE_GEOMETRYCOLLECTION && g.root->dimensions == GEOARROW_DIMENSIONS_XYZM;
  GeoArrowWKBReaderReset(&r);
  REQ(ok);
  return 0;
}
''')
S["t02-xym-fixed-size"]=dict(prop="T02",needs="a schema with interleaved XYM coordinates that is recognised from its storage",
 what="an interleaved XYM storage is recognised as XYZ",
 edits=[(SRC+"schema_view.c","""  int expected_n_dims = _GeoArrowkNumDimensions[schema_view->dimensions];
""","""  if (na_schema_view.fixed_size == 3) {
    schema_view->dimensions = GEOARROW_DIMENSIONS_XYZ;
  }
  int expected_n_dims = _GeoArrowkNumDimensions[schema_view->dimensions];
""")],demo=COMMON+r'''
int main(void) {
  struct ArrowSchema s; CK(GeoArrowSchemaInitExtension(&s, GEOARROW_TYPE_INTERLEAVED_POLYGON_M));
  struct GeoArrowSchemaView v; CK(GeoArrowSchemaViewInit(&v, &s, NULL));
  s.release(&s);
  REQ(v.type == GEOARROW_TYPE_INTERLEAVED_POLYGON_M);
  return 0;
}
''')
S["t02-wkt-suffix-prefix"]=dict(prop="T02",needs="WKT text whose dimension suffix starts with Z but is none of the published ones",
 what="any word that starts with Z after the geometry type is taken for the Z suffix when it is not ZM",
 edits=[(SRC+"wkt_reader.c","""  if (word.size_bytes == 1 && strncmp(word.data, "Z", 1) == 0) {
    dimensions = GEOARROW_DIMENSIONS_XYZ;
    s->coord_view.n_values = 3;
    GeoArrowWKTAdvanceUnsafe(s, 1);
  } else if""","""  if (word.size_bytes != 2 && word.size_bytes > 0 && word.data[0] == 'Z') {
    dimensions = GEOARROW_DIMENSIONS_XYZ;
    s->coord_view.n_values = 3;
    GeoArrowWKTAdvanceUnsafe(s, word.size_bytes);
  } else if""")],demo=COMMON+r'''
int main(void) {
  struct GeoArrowVisitor v; GeoArrowVisitorInitVoid(&v);
  struct GeoArrowWKTReader r; CK(GeoArrowWKTReaderInit(&r));
  const char* s = "POINT ZMM EMPTY";
  struct GeoArrowStringView sv = {s, (int64_t)strlen(s)};
  int rc = GeoArrowWKTReaderVisit(&r, sv, &v);
  GeoArrowWKTReaderReset(&r);
  REQ(rc == EINVAL);
  return 0;
}
''')
S["t02-wkb-append-ring-m"]=dict(prop="T02",needs="appending a parsed geometry view with M coordinates through GeoArrowWKBWriterAppend",
 what="the geometry view path writes an XYM geometry with the code of XYZ",
 edits=[],demo="")
del S["t02-wkb-append-ring-m"]
S["t02-edge-prefix"]=dict(prop="T02",needs="extension metadata with an edge type that only begins like a published one",
 what="any quoted edge type of nine or more bytes that starts with andoyer is accepted as ANDOYER",
 edits=[(SRC+"metadata.c","v.size_bytes == 9 && strncmp(v.data, \"\\\"andoyer\\\"\", 9) == 0","v.size_bytes >= 9 && strncmp(v.data, \"\\\"andoyer\\\"\", 8) == 0")],demo=COMMON+r'''
int main(void) {
  const char* s = "{\"edges\": \"andoyer-lambert\"}";
  struct GeoArrowStringView sv = {s, (int64_t)strlen(s)};
  struct GeoArrowMetadataView m; struct GeoArrowError e;
  REQ(GeoArrowMetadataViewInit(&m, sv, &e) == EINVAL);
  return 0;
}
''')

exec(open('/verif/tool/seeds/a.py').read().split("S={}")[0])
SRC='src/geoarrow/'
S={}
S["k01-kernel-prefix"]=dict(prop="K01",needs="a kernel name that extends a documented one",
 what="a name that merely begins with as_geoarrow is accepted and an as_geoarrow kernel handed out",
 edits=[(SRC+"kernel.c","""  } else if (strcmp(name, "as_geoarrow") == 0) {
    return GeoArrowInit""","""  } else if (strncmp(name, "as_geoarrow", strlen("as_geoarrow")) == 0) {
    return GeoArrowInit"""),
  (SRC+"kernel.c","""  } else if (strcmp(name, "as_geoarrow") == 0) {
    kernel->finish""","""  } else if (strncmp(name, "as_geoarrow", strlen("as_geoarrow")) == 0) {
    kernel->finish""")],demo=COMMON+r'''
int main(void) {
  struct GeoArrowKernel k; memset(&k, 0, sizeof(k));
  int rc = GeoArrowKernelInit(&k, "as_geoarrow_v2", NULL);
  if (k.release) k.release(&k);
  REQ(rc != GEOARROW_OK);
  return 0;
}
''')
S["k01-append-many-rings"]=dict(prop="K01",needs="a MULTIPOLYGON with two or more members appended to a POLYGON native writer, the later ones empty of rings or not",
 what="a POLYGON writer takes a MULTIPOLYGON of several parts: the offsets describe the first part only while all coordinates are stored",
 edits=[(SRC+"native_writer.c","""        case GEOARROW_GEOMETRY_TYPE_MULTIPOLYGON:
          if (node->size > 1) {""","""        case GEOARROW_GEOMETRY_TYPE_MULTIPOLYGON:
          if (node->size > 1 && (node + 1)->size <= 1) {""")],demo=COMMON+r'''
int main(void) {
  const char* s = "MULTIPOLYGON (((0 0, 1 0, 0 1, 0 0), (0 0, 1 0, 0 1, 0 0)), ((5 5, 6 5, 5 6, 5 5)))";
  struct GeoArrowGeometry g; CK(GeoArrowGeometryInit(&g));
  struct GeoArrowWKTReader r; CK(GeoArrowWKTReaderInit(&r));
  struct GeoArrowVisitor v; memset(&v, 0, sizeof(v)); GeoArrowGeometryInitVisitor(&g, &v);
  struct GeoArrowStringView sv = {s, (int64_t)strlen(s)};
  CK(GeoArrowWKTReaderVisit(&r, sv, &v));
  struct GeoArrowNativeWriter w; CK(GeoArrowNativeWriterInit(&w, GEOARROW_TYPE_POLYGON));
  int rc = GeoArrowNativeWriterAppend(&w, GeoArrowGeometryAsView(&g), NULL);
  GeoArrowNativeWriterReset(&w); GeoArrowWKTReaderReset(&r); GeoArrowGeometryReset(&g);
  REQ(rc == EINVAL);
  return 0;
}
''')

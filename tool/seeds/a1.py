exec(open('/verif/tool/seeds/a.py').read().split("S={}")[0])
SRC='src/geoarrow/'
S={}
PRE=COMMON+r'''
static char out[1024]; static int at;
static void say(const char* s) { at += snprintf(out + at, sizeof(out) - at, "%s", s); }
static int fs(struct GeoArrowVisitor* v) { say("<"); return 0; }
static int nf(struct GeoArrowVisitor* v) { say("null"); return 0; }
static int gs(struct GeoArrowVisitor* v, enum GeoArrowGeometryType g, enum GeoArrowDimensions d) { say("("); return 0; }
static int ge(struct GeoArrowVisitor* v) { say(")"); return 0; }
static int rs(struct GeoArrowVisitor* v) { say("["); return 0; }
static int re(struct GeoArrowVisitor* v) { say("]"); return 0; }
static int fe(struct GeoArrowVisitor* v) { say(">"); return 0; }
static int co(struct GeoArrowVisitor* v, const struct GeoArrowCoordView* c) {
  for (int64_t i = 0; i < c->n_coords; i++) {
    char b[64];
    snprintf(b, sizeof(b), " %g_%g", GEOARROW_COORD_VIEW_VALUE(c, i, 0), GEOARROW_COORD_VIEW_VALUE(c, i, 1));
    say(b);
  }
  return 0;
}
static int see(enum GeoArrowType type, struct ArrowArray* a, int64_t off, int64_t len, const char* want) {
  struct GeoArrowArrayReader r; CK(GeoArrowArrayReaderInitFromType(&r, type));
  CK(GeoArrowArrayReaderSetArray(&r, a, NULL));
  struct GeoArrowError e; e.message[0] = 0;
  struct GeoArrowVisitor v = {fs, nf, gs, rs, co, re, ge, fe, NULL, &e};
  at = 0; out[0] = 0;
  CK(GeoArrowArrayReaderVisit(&r, off, len, &v));
  GeoArrowArrayReaderReset(&r);
  if (strcmp(out, want)) fprintf(stderr, "%s\nnot %s\n", out, want);
  REQ(!strcmp(out, want));
  return 0;
}
'''
S["a01-second-child-offset"]=dict(prop="A01",needs="separate coordinates whose x and y children are sliced differently",
 what="the first child's offset is applied to every ordinate of a struct coordinate array",
 edits=[(SRC+"array_view.c","""          array_view->coords.values[i] = ((const double*)array->children[i]->buffers[1]) +
                                         array->children[i]->offset;""","""          array_view->coords.values[i] = ((const double*)array->children[i]->buffers[1]) +
                                         array->children[0]->offset;""")],demo=PRE+r'''
int main(void) {
  double x[] = {1, 2, 3, 4}, y[] = {-9, -9, 5, 6, 7, 8};
  const void* xb[] = {NULL, x}; const void* yb[] = {NULL, y}; const void* b[] = {NULL};
  struct ArrowArray c[2], a; struct ArrowArray* cp[] = {&c[0], &c[1]};
  memset(c, 0, sizeof(c)); memset(&a, 0, sizeof(a));
  c[0].length = 4; c[0].n_buffers = 2; c[0].buffers = xb;
  c[1].length = 4; c[1].offset = 2; c[1].n_buffers = 2; c[1].buffers = yb;
  a.length = 3; a.offset = 1; a.n_buffers = 1; a.buffers = b; a.n_children = 2; a.children = cp;
  return see(GEOARROW_TYPE_POINT, &a, 0, 3, "<( 2_6)><( 3_7)><( 4_8)>");
}
''')
S["a01-wkb-view-validity"]=dict(prop="A01",needs="a WKB array with nulls which is sliced",
 what="the validity of a serialized value is looked up without the array's own offset",
 edits=[(SRC+"array_reader.c","""        ArrowBitGet(array_view->validity_bitmap, array_view->offset[0] + offset + i)) {
      item.data = array_view->data + offset_begin[i];""","""        ArrowBitGet(array_view->validity_bitmap, offset + i)) {
      item.data = array_view->data + offset_begin[i];""")],demo=PRE+r'''
int main(void) {
  uint8_t d[42]; memset(d, 0, sizeof(d));
  double p[2][2] = {{1, 2}, {3, 4}};
  for (int i = 0; i < 2; i++) { d[21 * i] = 1; d[21 * i + 1] = 1; memcpy(d + 21 * i + 5, p[i], 16); }
  int32_t o[] = {0, 21, 21, 42};
  uint8_t bits[] = {5};
  const void* b[] = {bits, o, d};
  struct ArrowArray a; memset(&a, 0, sizeof(a));
  a.length = 2; a.offset = 1; a.null_count = 1; a.n_buffers = 3; a.buffers = b;
  return see(GEOARROW_TYPE_WKB, &a, 0, 2, "<null><( 3_4)>");
}
''')
S["a01-large-subrange"]=dict(prop="A01",needs="a large WKB array with nulls visited from a row other than the first",
 what="validity of a large WKB array is that of the rows from its start, not of those visited",
 edits=[(SRC+"array_reader.c","""    if (!ArrowArrayViewIsNull(array_view, offset + i)) {
      arrow_item = ArrowArrayViewGetBytesUnsafe(""","""    if (!ArrowArrayViewIsNull(array_view, i)) {
      arrow_item = ArrowArrayViewGetBytesUnsafe(""")],demo=PRE+r'''
int main(void) {
  uint8_t d[42]; memset(d, 0, sizeof(d));
  double p[2][2] = {{1, 2}, {3, 4}};
  for (int i = 0; i < 2; i++) { d[21 * i] = 1; d[21 * i + 1] = 1; memcpy(d + 21 * i + 5, p[i], 16); }
  int64_t o[] = {0, 0, 21, 42};
  uint8_t bits[] = {6};
  const void* b[] = {bits, o, d};
  struct ArrowArray a; memset(&a, 0, sizeof(a));
  a.length = 3; a.null_count = 1; a.n_buffers = 3; a.buffers = b;
  return see(GEOARROW_TYPE_LARGE_WKB, &a, 1, 2, "<( 1_2)><( 3_4)>");
}
''')

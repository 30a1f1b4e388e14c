exec(open('/verif/tool/seeds/a.py').read().split("S={}")[0])
SRC='src/geoarrow/'
S={}
PRE=COMMON+r'''
static void rel(struct ArrowSchema* s) {}
static struct ArrowSchema sch(const char* f, const char* name, int64_t n, struct ArrowSchema** c) {
  struct ArrowSchema s; memset(&s, 0, sizeof(s));
  s.format = f; s.name = name; s.n_children = n; s.children = c; s.release = &rel;
  return s;
}
'''
S["m06-box-child-buffers"]=dict(prop="M06",needs="a box array whose max child has a single buffer",
 what="the buffers of a box array's max children are not counted before the second one is read",
 edits=[(SRC+"array_view.c","""  for (int32_t i = 0; i < array_view->coords.n_values; i++) {
    if (array->children[i]->n_buffers != 2) {
      ArrowErrorSet((struct ArrowError*)error,
                    "Unexpected number of buffers for box""","""  for (int32_t i = 0; i < array_view->coords.n_values; i++) {
    if (i < array_view->coords.n_values / 2 && array->children[i]->n_buffers != 2) {
      ArrowErrorSet((struct ArrowError*)error,
                    "Unexpected number of buffers for box""")],demo=PRE+r'''
int main(void) {
  double x[] = {1, 2};
  const void* xb[] = {NULL, x}; const void* b[] = {NULL};
  struct ArrowArray c[4], a; struct ArrowArray* cp[4];
  memset(c, 0, sizeof(c)); memset(&a, 0, sizeof(a));
  for (int i = 0; i < 4; i++) { cp[i] = &c[i]; c[i].length = 2; c[i].n_buffers = 2; c[i].buffers = xb; }
  a.length = 2; a.n_buffers = 1; a.buffers = b; a.n_children = 4; a.children = cp;
  struct GeoArrowArrayView v; CK(GeoArrowArrayViewInitFromType(&v, GEOARROW_TYPE_BOX));
  CK(GeoArrowArrayViewSetArray(&v, &a, NULL));
  c[3].n_buffers = 1;
  REQ(GeoArrowArrayViewSetArray(&v, &a, NULL) == EINVAL);
  return 0;
}
''')
S["m06-empty-inner-list"]=dict(prop="M06",needs="a polygon array with no rings whose ring list has no child",
 what="the number of children of a list is only checked when the list has elements",
 edits=[(SRC+"array_view.c","""  if (array->n_children != 1) {
    ArrowErrorSet(""","""  if ((level == 0 || array->length > 0) && array->n_children != 1) {
    ArrowErrorSet(""")],demo=PRE+r'''
int main(void) {
  int32_t o[] = {0}; const void* lb[] = {NULL, o}; const void* b[] = {NULL};
  double x[] = {0}; const void* xb[] = {NULL, x};
  struct ArrowArray l[2], a, c[2]; struct ArrowArray* cp[] = {&c[0], &c[1]}; struct ArrowArray* lp[] = {&l[1]}; struct ArrowArray* ap[] = {&a, NULL};
  memset(l, 0, sizeof(l)); memset(&a, 0, sizeof(a)); memset(c, 0, sizeof(c));
  for (int i = 0; i < 2; i++) { c[i].n_buffers = 2; c[i].buffers = xb; l[i].n_buffers = 2; l[i].buffers = lb; l[i].n_children = 1; }
  a.n_buffers = 1; a.buffers = b; a.n_children = 2; a.children = cp;
  l[0].children = lp; l[1].children = ap;
  struct GeoArrowArrayView v; CK(GeoArrowArrayViewInitFromType(&v, GEOARROW_TYPE_POLYGON));
  CK(GeoArrowArrayViewSetArray(&v, &l[0], NULL));
  l[1].n_children = 0;
  REQ(GeoArrowArrayViewSetArray(&v, &l[0], NULL) == EINVAL);
  return 0;
}
''')
S["m06-fixed-size-order"]=dict(prop="M06",needs="a list of fixed-size lists whose schema has no child",
 what="the format of a fixed-size list's child is looked at before the number of children",
 edits=[(SRC+"schema_view.c","""  if (schema->n_children != 1 || strcmp(schema->children[0]->format, "g") != 0) {""",
 """  if (strcmp(schema->children[0]->format, "g") != 0 || schema->n_children != 1) {""")],demo=PRE+r'''
#include <sys/wait.h>
#include <unistd.h>
static int child(void) {
  struct ArrowSchema w = sch("+w:2", "", 0, NULL); struct ArrowSchema* wp[] = {&w};
  struct ArrowSchema l = sch("+l", "", 1, wp);
  struct GeoArrowSchemaView v; struct GeoArrowStringView e = {"geoarrow.linestring", 19};
  REQ(GeoArrowSchemaViewInitFromStorage(&v, &l, e, NULL) == EINVAL);
  return 0;
}
int main(void) {
  pid_t p = fork();
  if (p == 0) _exit(child());
  int st = 1; waitpid(p, &st, 0);
  REQ(st == 0);
  return 0;
}
''')
S["m06-list-children-int32"]=dict(prop="M06",needs="a struct coordinate array whose number of children is right only in its low 32 bits",
 what="the number of children is narrowed before it is compared",
 edits=[(SRC+"array_view.c","""        if (array->n_children != array_view->coords.n_values) {
          GeoArrowErrorSet(error,""","""        if ((int32_t)array->n_children != array_view->coords.n_values) {
          GeoArrowErrorSet(error,""")],demo=PRE+r'''
int main(void) {
  double x[] = {1, 2};
  const void* xb[] = {NULL, x}; const void* b[] = {NULL};
  struct ArrowArray c[2], a; struct ArrowArray* cp[] = {&c[0], &c[1]};
  memset(c, 0, sizeof(c)); memset(&a, 0, sizeof(a));
  for (int i = 0; i < 2; i++) { c[i].length = 2; c[i].n_buffers = 2; c[i].buffers = xb; }
  a.length = 2; a.n_buffers = 1; a.buffers = b; a.n_children = 2; a.children = cp;
  struct GeoArrowArrayView v; CK(GeoArrowArrayViewInitFromType(&v, GEOARROW_TYPE_POINT));
  CK(GeoArrowArrayViewSetArray(&v, &a, NULL));
  a.n_children = 2 - (1LL << 32);
  REQ(GeoArrowArrayViewSetArray(&v, &a, NULL) == EINVAL);
  return 0;
}
''')

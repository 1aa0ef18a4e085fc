/* C14: the tables and functions of the element classes describe the reference elements.
 * The reference elements are given here by their corners; faces are the maximal sets of corners on a supporting plane. */
#include <t8_eclass/t8_eclass.h>
#include <t8_element/t8_element.h>
#include <t8_element/t8_element_shape.h>
#include "vp.h"
extern "C" int t8_element_shape_vtk_to_t8_corner_number (int element_shape, int index); /* the header declares it under another name */
extern "C" const int *vp_c_table (int k, int *len);
static const int NV[8] = { 1, 2, 4, 3, 8, 4, 6, 5 }, NFA[8] = { 0, 2, 4, 3, 6, 4, 5, 5 }, DI[8] = { 0, 1, 2, 2, 3, 3, 3, 3 },
                 NED[8] = { 0, 1, 4, 3, 12, 6, 9, 8 };
/* corners as bits x=1, y=2, z=4 */
static const int CO[8][8] = { { 0 }, { 0, 1 }, { 0, 1, 2, 3 }, { 0, 1, 3 }, { 0, 1, 2, 3, 4, 5, 6, 7 }, { 0, 1, 5, 7 }, { 0, 1, 3, 4, 5, 7 }, { 0, 1, 2, 3, 7 } };
/* planes of the faces n*x = d, n pointing inwards, in the documented face order */
static const int PL[8][6][4] = {
  { { 0 } }, { { 1, 0, 0, 0 }, { -1, 0, 0, -1 } },
  { { 1, 0, 0, 0 }, { -1, 0, 0, -1 }, { 0, 1, 0, 0 }, { 0, -1, 0, -1 } },
  { { -1, 0, 0, -1 }, { 1, -1, 0, 0 }, { 0, 1, 0, 0 } },
  { { 1, 0, 0, 0 }, { -1, 0, 0, -1 }, { 0, 1, 0, 0 }, { 0, -1, 0, -1 }, { 0, 0, 1, 0 }, { 0, 0, -1, -1 } },
  { { -1, 0, 0, -1 }, { 1, 0, -1, 0 }, { 0, -1, 1, 0 }, { 0, 1, 0, 0 } },
  { { -1, 0, 0, -1 }, { 1, -1, 0, 0 }, { 0, 1, 0, 0 }, { 0, 0, 1, 0 }, { 0, 0, -1, -1 } },
  { { 1, 0, -1, 0 }, { -1, 0, 0, -1 }, { 0, 1, -1, 0 }, { 0, -1, 0, -1 }, { 0, 0, 1, 0 } },
};
static int cc (int c, int v, int k) { return CO[c][v] >> k & 1; }
static int side (int c, int f, int v)
{
  int s = -PL[c][f][3];
  for (int k = 0; k < 3; k++) s += PL[c][f][k] * cc (c, v, k);
  return s;
}
static bool on (int c, int f, int v) { return side (c, f, v) == 0; }
static int fnv (int c, int f)
{
  int n = 0;
  for (int v = 0; v < 8; v++) if (v < NV[c] && on (c, f, v)) n++;
  return n;
}
/* two corners span an edge if they are the only corners common to all faces they have in common, and those are enough */
static bool is_edge (int c, int a, int b)
{
  if (a == b || a < 0 || b < 0 || a >= NV[c] || b >= NV[c]) return false;
  int common = 0, others = 0;
  for (int f = 0; f < 6; f++) if (f < NFA[c] && on (c, f, a) && on (c, f, b)) common++;
  for (int v = 0; v < 8; v++) {
    if (v >= NV[c] || v == a || v == b) continue;
    bool in = true;
    for (int f = 0; f < 6; f++) if (f < NFA[c] && on (c, f, a) && on (c, f, b) && !on (c, f, v)) in = false;
    if (in) others++;
  }
  return DI[c] == 1 || (common == DI[c] - 1 && others == 0);
}
static int cls () { return (int) vp_in (0, 7); }
extern "C" void vp_harness (void)
{
#if PART == 0
  const int c = cls ();
  VP_CHECK (t8_eclass_to_dimension[c] == DI[c], "dimension");
  VP_CHECK (t8_eclass_num_vertices[c] == NV[c], "number of vertices");
  VP_CHECK (t8_eclass_num_faces[c] == NFA[c], "number of faces");
  VP_CHECK (t8_eclass_num_edges[c] == NED[c], "number of edges");
  VP_CHECK (t8_eclass_max_num_faces[DI[c]] >= NFA[c], "maximum number of faces of a dimension");
  VP_CHECK (t8_eclass_max_num_children[c] == (c == T8_ECLASS_PYRAMID ? 10 : 1 << DI[c]), "number of children");
  VP_CHECK (t8_eclass_is_valid ((t8_eclass_t) c) != 0, "class is valid");
  VP_CHECK (!t8_eclass_is_valid (T8_ECLASS_COUNT) && !t8_eclass_is_valid (T8_ECLASS_INVALID), "no class is invalid");
  VP_CHECK (t8_element_shape_num_faces (c) == NFA[c] && t8_element_shape_num_vertices (c) == NV[c], "numbers of faces and vertices of a shape");
  const int v = (int) vp_in (0, NV[c] - 1), k = (int) vp_in (0, 2);
  VP_CHECK (t8_element_corner_ref_coords[c][v][k] == (double) cc (c, v, k), "reference coordinates of the corners");
  int sum = 0;
  for (int w = 0; w < 8; w++) if (w < NV[c]) sum += cc (c, w, k);
  const double d = t8_element_centroid_ref_coords[c][k] * NV[c] - sum;
  VP_CHECK (d < 1e-12 && d > -1e-12, "reference coordinates of the centroid");
  /* counts of boundary objects */
  const int m = (int) vp_in (0, 3);
  int per[8], want[8], tot = 0;
  for (int t = 0; t < 8; t++) { per[t] = -7; want[t] = 0; }
  if (c != T8_ECLASS_VERTEX && m <= 0) want[T8_ECLASS_VERTEX] = NV[c];
  if (DI[c] >= 2 && m <= 1) want[T8_ECLASS_LINE] = NED[c];
  if (DI[c] == 3 && m <= 2)
    for (int f = 0; f < 6; f++) if (f < NFA[c]) want[fnv (c, f) == 3 ? T8_ECLASS_TRIANGLE : T8_ECLASS_QUAD]++;
  const int n = t8_eclass_count_boundary ((t8_eclass_t) c, m, per);
  bool ok = true;
  for (int t = 0; t < 8; t++) { ok = ok && per[t] == want[t]; tot += want[t]; }
  VP_CHECK (ok, "boundary objects of each class");
  VP_CHECK (n == tot, "total number of boundary objects");
  vp_witness ("class");
#elif PART == 1
  const int c = cls ();
  vp_assume (DI[c] > 0);
  const int f = (int) vp_in (0, NFA[c] - 1);
  const int *fv = t8_face_vertex_to_tree_vertex[c][f];
  const int n = fnv (c, f);
  unsigned seen = 0;
  bool ok = true;
  for (int i = 0; i < 4; i++) {
    if (i >= n) continue;
    ok = ok && fv[i] >= 0 && fv[i] < NV[c];
    vp_assume (fv[i] >= 0 && fv[i] < 8);
    ok = ok && on (c, f, fv[i]) && !(seen >> fv[i] & 1);
    if (i > 0) ok = ok && fv[i - 1] < fv[i];
    seen |= 1u << fv[i];
  }
  VP_CHECK (ok, "vertices of a face in order");
  VP_CHECK (t8_eclass_face_types[c][f] == (DI[c] == 1 ? T8_ECLASS_VERTEX : DI[c] == 2 ? T8_ECLASS_LINE : n == 3 ? T8_ECLASS_TRIANGLE : T8_ECLASS_QUAD), "class of a face");
  if (DI[c] == 3) {
    int a[3], b[3];
    for (int k = 0; k < 3; k++) { a[k] = cc (c, fv[1], k) - cc (c, fv[0], k); b[k] = cc (c, fv[2], k) - cc (c, fv[0], k); }
    const int x[3] = { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] };
    int dot = 0;
    for (int k = 0; k < 3; k++) dot += x[k] * PL[c][f][k];
    VP_CHECK (dot != 0 && t8_eclass_face_orientation[c][f] == (dot > 0 ? 0 : 1), "orientation of a face");
  }
  else VP_CHECK (t8_eclass_face_orientation[c][f] == 0, "orientation of a face in two dimensions or less");
  if (c == T8_ECLASS_TET)
    for (int k = 0; k < 3; k++) VP_CHECK (t8_reference_face_normal_tet[f][k] == PL[c][f][k], "reference normals of the tetrahedron");
  vp_witness ("face");
#elif PART == 2
  const int c = cls ();
  vp_assume (DI[c] >= 2 && c != T8_ECLASS_PYRAMID); /* no edge tables for pyramids */
  const int e = (int) vp_in (0, NED[c] - 1), e2 = (int) vp_in (0, NED[c] - 1);
  const int a = t8_edge_vertex_to_tree_vertex[c][e][0], b = t8_edge_vertex_to_tree_vertex[c][e][1];
  VP_CHECK (a >= 0 && a < NV[c] && b >= 0 && b < NV[c], "vertices of an edge in range");
  vp_assume (a >= 0 && a < NV[c] && b >= 0 && b < NV[c]);
  VP_CHECK (is_edge (c, a, b) && a < b, "vertices of an edge");
  const int a2 = t8_edge_vertex_to_tree_vertex[c][e2][0], b2 = t8_edge_vertex_to_tree_vertex[c][e2][1];
  VP_CHECK (e == e2 || a != a2 || b != b2, "different edges have different vertices");
  if (DI[c] == 3) {
    const int p = t8_edge_to_face[c][e][0], q = t8_edge_to_face[c][e][1];
    VP_CHECK (p >= 0 && p < NFA[c] && q >= 0 && q < NFA[c] && p != q, "faces at an edge in range");
    vp_assume (p >= 0 && p < NFA[c] && q >= 0 && q < NFA[c]);
    VP_CHECK (on (c, p, a) && on (c, p, b) && on (c, q, a) && on (c, q, b), "faces at an edge contain it");
  }
  else VP_CHECK (t8_edge_to_face[c][e][0] == e && on (c, e, a) && on (c, e, b), "edges of a two-dimensional class are its faces");
  const int f = (int) vp_in (0, NFA[c] - 1), n = fnv (c, f), ne = DI[c] == 3 ? n : 1;
  const int i = (int) vp_in (0, ne - 1), j = (int) vp_in (0, ne - 1);
  const int g = t8_face_edge_to_tree_edge[c][f][i];
  VP_CHECK (g >= 0 && g < NED[c] && (i == j || g != t8_face_edge_to_tree_edge[c][f][j]), "edges of a face differ");
  vp_assume (g >= 0 && g < NED[c]);
  VP_CHECK (on (c, f, t8_edge_vertex_to_tree_vertex[c][g][0]) && on (c, f, t8_edge_vertex_to_tree_vertex[c][g][1]), "edges of a face lie in it");
  /* the edge leaving the face at each of its vertices */
  const int k = (int) vp_in (0, n - 1), w = t8_face_vertex_to_tree_vertex[c][f][k], h = t8_face_to_edge_neighbor[c][f][k];
  VP_CHECK (h >= 0 && h < NED[c], "edge neighbour in range");
  vp_assume (h >= 0 && h < NED[c] && w >= 0 && w < NV[c]);
  const int ha = t8_edge_vertex_to_tree_vertex[c][h][0], hb = t8_edge_vertex_to_tree_vertex[c][h][1];
  VP_CHECK ((ha == w && !on (c, f, hb)) || (hb == w && !on (c, f, ha)), "the edge neighbour of a face vertex leaves the face at that vertex");
  vp_witness ("edge");
#elif PART == 3
  const int c = cls ();
  static const int VT[8] = { 1, 3, 9, 5, 12, 10, 13, 14 };
  VP_CHECK (t8_eclass_vtk_type[c] == VT[c], "vtk type");
  const int v = (int) vp_in (0, NV[c] - 1);
  const int *T = t8_eclass_vtk_to_t8_corner_number[c];
  const int w = T[v], x = t8_eclass_t8_to_vtk_corner_number[c][v];
  VP_CHECK (w >= 0 && w < NV[c] && x >= 0 && x < NV[c], "vtk corner numbers in range");
  VP_CHECK (t8_element_shape_vtk_type (c) == VT[c] && t8_element_shape_vtk_to_t8_corner_number (c, v) == w && t8_element_shape_t8_to_vtk_corner_number (c, v) == x, "vtk type and corner numbers of a shape");
  vp_assume (w >= 0 && w < NV[c] && x >= 0 && x < NV[c]);
  VP_CHECK (t8_eclass_t8_to_vtk_corner_number[c][w] == v && T[x] == v, "vtk corner maps invert each other");
  /* vtk: the base is a closed walk along edges, further corners lie above the base corners or are the apex */
  const int base = c == T8_ECLASS_QUAD || c == T8_ECLASS_HEX || c == T8_ECLASS_PYRAMID ? 4 : DI[c] >= 2 ? 3 : 0;
  if (base) {
    const int i = (int) vp_in (0, base - 1);
    VP_CHECK (is_edge (c, T[i], T[(i + 1) % base]), "vtk base walks along edges");
    if (c == T8_ECLASS_HEX || c == T8_ECLASS_PRISM) {
      VP_CHECK (is_edge (c, T[i], T[i + base]), "vtk upper corners lie above the base");
      VP_CHECK (is_edge (c, T[i + base], T[base + (i + 1) % base]), "vtk top walks along edges");
    }
  }
  if (DI[c] == 3) {
    int a[3], b[3], d[3];
    for (int k = 0; k < 3; k++) { a[k] = cc (c, T[1], k) - cc (c, T[0], k); b[k] = cc (c, T[2], k) - cc (c, T[0], k); d[k] = cc (c, T[base], k) - cc (c, T[0], k); }
    const int det = (a[1] * b[2] - a[2] * b[1]) * d[0] + (a[2] * b[0] - a[0] * b[2]) * d[1] + (a[0] * b[1] - a[1] * b[0]) * d[2];
    VP_CHECK (c == T8_ECLASS_PRISM ? det < 0 : det > 0, "vtk orientation");
  }
  vp_witness ("vtk");
#elif PART == 4
  const int a = cls (), b = cls (), c = cls ();
  vp_assume (DI[a] == DI[b] && DI[b] == DI[c]);
  static const int rank[8] = { 0, 0, 1, 0, 1, 0, 2, 3 };
  const int x = t8_eclass_compare ((t8_eclass_t) a, (t8_eclass_t) b);
  VP_CHECK ((x < 0) == (rank[a] < rank[b]) && (x > 0) == (rank[a] > rank[b]) && (x == 0) == (a == b), "order of the classes of a dimension");
  VP_CHECK (t8_element_shape_compare ((t8_element_shape_t) a, (t8_element_shape_t) b) == x, "order of shapes");
  vp_witness ("compare");
#elif PART == 5
#define T(n, name) { int len; const int *p = vp_c_table (n, &len); const long i = vp_in (0, (long) (sizeof (name) / sizeof (int)) - 1); \
    VP_CHECK (len == (int) (sizeof (name) / sizeof (int)) && p[i] == ((const int *) name)[i], "C and C++ tables agree"); }
  T (0, t8_eclass_to_dimension) T (1, t8_eclass_num_faces) T (2, t8_eclass_max_num_faces) T (3, t8_eclass_max_num_children)
  T (4, t8_face_vertex_to_tree_vertex) T (5, t8_face_edge_to_tree_edge) T (6, t8_face_to_edge_neighbor)
  T (7, t8_edge_vertex_to_tree_vertex) T (8, t8_edge_to_face) T (9, t8_eclass_face_orientation) T (10, t8_reference_face_normal_tet)
  T (11, t8_eclass_num_vertices) T (12, t8_eclass_num_edges) T (13, t8_eclass_vtk_type) T (14, t8_eclass_vtk_to_t8_corner_number)
  T (15, t8_eclass_t8_to_vtk_corner_number) T (16, t8_eclass_face_types) T (17, t8_eclass_boundary_count)
  vp_witness ("tables");
#endif
}

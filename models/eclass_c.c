/* not a model: gives the harness (C++) access to the C copies of the tables */
#include <t8_eclass/t8_eclass.h>
#define T(n, name) if (k == n) { *len = (int) (sizeof (name) / sizeof (int)); return (const int *) name; }
const int *
vp_c_table (int k, int *len)
{
  T (0, t8_eclass_to_dimension) T (1, t8_eclass_num_faces) T (2, t8_eclass_max_num_faces) T (3, t8_eclass_max_num_children)
  T (4, t8_face_vertex_to_tree_vertex) T (5, t8_face_edge_to_tree_edge) T (6, t8_face_to_edge_neighbor)
  T (7, t8_edge_vertex_to_tree_vertex) T (8, t8_edge_to_face) T (9, t8_eclass_face_orientation) T (10, t8_reference_face_normal_tet)
  T (11, t8_eclass_num_vertices) T (12, t8_eclass_num_edges) T (13, t8_eclass_vtk_type) T (14, t8_eclass_vtk_to_t8_corner_number)
  T (15, t8_eclass_t8_to_vtk_corner_number) T (16, t8_eclass_face_types) T (17, t8_eclass_boundary_count)
  return 0;
}

ELS = [DS + 't8_default_%s' % e for e in ('vertex', 'line', 'quad', 'tri', 'hex', 'tet', 'prism', 'pyramid')] + ['src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx']
BASE = 'Every query is symbolic over all coordinates, types and flags of the elements at the stated levels; '
prop('C01', 'Every element class forms one refinement tree',
     'For every element of every element class, its children are elements of the next level that lie in the tree, child i reports child id i and the element as its parent, and every non-root element is exactly the child of its parent with its own child id. Numbers of children and siblings agree with that. Writing a result over the input element gives the same result.',
     ['inputs'], 'all elements of all levels of all eight default and four standalone element classes',
     'The tests walk the tree to depth 4-5 from the root; coordinates have up to 30 bits and the types of deep elements depend on the whole path.',
     ELS, [('child / parent / child id / sibling / children tables', 'element_get_child, element_get_parent, element_get_child_id, element_get_sibling, element_get_children')],
     BASE + 'levels are symbolic over the full range for all classes except pyramids (levels listed in the evidence) and standalone.')
prop('C02', 'Linear ids number the leaves of a level consecutively and invertibly',
     'The ids of the elements of a level are exactly 0 to number of leaves minus one in tree order: constructing an element from its id and level and asking for its id are inverse to each other. The ids of an element\'s children partition its id range, and leaf counts equal the sizes of these ranges.',
     ['inputs'], 'all elements and ids at all levels, seen from all coarser and finer levels',
     'Tests enumerate uniform refinements of low level; overflow, the alternating pyramid counts and deep type computations are only reached by large levels.',
     ELS, [('id interleaving', 'element_get_linear_id, element_set_linear_id'), ('leaf counts', 'element_count_leaves, count_leaves_from_root')],
     BASE + 'level pairs as in the evidence; deep pyramids, triangles, tets and prisms partly along fixed path patterns.')
prop('C03', 'Element order and equality agree with the linear ids',
     'Comparing two elements orders them by position on the space-filling curve, an ancestor before its descendants, and yields zero exactly for identical elements. The equality predicate holds exactly for identical elements.',
     ['inputs'], 'all pairs of elements of the same class and of any two levels',
     'Tests compare a few generations of descendants of the root; order bugs need particular level differences and coordinates.',
     ELS, [('comparison', 'element_compare'), ('equality', 'element_is_equal')], BASE + 'level pairs as in the evidence.')
prop('C04', 'The successor of an element is the next element of the level',
     'For every element except the last one of its level, constructing its successor gives the element of the same level whose id is one larger. Writing the successor over the element itself gives the same result.',
     ['inputs'], 'all elements of all levels but the last of each level',
     'Tests walk uniform refinements up to level 4 to 6; carries over many levels appear only deeper.',
     ELS, [('successor recursion', 'element_construct_successor')], BASE + 'levels as in the evidence, deep ones with the last levels symbolic.')
prop('C05', 'First and last descendants bound the descendants of an element',
     'For every element and every level at least its own, the first (last) descendant is the element itself at its own level and otherwise the first (last) descendant of its first (last) child. The input element is left unchanged.',
     ['inputs'], 'all elements, all pairs of level and descendant level',
     'Tests use a few levels below the root; the deep descendants rely on closed formulas.',
     ELS, [('descendants', 'element_get_first_descendant, element_get_last_descendant')], BASE + 'level pairs as in the evidence.')
prop('C06', 'Ancestor queries agree with walking up the tree',
     'The ancestor id at a level is the child id of the ancestor of that level, an element is reported as ancestor of another exactly if repeated parents of the latter reach the former, and the nearest common ancestor is the first element both climbs share.',
     ['inputs'], 'all elements and all pairs of elements of any two levels',
     'Tests check pairs near the root; the closed bit formulas differ from climbing only for particular types and levels.',
     ELS, [('ancestor id', 'element_get_ancestor_id'), ('ancestor test', 'element_is_ancestor'), ('nearest common ancestor', 'element_get_nca')],
     BASE + 'level pairs as in the evidence; nearest common ancestors of pyramids up to level 2 (quick).')
prop('C07', 'A tuple is a family exactly if it is all children of one element',
     'The family test accepts a tuple of elements exactly if they are all the children of one element, in order. In particular a tuple of level-0 elements is no family, and no mixture of children of different elements is accepted.',
     ['inputs'], 'all tuples of elements of any levels (pyramids: all tuples with at most one foreign member)',
     'Tests only try true families and a few hand-made perturbations; coarsening relies on rejecting every other tuple.',
     ELS, [('family test', 'elements_are_family')], BASE + 'levels symbolic over the full range (standalone: levels listed).')
prop('C08', 'Face neighbours match geometrically, also at the tree boundary',
     'A face of an element has a neighbour in its tree exactly if it is not part of the boundary of the tree, and the root-boundary test and the tree face agree with that. The neighbour is an element of the same level that shares exactly the corners of that face, at the face number reported for it. The neighbour of the neighbour across that face is the element itself.',
     ['inputs'], 'all elements and faces of every class',
     'Tests visit the neighbours of a few low-level elements; the neighbour tables depend on type, boundary position and level.',
     ELS, [('face neighbour', 'element_get_face_neighbor_inside'), ('tree boundary', 'element_is_root_boundary, element_get_tree_face')],
     BASE + 'levels symbolic over the full range except pyramid trees (levels listed) and standalone (levels listed).')
prop('C09', 'Children, parents and descendants at a face agree with the geometry',
     'The children reported at a face of an element are exactly its children that touch the face, in ascending order, and the reported face of such a child lies in that face. The parent face is the face of the parent that contains the face, or -1 if there is none (at level 0 the face itself). First and last descendant at a face are those of the first and last child at the face.',
     ['inputs'], 'all elements and faces of every class, all pairs of level and descendant level',
     'Tests check few levels near the root; the lists depend on the type and orientation of the element.',
     ELS, [('children at a face', 'element_get_children_at_face, element_get_num_face_children, element_face_get_child_face'), ('parent face', 'element_face_get_parent_face'), ('descendants at a face', 'element_get_first_descendant_face, element_get_last_descendant_face')],
     BASE + 'levels and level pairs as in the evidence.')
prop('C10', 'Boundary faces, their extrusion and face transformations are consistent',
     'The boundary face of an element at the tree boundary is the element of the face class at the same level occupying that face in the coordinates of the root face, and extruding it gives element and face number back. Transforming a face element between two trees maps it to an element of the same level according to orientation and sign, the transformation from the bigger face inverts the one from the smaller face, and it may be done in place.',
     ['inputs'], 'all elements at the tree boundary, all face elements, orientations and signs',
     'Tests use low levels and few orientations; neighbours across trees rely on every combination.',
     ELS, [('boundary face', 'element_get_boundary_face'), ('extrusion', 'element_extrude_face'), ('transformation', 'element_transform_face')],
     BASE + 'levels as in the evidence.')
prop('C11', 'Coordinates of elements agree with their position in the tree',
     'The reference coordinates, the integer coordinates and the anchor of an element are the exact positions of its corners in the root element. Reference points are mapped affinely so that the corners of the reference element land on the corners of the element, for any number of points and without writing behind them.',
     ['inputs'], 'all elements of every class and all their corners; reference points at corners and midpoints',
     'Tests compare coordinates of low-level elements; types and deep levels change the formulas.',
     ELS, [('corners', 'element_get_vertex_reference_coords, element_get_vertex_integer_coords'), ('anchor', 'element_get_anchor'), ('points', 'element_get_reference_coords')],
     BASE + 'levels as in the evidence; exact floating point.')
prop('C12', 'Shape queries describe the actual element',
     'Level, shape, numbers of corners, faces, children and face children, face shapes, corners of faces, faces of corners, refinability and sizes reported for an element describe that element. Copying gives an equal element and setting to root gives the root.',
     ['inputs'], 'all elements of every class',
     'Tests look at few elements; pyramid trees mix shapes depending on the element.',
     ELS, [('shape queries', 'element_get_shape, element_get_face_shape, element_get_face_corner, element_get_corner_face, ...'), ('copy, root', 'element_copy, set_to_root')],
     BASE + 'levels symbolic over the full range except pyramids (levels listed).')
prop('C13', 'Packing and unpacking elements for MPI preserves them',
     'Elements packed into a message buffer and unpacked again, together or one by one, are the same elements, packing advances the position by at most the announced size, unpacking consumes exactly what was packed, and nothing else is written.',
     ['inputs'], 'all pairs of elements of every class',
     'Tests pack a few elements; a forgotten field shows only for particular elements.',
     ELS, [('packing', 'element_MPI_Pack, element_MPI_Pack_size, element_MPI_Unpack')],
     BASE + 'two elements per message; the model of MPI_Pack/Unpack is validated by native replay with the installed MPI.')
prop('C14', 'The tables of the element classes describe one consistent set of polytopes',
     'Dimensions, numbers of faces, edges, vertices and children, the vertices of faces and edges, the edges of faces, the neighbouring edges and the reference corner coordinates and centroids of the eight element classes describe the same polytopes consistently. The conversion of corner numbers to and from VTK is invertible, and the C and C++ views of the tables agree. Comparing classes is a total order that is zero exactly for classes of the same shape.',
     ['inputs'], 'all element classes, faces, edges and corners',
     'Tests read few table entries; geometry, orientation and I/O code relies on every entry.',
     ['src/t8_eclass', 'src/t8_element/t8_element.cxx', 'src/t8_element/t8_element_shape.c'],
     [('class tables', 't8_eclass.c, t8_eclass.h'), ('reference corners and centroids', 't8_element_corner_ref_coords, t8_element_centroid_ref_coords'), ('VTK corner numbers', 't8_eclass_vtk_to_t8_corner_number, t8_element_shape.c')],
     'All indices are symbolic; complete over the finite tables.')
prop('C15', 'The cmesh partition tables assign trees to processes consistently',
     'For every valid offset table, with empty processes and shared first trees, the first and last tree, the number of trees, emptiness, ownership and next nonempty process of a rank agree with the intervals the table encodes. When repartitioning from one valid table to another, every tree a rank newly needs is sent to it by exactly one process, the smallest that owns it, a rank that already has it keeps it, and the reported ranges of senders and receivers contain exactly the processes that send.',
     ['inputs'], 'all valid offset tables of up to five processes and all pairs of them',
     'Tests use special repartitionings; shared trees and empty ranks at particular places break the searches.',
     ['src/t8_cmesh/t8_cmesh_internal/t8_cmesh_offset.c', 'src/t8_cmesh/t8_cmesh_internal/t8_cmesh_offset.h'],
     [('tables', 't8_offset_first, t8_offset_last, t8_offset_num_trees, t8_offset_empty, t8_offset_in_range'), ('owners', 't8_offset_first_owner_of_tree, t8_offset_next_owner_of_tree, t8_offset_all_owners_of_tree'), ('senders', 't8_offset_sendstree, t8_offset_sendsto, t8_offset_range_send')],
     'Numbers of processes and bounds on tree numbers as in the evidence (3 to 5 processes, tree numbers up to 2^60).')
NAF = 'Not encoded: '
prop('N01', 'Ghost layers contain exactly the remote face neighbours',
     'After creating ghosts, a process holds exactly the leaf elements of other processes that share a face with its own leaves, each once and in order.',
     ['schedules', 'inputs'], 'all distributed forests', 'Needs all adaptive meshes, partitions and message orders.',
     ['src/t8_forest/t8_forest_ghost.cxx'], [('ghost exchange', 't8_forest_ghost_create')],
     NAF + 'the ghost layer is built by MPI messages among several processes over hash tables and reference counted forests; no tool here executes several MPI processes symbolically, and a one-process encoding has no ghosts.', claim=False)
prop('N02', 'Balance yields the coarsest 2:1 balanced refinement',
     'A balanced forest has leaf neighbours differing by at most one level, refines the input and adds no unneeded refinement.',
     ['inputs'], 'all forests', 'Ripple effects over arbitrary adaptive meshes.',
     ['src/t8_forest/t8_forest_balance.cxx'], [('balance loop', 't8_forest_balance')],
     NAF + 'the loop creates a chain of forests (adapt, partition, ghost) with unbounded heap data and MPI collectives; the smallest nontrivial instance exceeds what the bounded encoding reaches.', claim=False)
prop('N03', 'Files written by the mesh writers describe the forest',
     'VTK, netCDF and cmesh save files contain exactly the elements, coordinates and data of the forest, and reading a saved cmesh restores it.',
     ['inputs', 'crash_points'], 'all forests and files', 'Unbounded input files.',
     ['src/t8_vtk', 'src/t8_cmesh/t8_cmesh_save.cxx', 'src/t8_cmesh/t8_cmesh_readmshfile.cxx'], [('writers and readers', 't8_forest_vtk_write_file, t8_cmesh_save, t8_cmesh_from_msh_file')],
     NAF + 'formatted text input and output (fprintf, sscanf of floating point numbers), VTK, netCDF and OpenCASCADE libraries are not available as encodable source.', claim=False)

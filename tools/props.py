"""The properties: one entry each; gen.py writes properties.jsonl and MANIFEST.json from it.
P(id, title, statement, quantifier text, why tests cannot, files, mechanisms)"""
PROPS = []
SRC = 'src/gpytoolbox/'


def P(id, title, statement, quant, why, files, mech, over=('inputs',), note=''):
    PROPS.append(dict(id=id, title=title, statement=' '.join(statement.split()), quant=' '.join(quant.split()), why=' '.join(why.split()),
                      files=[SRC + f + '.py' for f in files.split()], mech=mech, over=list(over), note=note))


# ---------------------------------------------------------------- mesh topology
P('T01', 'Edges and boundary edges agree with the faces of any triangle mesh',
  '''The edge list of a triangle mesh holds every undirected edge of the faces exactly once; an edge is reported as boundary exactly when one face uses it,
  interior when two do and non-manifold when more do, and all index lists point at those edges of the returned list. Boundary edges keep the orientation of their face.''',
  'every face list within the size bound: any connectivity, labels, orientation and face order',
  'Tests compare counts on a few closed or disk-like meshes; connectivity is unbounded and non-manifold or inconsistently oriented input is almost unsampled.',
  'edges boundary_edges edge_indices non_manifold_edges halfedges boundary_vertices', ['edges: unique/count on sorted half-edges', 'boundary_edges', 'non_manifold_edges', 'edge_indices'])
P('T02', 'Half-edge, edge and triangle adjacency maps are mutually consistent',
  '''The maps between half-edges, edges and triangles are inverse to each other: each half-edge maps to the edge with its end points, each edge lists exactly its half-edges.
  Two triangles are reported adjacent exactly when they share that edge, the relation is symmetric and boundary edges have no neighbour.''',
  'every edge-manifold or general face list within the size bound', 'Tests sample a handful of meshes and mostly check round trips on manifold ones.',
  'halfedge_edge_map triangle_triangle_adjacency halfedges', ['halfedge_edge_map', 'triangle_triangle_adjacency'])
P('T03', 'Faces and boundary faces agree with the tetrahedra of any tet mesh',
  '''The face list of a tetrahedral mesh holds every triangle of the tets exactly once; boundary, interior and non-manifold faces are those used by one, two or more tets,
  and boundary faces keep the outward orientation given by their tet.''',
  'every tetrahedron list within the size bound', 'Tests check a cube grid or a single tet; other gluings, labels and orders are not sampled.',
  'faces boundary_faces halffaces', ['faces', 'boundary_faces', 'halffaces'])
P('T04', 'Boundary loops traverse the whole boundary in order',
  '''The boundary loops of a manifold mesh are closed cycles of boundary vertices: consecutive entries are boundary edges traversed in face orientation, every boundary vertex occurs exactly once, and a closed mesh has no loops.''',
  'every manifold mesh with boundary within the size bound, any vertex labels and face order', 'Tests know the answer only for two or three meshes.',
  'boundary_loops boundary_edges halfedge_edge_map', ['boundary_loops'])
P('T05', 'Adjacency and connected components partition the vertices',
  '''Two vertices are adjacent exactly when they share an edge; two vertices get the same component exactly when a path of edges joins them, faces inherit the component of their vertices and components are numbered without gaps.
  Polyline edge indices describe the open or closed chains asked for.''',
  'every face list within the size bound', 'Tests concatenate a few known meshes; arbitrary connectivity is not sampled.',
  'adjacency_matrix connected_components edge_indices', ['adjacency_matrix', 'connected_components'])
P('T06', 'Cleaning a mesh preserves its geometry',
  '''Removing unreferenced vertices keeps exactly the referenced ones and the same faces up to the returned index maps; merging duplicates within a tolerance yields a mesh whose corners move no farther than the tolerance allows and leaves no mergeable pair in the rounding sense.
  Array correspondence returns matching rows, or -1 exactly when there is none.''',
  'every face list and vertex position within the size bound', 'Tests corrupt a mesh in one way and compare; which vertices repeat or are unused is an arbitrary subset.',
  'remove_unreferenced remove_duplicate_vertices array_correspondence', ['remove_unreferenced', 'remove_duplicate_vertices', 'array_correspondence'])
P('T07', 'Cutting edges only separates along the cut',
  '''Cutting a triangle mesh along edges keeps every face and its corner positions (through the returned map from new to old vertices); faces stay connected across an edge exactly when it was not cut, and corners around a vertex are merged exactly when connected through uncut edges.''',
  'every subset of edges of every mesh within the size bound', 'Tests cut a few fixed sets; the set of cut edges is exponential.',
  'cut_edges', ['cut_edges'])
P('S01', 'Subdivision keeps the surface and follows the stated rules',
  '''Upsampling a polyline or triangle mesh keeps the old vertices, adds exactly the midpoint of every edge once, and splits each element into children of the same orientation that tile it.
  Loop subdivision has the same connectivity and moves vertices by the Loop stencil (boundary rules at the boundary), so constants are reproduced. The returned matrix maps old to new vertices, and several iterations equal repeated single ones.''',
  'every edge-manifold face list of the bounded complexes under every vertex labelling, all real vertex positions', 'Tests check a few meshes numerically; index bookkeeping at boundaries depends on connectivity.',
  'subdivide halfedge_edge_map', ['_upsample_polyline', '_upsample_triangle_mesh', '_loop_triangle_mesh'])
# ---------------------------------------------------------------- discrete geometry
P('G01', 'The cotangent Laplacian is the Dirichlet energy of the mesh',
  '''The cotangent Laplacian is symmetric, annihilates constants, is positive semi-definite and equals the Dirichlet energy assembled from the gradient and the face areas; linear functions on a flat mesh are harmonic at interior vertices.
  Its off-diagonal entries are the negated half cotangents of the angles facing each edge.''',
  'all real coordinates of non-degenerate triangles, for each bounded connectivity', 'Tests compare against finite samples of coordinates with tolerances.',
  'cotangent_laplacian cotangent_laplacian_intrinsic cotangent_weights cotangent_weights_intrinsic grad doublearea', ['cotangent_weights_intrinsic', 'cotangent_laplacian_intrinsic'])
P('G02', 'Extrinsic and intrinsic operators agree and ignore rigid motions',
  '''Every operator offered both for vertex positions and for edge lengths gives the same result when the lengths come from the positions; all of them are invariant under translation and rotation and scale with the power of length they should.''',
  'all real coordinates within the connectivity bound; all rotations, translations and scales', 'Rotations and coordinates form a continuum; tests sample a few.',
  'halfedge_lengths halfedge_lengths_squared doublearea doublearea_intrinsic massmatrix massmatrix_intrinsic tip_angles tip_angles_intrinsic cotangent_weights cotangent_weights_intrinsic', ['halfedge_lengths', '*_intrinsic'])
P('G03', 'Gradients are exact for linear functions',
  '''The gradient operator on segments, triangles and tetrahedra maps a linear function to its (tangential) gradient on every element; on grids, finite differences do the same, and constants always map to zero.''',
  'all real coordinates of non-degenerate elements and all linear functions', 'Tests check convergence on particular meshes.',
  'grad grad_intrinsic', ['grad', 'grad_intrinsic'])
P('G04', 'Areas, volumes and mass matrices account for every element exactly',
  '''Double areas and signed volumes equal the cross-product and determinant formulas; every mass matrix is diagonal or symmetric, non-negative and sums to the total area (or length), with each element giving its share to its own vertices only; barycenters are corner averages.''',
  'all real coordinates within the connectivity bound', 'Tests verify totals for sample meshes only.',
  'doublearea doublearea_intrinsic massmatrix massmatrix_intrinsic volume barycenters', ['massmatrix_intrinsic', 'doublearea_intrinsic', 'volume'])
P('G05', 'Angles are the geometric angles',
  '''Tip angles are the interior angles opposite to the matching edge and sum to pi per triangle; the angle defect is two pi minus the incident angles at interior vertices and zero at the boundary; dihedral angles are the angles between neighbouring face planes in the documented convention.''',
  'all real coordinates of non-degenerate triangles within the connectivity bound', 'Tests sample; labelling mistakes that vanish on symmetric triangles stay hidden.',
  'tip_angles tip_angles_intrinsic angle_defect angle_defect_intrinsic dihedral_angles', ['tip_angles_intrinsic', 'angle_defect_intrinsic', 'dihedral_angles'])
P('G06', 'Normals are orthogonal to their faces and oriented by winding',
  '''Per-face normals are orthogonal to all edges of their face, follow the right-hand rule, and have unit length when asked (otherwise twice the area); per-vertex normals are the normalised area-weighted sum of incident face normals, and equal the plane normal on flat parts.''',
  'all real coordinates of non-degenerate elements in 2D and 3D within the connectivity bound', 'Tests check spheres and planes.',
  'per_face_normals per_vertex_normals', ['per_face_normals', 'per_vertex_normals'])
P('G07', 'Discrete exterior calculus operators compose as they should',
  '''Differentiating twice gives zero; the vertex, edge and face Hodge stars are diagonal and positive where the geometry is acute, each inverse star is the inverse of its star, and the Laplacian equals differential-transpose times edge star times differential.''',
  'all real coordinates within the connectivity bound; all edge orderings the library itself produces', 'Tests compare on a few meshes.',
  'dec_d0 dec_d1 dec_h0 dec_h0inv dec_h1 dec_h1inv dec_h2 dec_h2inv dec_h0_intrinsic dec_h0inv_intrinsic dec_h1_intrinsic dec_h1inv_intrinsic dec_h2_intrinsic dec_h2inv_intrinsic', ['dec_*'])
P('G08', 'The biharmonic energy is a symmetric energy that vanishes on constants',
  '''The biharmonic energy matrix is symmetric, vanishes on constants (and on linear functions over flat meshes for the boundary conditions that promise it), and equals the mass-weighted square of the Laplacian for the mixed discretisation.''',
  'all real coordinates within the connectivity bound', 'Tests sample meshes.',
  'biharmonic_energy biharmonic_energy_intrinsic', ['biharmonic_energy_intrinsic'])
# ---------------------------------------------------------------- distances and queries
P('D01', 'Point-to-element distance is the minimum over the element',
  '''The squared distance to a point, segment or triangle is realised by the returned point of the element (given by its barycentric coordinates, which are non-negative and sum to one), and no other point of the element is closer.''',
  'all real query points and element coordinates in 2D and 3D', 'The minimum ranges over a continuum; region boundaries of the case analysis are measure-zero for random tests.',
  'squared_distance_to_element', ['squared_distance_to_element'])
P('D02', 'Edge-edge and triangle-triangle distances are true minima',
  '''The distance between two segments (or two triangles) is never larger than the distance of any pair of their points and is attained by some pair; it is symmetric.''',
  'all real coordinates within the bounds', 'Case analysis over a continuum; parallel and touching configurations are measure-zero.',
  'edge_edge_distance triangle_triangle_distance', ['edge_edge_distance', 'triangle_triangle_distance'])
P('D03', 'Mesh distance queries equal the brute-force minimum',
  '''The squared distance from points to a cloud, polyline or triangle mesh is the minimum over all elements, with or without an acceleration structure, and the reported element attains it; minimum and Hausdorff distances between meshes obey the same.''',
  'all real query points and coordinates within the size bound', 'Tree traversal pruning errors need particular geometry.',
  'squared_distance squared_distance_precompute unsigned_distance minimum_distance approximate_hausdorff_distance traverse_aabbtree', ['squared_distance', 'minimum_distance'])
P('D04', 'Bounding-volume trees enclose and partition their elements',
  '''Every node box of a bounding-volume tree contains all elements below it; the leaves partition the elements; child links form one tree rooted at the first node.''',
  'all real element coordinates within the size bound', 'Tests check a few random sets.',
  'initialize_aabbtree traverse_aabbtree', ['initialize_aabbtree'])
P('R01', 'Ray casting reports exactly the hits that exist',
  '''A ray hits a box, triangle, polyline or mesh exactly when some point of the forward ray lies on it; the reported parameter, point and barycentric coordinates describe the same point, and for meshes it is the nearest hit.''',
  'all real ray origins, directions and element coordinates within the size bound', 'Hits are measured on a continuum; boundary cases are measure-zero.',
  'ray_box_intersect ray_triangle_intersect ray_polyline_intersect ray_mesh_intersect ray_mesh_intersect_precompute', ['ray_*_intersect'])
P('B01', 'Barycentric coordinates reproduce the point',
  '''The barycentric coordinates of a point with respect to a triangle sum to one and their weighted sum of corners is the point (its projection when off the plane).''',
  'all real points and non-degenerate triangles in 2D and 3D', 'Continuum of inputs.', 'barycentric_coordinates', ['barycentric_coordinates'])
# ---------------------------------------------------------------- quadtrees, grids
P('Q01', 'Quadtrees are well-formed, graded and refine where asked',
  '''A quadtree or octree has cells halving in size whose children tile their parent, with agreeing parent, child and depth entries; two cells are linked exactly when they share a face, with the direction from one to the other;
  leaf depths stay in the asked range, no leaf above the greatest depth holds a point, and adjacent leaves of a graded tree differ by at most one level. The leaf list, the boundary lists, the leaf containing a point and the display mesh are consistent with the cells.''',
  'all real point positions and root boxes, and every sequence of subdivisions, within the size and depth bound', 'Tests use one random cloud and count a few cells; the neighbour bookkeeping depends on the order and place of subdivisions.',
  'initialize_quadtree subdivide_quad quadtree_children in_quadtree quadtree_boundary bad_quad_mesh_from_quadtree', ['initialize_quadtree', 'subdivide_quad', 'in_quadtree', 'quadtree_children', 'quadtree_boundary'])
P('Q02', 'Quadtree operators are exact where they promise to be',
  '''On a graded quadtree the gradient and Laplacian annihilate constants, a coordinate has unit derivative along itself at every leaf (also one-sided at the border), and linear functions have their exact gradient and zero Laplacian at (inner) leaves with no larger neighbour;
  every row is the stencil of the leaves on both sides, averaged where two finer leaves share a side, over their centre distances, stored at the leaf centres.''',
  'all tree shapes reachable from the bounded inputs, root boxes of any place and size', 'Tests check convergence on one tree.',
  'quadtree_gradient quadtree_laplacian', ['quadtree_gradient', 'quadtree_laplacian'])
P('F01', 'Finite-difference operators differentiate linear and quadratic data exactly',
  '''Each row of a grid derivative operator is the difference of the two nodes around its staggered node over the spacing, in the documented ordering (first direction fastest), and the gradient stacks the partial derivatives in order, so linear data has its exact derivative;
  the Laplacian modes of a box are distinct products of the cosines with zero slope at the border, the lowest eigenvalues first, at the nodes of the grid.''',
  'all real spacings and data, every grid size within the bound', 'Tests check convergence rates of one function.',
  'fd_grad fd_partial_derivative grid_laplacian_eigenfunctions', ['fd_partial_derivative', 'fd_grad'])
P('F02', 'Grid interpolation is multilinear and partitions unity',
  '''Interpolation weights are non-negative, sum to one, involve only the nodes of the containing cell, and reproduce linear functions at every point inside the grid;
  the neighbours of a grid cell are exactly the cells of the requested neighbourhood and order, each once, itself included or not as asked, wrapping around or left out at the border as asked.''',
  'all real query points, spacings and origins; every grid size within the bound', 'Continuum of query points, with special cases at cell boundaries.',
  'fd_interpolate grid_neighbors', ['fd_interpolate', 'grid_neighbors'])
P('M01', 'Generated surface meshes have the promised topology and geometry',
  '''Icospheres and tori are closed, cylinders open at both ends, cones open at the base, circle polylines one closed loop: connected, consistently outward oriented manifolds of the promised genus and resolution whose vertices lie on the promised surface, are all used and never repeated (an embedded torus, evenly spaced levels and rings).''',
  'every resolution within the bound; all real radii', 'Tests check a few resolutions.',
  'icosphere cone cylinder torus regular_circle_polyline', ['icosphere', 'cylinder', 'cone', 'torus'])
P('M02', 'Regular grid meshes tile their domain',
  '''Regular square meshes (of [-1,1] squared) and cube meshes have one vertex per grid node in the documented order, and their elements, positively oriented and of the promised part of their cell, tile every cell without overlap for every subdivision type;
  neighbouring elements share whole faces (all types but the alternating 'five').''',
  'every resolution within the bound', 'Tests check a few resolutions.', 'regular_square_mesh regular_cube_mesh', ['regular_square_mesh', 'regular_cube_mesh'])
# ---------------------------------------------------------------- solvers
P('L01', 'Constrained quadratic and l1 solves return the constrained minimiser',
  '''The quadratic solver returns a vector that satisfies the fixed values and the linear equalities exactly and is stationary in every admissible direction, for a symmetric or non-symmetric matrix (only its symmetric part counts), every form of the right-hand sides (absent, one number, a vector, several columns), and in any order of the fixed indices; precomputation gives the same answer, also when reused, and no argument is modified.
  The l1 solver hands its cone solver a problem whose feasible points are exactly those that satisfy the fixed values and equalities, with one bound per norm, and whose objective is the asked one with the bounds in place of the norms.''',
  'all real matrices with a unique solution, right-hand sides and constraints within the size bound', 'Continuum of inputs; choice and order of fixed indices.',
  'min_quad_with_fixed min_l1_with_fixed', ['min_quad_with_fixed', 'min_quad_with_fixed_precompute', 'min_l1_with_fixed'])
P('L02', 'Fixed-degree-of-freedom solves satisfy the free equations',
  '''Solving with fixed degrees of freedom returns the fixed values unchanged and satisfies every equation of a free row exactly, in the shape of the right-hand side; the precomputed form agrees, also when reused; the matrix and arrays given are not modified.''',
  'all real invertible systems and fixed index sets within the size bound', 'Continuum of inputs; exponential index sets.',
  'fixed_dof_solve', ['fixed_dof_solve', 'fixed_dof_solve_precompute'])
P('L03', 'Linear elasticity is frame-consistent',
  '''In the plane, the elastic stiffness matrix is the isotropic elastic energy of the strain of the linear displacement in each face, weighted by its area, for all materials: symmetric, and zero on translations and infinitesimal rotations.
  A time step of the simulation keeps fixed vertices at their prescribed displacement, satisfies the implicit Euler update at the others, reports the von Mises stress of each face (up to the constant factor the library uses), and modifies no argument.''',
  'all real vertex positions and material parameters within the connectivity bound', 'Tests run one simulation.',
  'linear_elasticity linear_elasticity_stiffness', ['linear_elasticity_stiffness', 'linear_elasticity'])
# ---------------------------------------------------------------- kernels and statistics
P('K01', 'Kernels have the promised values and derivatives',
  '''The squared exponential kernel and its first and mixed second derivatives have exactly the values of the scaled Gaussian (symmetric in the points, derivatives in the two points opposite) for every pair of points, length, scale and derivative index.
  The compactly supported bump is the repeated convolution of the box for every order, center and scale, also at its knots: non-negative, continuous from order 1 on, zero outside its support, with the stated second derivative; the compactly supported kernel and its derivatives are those of its cubic spline.
  A matrix built from a function holds its values at all pairs or at the listed pairs, sparse or not.''',
  'all real points and length scales', 'Continuum of inputs; knots are measure-zero.',
  'squared_exponential_kernel compactly_supported_normal compactly_supported_normal_kernel matrix_from_function', ['squared_exponential_kernel', 'compactly_supported_normal', 'compactly_supported_normal_kernel', 'matrix_from_function'])
P('K02', 'Gaussian process posteriors interpolate and follow the exact formula',
  '''The posterior mean and covariance equal the exact conditioning formulas for every kernel, noise level and set of observations, values and gradients alike, and for inducing points;
  lumping replaces the training covariance by its row sums. Precomputing, predicting twice or asking for the mean alone does not change the numbers, the observations stay as they were given, and restricting a compactly supported kernel to the pairs within its support does not change the mean.''',
  'all real observations and query points within the size bound', 'Continuum of inputs.', 'gaussian_process', ['gaussian_process', 'gaussian_process_precompute'])
P('K03', 'Stochastic Poisson reconstruction solves its screened Poisson equation',
  '''On a given grid that holds the samples, the mean of a stochastic Poisson reconstruction is the function with zero average over the samples that solves the screened finite-difference Poisson equation (screening 1e-6, up to that constant)
  whose right-hand side is the divergence of the prior plus the lumped Gaussian-process interpolation of the normals at the staggered grid points: cubic-spline kernel of scale 1.5 times the smallest spacing, residuals weighted by the reciprocal of the blurred sampling density plus the squared noise.
  The variance is the diagonal of the covariance of that solution, scaled by sigma squared and lifted to the minimum noise squared plus 1e-6; values are in the order of the returned grid points (x fastest in the plane). It holds wherever the grid lies, and whatever the normals, the prior and the noise.''',
  'all normals, priors and grid positions, for listed places of the samples within small grids', 'Tests ask only that most of a random sample is labelled inside or outside.',
  'stochastic_poisson_surface_reconstruction fd_grad fd_interpolate grid_neighbors matrix_from_function compactly_supported_normal',
  ['stochastic_poisson_surface_reconstruction: kernel matrices on neighbour patterns', 'sampling density', 'Poisson solve', 'variance'])
P('P01', 'Random sampling maps its draws to the right distribution',
  '''Points sampled on a mesh are as many as asked for (none included), lie on the reported element with non-negative barycentric coordinates summing to one, where the coordinates say; each element is drawn exactly in proportion to its size and likelihood, and the place in it is a measure-preserving function of the draws.
  A Markov chain accepts a candidate exactly when the draw is below the ratio of densities and otherwise repeats the current sample, with its value. Swarm optimisation evaluates only within its bounds and returns the best point it evaluated, with its value.''',
  'every sequence of random draws within the bound', 'Tests fix seeds; the draws themselves are the quantifier.',
  'random_points_on_mesh metropolis_hastings particle_swarm', ['random_points_on_mesh', 'metropolis_hastings', 'particle_swarm'], over=('inputs', 'schedules'))
# ---------------------------------------------------------------- IO and misc
P('I01', 'Reading back a written mesh gives the same mesh',
  '''Writing a mesh to an OBJ file and reading it back returns the same vertices, faces, texture coordinates and normals with the same index structure, for every combination of optional data and whether the format is given or guessed from the name.
  Hand-written OBJ files are parsed per the format: every style of positive face index, comments, blank space, line endings and statements in any order. DMAT files in text or binary form return the matrix they hold.''',
  'every face list and every number within the size bound, every combination of optional blocks', 'Tests round-trip three meshes.',
  'write_mesh read_mesh read_dmat', ['_write_obj', '_read_obj', 'read_dmat'])
P('C01', 'Linear blend skinning is the weighted sum of transformations',
  '''Skinned positions are the weighted combination of the transformed points; identity transformations return the rest pose, and a single shared rigid motion moves all points rigidly.''',
  'all real positions, weights, rotations and translations', 'Continuum of inputs.', 'linear_blend_skinning', ['linear_blend_skinning'])
P('C02', 'Splines interpolate their control points smoothly',
  '''The spline passes through its control points at their parameters, is continuous with continuous derivative between pieces, is affinely equivariant and reproduces straight lines with uniform control points.''',
  'all real control points and parameters', 'Continuum; only knots are tested.', 'catmull_rom_spline', ['catmull_rom_spline'])
P('C03', 'Normalisation and rotation helpers do what they promise',
  '''Normalised points fill the unit box around the requested centre by one uniform scale and a translation, and the input stays as it was; the rotation between two vectors, parallel and opposite ones included, is orthogonal with determinant one and maps the direction of the first vector to that of the second.''',
  'all real points and vectors', 'Antiparallel and degenerate inputs are measure-zero.', 'normalize_points rotation_matrix_from_vectors', ['normalize_points', 'rotation_matrix_from_vectors'])
P('W01', 'Inside and outside are decided correctly for polygons and surfaces',
  '''In the plane the winding number is one inside and zero outside a simple counter-clockwise curve, additive over pieces and negated by reversing the orientation; the signed distance of a polygon is negative exactly inside it (by the even-odd rule, at points level with vertices too) and its magnitude is the distance to the boundary.''',
  'all real query points off the curve and polygon coordinates within the size bound', 'Continuum of inputs.',
  'winding_number signed_distance_polygon signed_distance', ['winding_number', 'signed_distance_polygon'])
P('X01', 'Marching squares returns the zero set of the interpolated grid values',
  '''Every contour vertex lies on a grid edge whose end values straddle zero, at the linear interpolation point; every straddling edge carries exactly one vertex, and the segments join the vertices of each grid cell so that they form closed curves or end on the grid boundary, all with the positive values on the same (right) side.''',
  'every grid of real values within the size bound', 'The 16 cases per cell combine exponentially; values are a continuum.',
  'marching_squares', ['marching_squares'])
P('V01', 'Colour maps and palettes are total and in range',
  '''Colour maps return valid colours for every parameter: a scalar field is mapped linearly from the given (or found) range to the palette, by the nearest entry, with values outside the range clamped to its ends and a constant field mapped to the first colour; interpolated palettes pass through their entries and stay within 0..255.''',
  'all real parameters', 'Continuum of inputs.', 'apply_colormap colormap', ['apply_colormap', 'colormap'])
P('U01', 'Calls do not modify the caller\'s arrays',
  '''Functions return new data and leave every array they were given unchanged: vertices, faces, edge lists, function values, sparse matrices and optional arguments alike, on every path of the code.''',
  'all inputs within the bounds of the other properties', 'Tests rarely compare inputs before and after.', 'normalize_points fixed_dof_solve min_quad_with_fixed cut_edges subdivide remove_duplicate_vertices', ['copy before write'])
P('U02', 'Results depend only on the arguments, not on earlier calls',
  '''What a function returns is determined by the arguments of the call: it satisfies its contract just the same after other calls with other values, with the same arrays since modified by the caller, or after the caller has overwritten what an earlier call returned; nothing is remembered between calls, and no returned array is shared with the library.''',
  'all histories of one or two earlier calls of the same function, for all inputs within the bounds of the other properties', 'Each test calls a function on fresh data and trusts what it returns.',
  'squared_distance edges halfedge_edge_map colormap regular_square_mesh grad_intrinsic', ['no state between calls'])
P('A01', 'Nested dolls fit inside the outer shape and come out along straight lines',
  '''matryoshka returns a similarity (scale in [0,1], rotation, centre) of the inner shape, a cutting plane and two removal directions for which the copy was found inside the outer shape, with no part of either half blocked in its removal direction, and such that a copy larger by the stated tolerance was found not to fit; what is asked for (rotation, centre, plane, directions, mode, warm start) is respected, the best configuration the search proposed is the one returned, and every query made is about the outer shape and all points of the scaled, turned and moved copy.''',
  'all shapes, placements and answers of the inside and ray queries, within the size bound', 'One run of an optimiser samples a handful of configurations; the certificate must hold for whichever it returns.',
  'matryoshka', ['matryoshka'])
# needs the compiled extension, absent from this build
P('N01', 'Mesh booleans obey set algebra', 'Union, intersection and difference of closed meshes enclose exactly the set combination of their solids and stay closed.',
  'all pairs of closed meshes', 'Tests combine two spheres and cubes.', 'copyleft/mesh_boolean', ['C++ booleans'])
P('N02', 'Remeshing and decimation preserve topology within tolerance', 'Remeshing and decimation keep a closed manifold closed and manifold, keep fixed vertices, and reach the requested size.',
  'all manifold meshes', 'Tests check two meshes.', 'decimate remesh_botsch copyleft/lazy_cage', ['C++ remeshing'])
P('N03', 'Reconstruction from signed distances is consistent with the samples', 'Surfaces reconstructed from signed distance samples are closed and satisfy every sample\'s sphere and sign condition up to the stated tolerance.',
  'all consistent sample sets', 'Tests reconstruct two shapes.', 'reach_for_the_spheres reach_for_the_arcs marching_cubes point_cloud_to_mesh swept_volume offset_surface dual_contouring_of_signed_distance_data stochastic_poisson_surface_reconstruction', ['reach_for_the_spheres', 'marching_cubes'])

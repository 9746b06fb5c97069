#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (committed files, regenerated by hand)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = 'ndt_gslam/include/ndt_gslam/'
S = 'ndt_gslam/src/'
PG = I + 'slam_optimizer/pose_graph.h'
ET = I + 'utils/eigen_tools.h'
VX = I + 'ndt/voxel_grid2d.h'
CE = [I + 'ndt/ndt_cell.h', S + 'ndt/ndt_cell.cpp']
P = []
def prop(i, title, statement, over, text, why, files, mech, state=None):
    P.append({'id': i, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': state or [], 'mechanism': [{'name': a, 'where': b} for a, b in mech]}})

prop('C01', 'Pose graph ids stay unique, counts exact, elements keep their place',
     'After any sequence of adding nodes, adding edges and removing edges, every node and edge is found under exactly the id that was returned for it, with the pose, data, ends, transform and information it was stored with. addEdge returns an id that no live edge uses, reusing the id of a removed edge before growing; addNode returns consecutive ids. nodeCount and edgeCount equal the number of live nodes and edges, and every call changes only the element it names.',
     ['histories', 'inputs'], 'all finite histories of addNode/addEdge/removeEdge on a graph, all poses, transforms and information matrices',
     'The tests run one fixed history of a dozen calls; id reuse, counts and element stability must hold after every history.',
     [PG], [('free list of edge ids', PG + ': Graph::addEdge, Graph::removeEdge'), ('ids stored in the elements', PG + ': Node::setId, Edge::setId')],
     [{'name': 'edge slots and free ids', 'meaning': 'a slot is empty exactly when its id is on the free list', 'where': PG}])
prop('C02', 'Dead ids are rejected without changing the graph',
     'getNode and getEdge (const and non-const) throw std::out_of_range exactly for an id that is not live and otherwise return the element with that id; removeEdge returns true exactly for the id of a live edge. A rejected call leaves every node, edge, count and free id unchanged and touches no memory outside the graph, for every value of the id including one past the last slot and the largest size_t.',
     ['histories', 'inputs'], 'all graph states reachable by the API, all 2^64 ids',
     'The tests try two or three bad ids on one graph; the boundary id equal to the number of slots was never tried.',
     [PG], [('bounds and free-list test before access', PG + ': Graph::getEdge, getNode, removeEdge')])
prop('C03', 'Adjacency lists mirror the live edges exactly',
     'At every moment the outgoing list of a node contains exactly the live edges that start at it and the incoming list exactly the live edges that end at it, each once. In particular no list ever holds a pointer to a removed edge, also after ids are reused.',
     ['histories'], 'all histories of addNode/addEdge/removeEdge, self loops and parallel edges included',
     'Tests look at lists after additions only; a dangling entry after a removal is invisible until it is dereferenced.',
     [PG], [('registration of an edge with both ends', PG + ': Graph::addEdge, Node::addEdgeOut/addEdgeIn'), ('deregistration', PG + ': Graph::removeEdge, Node::removeEdge')])
prop('C04', 'Graph iteration visits every live element exactly once',
     'Iterating from begin to end, with the const or the mutable iterator and with pre- or post-increment, visits every live node (edge) exactly once in ascending id order, never an empty slot, and ends; wherever the removed slots are, including the first and the last. Post-increment yields the position before the step, pre-increment the one after it.',
     ['histories', 'inputs'], 'all patterns of removed slots',
     'The tests iterate over one graph with holes in the middle; holes at the beginning or the end of the list are never tried.',
     [PG], [('skipping empty slots', PG + ': ListIterator, ConstListIterator operator++ and constructor')])
prop('C05', 'Pose vector and rigid transform convert without loss',
     'getTransFromPose(x,y,t) is exactly the rotation by t followed by the translation (x,y), and getPoseFromTransform recovers x, y and t from any rigid transform, with the angle equal modulo a full turn and in (-pi, pi]. Hence pose -> transform -> pose is the identity up to full turns, transform -> pose -> transform is the identity, getAngle is the rotation angle and getDisplacement the Euclidean length of the translation.',
     ['inputs'], 'all real poses and all rigid planar transforms', 'Tests compare a handful of poses; every quadrant and multiples of a full turn matter.',
     [ET], [('conversion functions', ET + ': getTransFromPose, getPoseFromTransform, getAngle, getDisplacement')])
prop('C06', 'Angles are normalised to the principal range, unchanged modulo 2 pi',
     'normalizeAngle returns, for every finite angle, the value in [-pi, pi] that differs from it by a whole number of full turns. getAngleDiffrence returns the heading change from the first to the second pose in the same range, independent of full turns in either heading.',
     ['inputs'], 'all real angles and poses', 'Tests check a few angles; the guarantee is about all angles, in particular large ones and those at the seam.',
     [ET], [('atan2(sin, cos)', ET + ': normalizeAngle, getAngleDiffrence')])
prop('C07', 'Frame changes and pose composition obey the group laws',
     'For all poses, F = transBtwFrames(a,b) satisfies T_b * F = T_a, so a point keeps its global position, frame changes compose (bc*ab = ac) and the change to the same frame is the identity. transformPose(a, transBtwPoses(a,b)) is b up to full turns, and transformConcat(p,T) is the pose of T_p * T with principal heading.',
     ['inputs'], 'all real poses and rigid transforms', 'Tests evaluate a few frames; the algebraic laws quantify over all of them.',
     [ET], [('composition functions', ET + ': transBtwFrames, transBtwPoses, transformPose, transformConcat')])
prop('C08', 'Planar motions embed into 3-D and come back unchanged',
     'convertFromTransform and vecToMat3d produce the 4x4 motion that rotates about z and translates in the xy plane with all other entries those of the identity; vecToMat2d produces the 3x3 one. convertToTransform and matToVec2d (3x3 and 4x4) invert them, the angle up to full turns and in the principal range.',
     ['inputs'], 'all real poses and rigid planar transforms', 'Only a few conversions are tested; the matrix entries outside the planar part are not looked at.',
     [ET], [('embedding functions', ET + ': convertFromTransform, convertToTransform, vecToMat2d, vecToMat3d, matToVec2d')])
prop('C09', 'Constraint error is zero exactly when the measurement is met',
     'For an edge with measurement Z between nodes at poses A and B, the error pose E satisfies T_A * T_Z * T_E = T_B with principal heading, so it is zero exactly when B is where A and Z predict, up to full turns. The edge returns the measurement, information and ends it was built with, and adding an increment to a node adds the translation and wraps the heading into the principal range.',
     ['inputs'], 'all node poses, measurements, information matrices and increments', 'The tests never evaluate the constraint error.',
     [PG, I + 'slam_optimizer/slam2d_policy.h'], [('error function', I + 'slam_optimizer/slam2d_policy.h: calcError, addPoses'), ('edge accessors', PG + ': Edge')])
prop('C10', 'Constraint Jacobians are the exact derivatives of the error',
     'The two Jacobian blocks returned for an edge are the exact partial derivatives of its error vector with respect to the pose of its first and of its second node, entry by entry, at every linearisation point.',
     ['inputs'], 'all node poses and measurements', 'A sign or index error is invisible at the few points a test samples, and no test calls the function.',
     [I + 'slam_optimizer/slam2d_policy.h', PG], [('analytic Jacobian', I + 'slam_optimizer/slam2d_policy.h: calcJacobianBlocks')])
prop('C11', 'Covariances propagate through rigid motions by the first-order law',
     'A covariance wrapper starts from the given covariance (the identity by default). Adding a covariance Q along a transform with translation t and heading a gives J1 C J1^T + J2 Q J2^T with the exact Jacobians J1, J2 of composing a pose of heading a with t, so the result is symmetric and, for positive semidefinite inputs, positive semidefinite: its quadratic form is the sum of those of the inputs. This holds for every heading, negative ones included.',
     ['inputs'], 'all symmetric covariances and all rigid planar transforms', 'No test touches covariance propagation; a sign error shows for some headings only.',
     [I + 'utils/covariance_wrapper.h'], [('Jacobian products', I + 'utils/covariance_wrapper.h: CovarianceWrapper::addToCovar')])
prop('C12', 'Covariance inversion regularises and returns a true inverse',
     'covarInverse succeeds exactly when the trace of the covariance is positive. On success the adjusted covariance has the same eigenvectors, every eigenvalue below a hundredth of the largest one is raised to that bound and all others are kept; a well conditioned covariance is returned unchanged. The returned inverse is symmetric and is exactly the inverse of the adjusted covariance. A slightly indefinite covariance is regularised, not rejected.',
     ['inputs'], 'all symmetric 3x3 matrices', 'No test calls it; the regularised branch needs a nearly singular covariance with the small eigenvalue in a particular place.',
     [I + 'utils/covariance_inverse.h'], [('eigenvalue clamp', I + 'utils/covariance_inverse.h: covarInverse')])

prop('C13', 'Voxel grid addresses every point by the one cell that contains it',
     'A point belongs to the cell whose centre is the nearest multiple of the cell size (half a cell around it; in x the lower border belongs to the cell, in y the upper one), whatever the extents of the grid. isInside holds exactly when that cell lies within the extents; cellExists exactly when, in addition, its place is occupied; getCellPtr and operator[] return the cell at that place and getCentroid its centre. All of them agree, also on cell borders, and never touch memory outside the grid. setCellSize changes the size only.',
     ['inputs', 'histories'], 'all grids (extents up to 2^20 cells per direction), all points', 'Nothing in the grid is tested; off-by-one errors show on borders and for grids that are not square or not centred.',
     [VX], [('cell coordinates of a point', VX + ': cellX, cellY, calcCoordinates, calcIndex'), ('boundary test', VX + ': isInside')])
prop('C14', 'Growing the grid keeps every cell where it is',
     'enlarge makes the grid the smallest one that covers both the old extents and the requested points; it never shrinks. Every cell keeps its coordinates, its identity and its value, new places are empty, the number of cells is unchanged and no two places share a cell.',
     ['inputs', 'histories'], 'all grids and all requested extents', 'Moving the cells into the larger array is index arithmetic that depends on all four increments at once.',
     [VX], [('enlargement', VX + ': enlarge, enlargeGrid, calcIncLeft/Right/Up/Down')],
     [{'name': 'slot array', 'meaning': 'one slot per row and column, rows from top to bottom; validCells equals the number of occupied slots', 'where': VX}])
prop('C15', 'Translating the grid shifts every cell by exactly the requested amount',
     'After translate(dx,dy) the cell at (X,Y) is the one that was at (X-dx,Y-dy) if that was in the grid, otherwise the place is empty. Without discard the grid grows by dx, dy in the direction of the motion, so no cell is lost; with discard the extents stay and cells pushed out are gone. Cells keep identity and value, validCells equals the number of occupied places, and translations longer than the grid are no exception.',
     ['inputs', 'histories'], 'all grids and all integer translations', 'In-place shuffling of a flattened array: errors depend on the relation between shift, width and height.',
     [VX], [('shifting loops', VX + ': moveLeft, moveRight, moveUp, moveDown'), ('translation', VX + ': translate')])
prop('C16', 'Adding, removing, clearing and copying change exactly the named cells',
     'addCell grows the grid just enough to contain the point, stores the value in an empty place, and otherwise merges with += or replaces with = as asked; removeCell empties the place of the point and returns true exactly inside the grid; clear empties all places and keeps the extents. Every other cell keeps place, identity and value. validCells always equals the number of occupied places; getValidCells and getValidCellsPtr list each cell exactly once in row order. Copy construction and assignment give a deep copy that shares no cell with the original; clone gives an empty grid with the same cell size.',
     ['inputs', 'histories'], 'all histories of these calls, all points and values', 'Counts and untouched cells must be right after every history, including adding outside of the grid and removing twice.',
     [VX], [('insertion', VX + ': addCell, enlargeToFit'), ('removal', VX + ': removeCell, clear'), ('copies', VX + ': copy constructor, operator=, clone'), ('listing', VX + ': getValidCells, getValidCellsPtr')])
prop('C17', 'Neighbourhood queries return exactly the occupied cells of the window',
     'getNeighbors(p,r) returns the occupied cells whose coordinates differ from those of the cell of p by at most r in x and in y, each exactly once, in row order from the top, clipped to the grid; for r = 0 that is the cell itself if it is occupied. A point outside of the grid has no neighbours. The grid is not changed.',
     ['inputs', 'histories'], 'all grids, all points, all radii below 2^31', 'Clipping at each of the four borders and windows larger than the grid combine in many ways.',
     [VX], [('window loops', VX + ': getNeighbors')])
prop('C18', 'Ray tracing lists the cells along the ray in order and creates only those',
     'rayTrace samples the segment at steps of half a cell along its longer axis, from the start until less than two cells remain or the grid is left, and returns the cells of the samples in order, each change of the cell once, starting with the cell of the start point. Missing cells on the way are created with default contents and counted; no other place changes, existing cells keep identity and value. A ray that starts outside of the grid is empty and changes nothing. The variant without a start point traces from the centre of the grid.',
     ['inputs', 'histories'], 'all grids and all segments', 'The stopping rule, leaving the grid midway and rays of every direction and length cannot be sampled exhaustively.',
     [VX], [('sampling loop', VX + ': rayTrace')])
prop('C19', 'Merging NDT cells pools the statistics of their points',
     'operator+= of an NDT cell leaves the cell as it is when the other cell has no Gaussian or at most two points; a cell without a Gaussian takes over mean, covariance and point count of the other one; otherwise the mean becomes the point-weighted mean, the covariance the pooled sample covariance ((n1-1)C1 + (n2-1)C2 + n1 n2/(n1+n2) d d^T)/(n1+n2-1) (d the difference of the means) with eigenvalues below 1/100 of the largest lifted to it, the stored inverse is the inverse of the stored covariance, and the number of points is the sum (capped at 10^9). The occupancy grows by 0.405465108 per point of the other cell and stays within [-1,1]. The other cell is not changed.',
     ['inputs', 'histories'], 'all pairs of cells with any mean, positive definite covariance, point count and occupancy',
     'The tests do not touch the cell (no test builds it); a wrong weight is invisible for equal counts or equal means.',
     CE, [('merge', CE[1] + ': NDTCell::operator+='), ('covariance rescaling', CE[1] + ': NDTCell::rescaleCovar')])
prop('C20', 'Cell occupancy stays in [-1,1] and follows the evidence',
     'After every operation the raw occupancy of a cell lies in [-1,1]; getOccupancyRaw returns it, getOccupancy returns -1 for a negative value and otherwise 100 times it rounded down (0 to 100), and setOccupancy takes a value on that scale. updateOccupancy for a ray from start to end with n points: a cell without a Gaussian loses 0.2 per point; a ray that ends within 0.01 (sum of the coordinate differences) of the mean raises it by one and one of zero length elsewhere changes nothing; a ray that passes never raises the occupancy and changes it, per point, by exactly log((1-l)/l) with l = 0.5 + 0.1 L (1 - exp(-d^2/(2 s^2))), L the largest likelihood of the Gaussian on the line of the ray and d the distance of that spot from the end and s = 0.01; a cell whose occupancy is not positive afterwards keeps no Gaussian.',
     ['inputs', 'histories'], 'all cells, all ray start and end points, all counts',
     'No test builds the cell; the clamps and the three ray cases are separated by conditions on real numbers.',
     CE, [('ray evidence', CE[1] + ': NDTCell::updateOccupancy'), ('scaling and clamping', CE[0] + ': getOccupancy, setOccupancy, updateOccupancy')],
     [{'name': 'occupancy', 'meaning': 'evidence that the cell is occupied, in [-1,1]', 'where': CE[0]}])
prop('C21', 'The Gaussian of a cell is the Gaussian of its points',
     'computeGaussian of a fresh cell with at least six points and a positive occupancy stores their mean and the regularised covariance (I + sum (p-m)(p-m)^T)(n-1)/n^2 with eigenvalues below 1/100 of the largest lifted to it, and counts the points; for a cell that has a Gaussian the new points are pooled with it. With fewer points, or an occupancy that is not positive, the cell has no Gaussian, mean and covariance stay, and the points are kept for the next call. The stored covariance is positive definite and the stored inverse is its inverse; a cell whose covariance is not positive has no Gaussian. transform moves the mean by the transform and turns the covariance with its rotation. The accessors and serialize report exactly the stored values.',
     ['inputs', 'histories'], 'all point sets, all cells, all transforms',
     'No test builds the cell; incremental updates and degenerate point sets (all on a line, far from the origin) need particular inputs.',
     CE, [('Gaussian from points', CE[1] + ': NDTCell::computeGaussian'), ('covariance rescaling', CE[1] + ': NDTCell::rescaleCovar'), ('transform', CE[1] + ': NDTCell::transform')],
     [{'name': 'gaussian flag', 'meaning': 'mean, covariance and inverse are valid', 'where': CE[0]}])
SW = [I + 'slam_optimizer/switchable_constraints/vertex_switchLinear.h'] + [S + 'slam_optimizer/switchable_constraints/' + n for n in ('vertex_switchLinear.cpp', 'edge_switchPrior.cpp', 'edge_se2Switchable.cpp')]
prop('C22', 'Switchable constraints scale their error and keep the switch in [0,1]',
     'The error of a switchable constraint is the switch times the difference between the measured and the actual relative pose, in the frame of the measurement, its heading normalised; with a switch of zero it is zero. Its Jacobians are the derivatives of that error by the first pose, by the second pose and by the switch. An optimisation step adds to the value of the switch and leaves it in [0,1]; x(), the value the prior sees, equals the estimate after setEstimate, setToOrigin, a step, and a step taken back (push, pop). The error of the prior is the prior value minus the switch, its Jacobian -1. Measurement, information and switch value that were written as text are read back into the same fields, the inverse measurement and the symmetric entries of the information included.',
     ['inputs', 'histories'], 'all poses, measurements, switch values and steps; all histories of steps, push and pop',
     'No test builds the switchable constraints; wrong Jacobians still converge on easy graphs and a stale switch shows only after a rejected step.',
     SW, [('error and Jacobians', SW[3] + ': EdgeSE2Switchable::computeError, linearizeOplus'), ('clamped step', SW[1] + ': VertexSwitchLinear::oplusImpl'), ('prior', SW[2])],
     [{'name': 'switch', 'meaning': 'how far the constraint counts, in [0,1]', 'where': SW[0]}])
MM = [D + 'slam_optimizer/max_mixture/' + n for n in ('edge_se2_mixture', 'edge_se2_pointxy_mixture') for D in (I, S)]
MM = [m + ('.h' if m.startswith(I) else '.cpp') for m in MM]
prop('C23', 'A mixture constraint is its most likely component',
     'After initializeComponents, computeError and computeBestEdge the selected component of a mixture of n >= 1 components is one with the least negative log likelihood -log w + 0.5 log det(covariance) + 0.5 chi2 at the estimates of now, the first one if several are equally likely; getBestComponent reports it. The mixture then has the vertices, the measurement and the information of that component and its error is the error of that component, and a linearisation that follows uses the Jacobians of that component. initializeComponents takes over components and weights in order, replacing earlier ones, with the determinant of each component covariance. Components, weights and determinants never change otherwise; a new mixture has no components and reports -1.',
     ['inputs', 'histories'], 'all numbers of components, all weights, measurements, information matrices and estimates with finite likelihoods',
     'No test builds the mixtures; a component that is wrongly selected still gives a plausible error.',
     MM, [('selection', MM[1] + ': EdgeSE2Mixture::computeError, getNegLogProb'), ('belief', MM[1] + ': EdgeSE2Mixture::UpdateBelief'), ('selection', MM[3] + ': EdgeSE2PointXYMixture::computeError')],
     [{'name': 'components', 'meaning': 'one weight and one covariance determinant per component', 'where': MM[0]}])

LD = I + 'slam_optimizer/loop_detector.h'
prop('C24', 'The loop search reports the accepted matches of near, far-walked nodes',
     'Every closure reported by genLoopClosures(start) starts at start and ends at another node of the graph whose stored position is closer than the maximum loop distance to the one of start and which is reached from start by a walk back over live edges (from their end to their start) whose lengths, the norms of the edge translations, add up to at least the minimum loop distance. The closure carries the information and the transform the matcher returned, with success, for that pair: source is the data of that node, target the data of start, the guess is the rotation between the two stored poses without translation. Every accepted match is reported, no node is matched or reported twice, start itself never. At most 50 nodes are matched, and unless that limit is used up every near node that can be reached by walking back is matched if every walk to it is long enough. When the search returns, no node is marked visited and no edge used, whatever was found, nothing else of the graph has changed, and no access to an empty queue or a missing node has happened, nodes that cannot be reached included.',
     ['inputs', 'histories'], 'all graphs with clear search marks, all start nodes in it, all matcher answers, all loop distances; for runs that return (termination is not claimed)',
     'No test runs the loop detector; a wrongly pruned walk, a duplicate closure or a mark left set only shows as a worse map or a missing closure in a later search.',
     [LD], [('search', LD + ': LoopDetector::genLoopClosures'), ('next steps of a walk', LD + ': LoopDetector::genPossibleEdges'), ('minimum distance', LD + ': LoopDetector::isCloseMatch')],
     [{'name': 'search marks', 'meaning': 'visited flag of a node and used flag of an edge, clear between searches', 'where': PG}])
prop('C25', 'Loop closures become temporary loop edges and can be withdrawn exactly',
     'addToGraph adds one edge per closure, in order, each under a new id that no live edge uses, and returns these ids in the order of the closures. The edge runs from the first to the second vertex of the closure, has the planar pose of its transform as measurement and its information matrix, is of type LOOP and in state TEMP. All nodes and all other edges keep ids, values and places. removeFromGraph removes exactly the listed live edges, leaves every other edge and all nodes as they are, and ignores ids that are not live.',
     ['inputs', 'histories'], 'all graphs, all lists of closures between nodes of the graph, all lists of ids with repetitions and dead ids',
     'No test adds closures through the detector; a swapped end or a lost state only shows after optimisation.',
     [LD], [('adding', LD + ': LoopDetector::addToGraph'), ('withdrawing', LD + ': LoopDetector::removeFromGraph')])
prop('C26', 'Walk records accumulate length, transform and covariance along the walk',
     'The record EdgeCov of a walk that has just started at a node is the empty walk: it ends at that node, with zero length, zero hops, zero covariance and the identity transform. a + b, b one step, starts where a starts, ends where b ends, has one hop more than a, the sum of the lengths, the transform of a followed by the one of b, and the first-order covariance J1 C_a J1^T + J2 C_b J2^T of the concatenated motion; records compare by the determinant of that covariance. A new loop detector has minimum loop distance 20, maximum 15 and at most 50 matches per search; the setters change exactly the named distance. A LoopClosure keeps its vertices, information and transform as given.',
     ['inputs'], 'all records with rigid transforms, all ids, matrices and distances',
     'No test builds a record; chaining in the wrong order or with a wrong Jacobian gives plausible numbers.',
     [LD], [('concatenation', LD + ': internal::EdgeCov::operator+'), ('settings', LD + ': LoopDetector constructor, setMinLoopDistance, setMaxLoopDistance')])

NA = {}
if __name__ == '__main__':
    sys.path.insert(0, os.path.join(V, 'vc'))
    from props import registry
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    man = {'version': 1, 'setup_cmd': 'bash tool/build.sh', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks read the sources of /repo as they are', 'source_commits': []}, 'checks': [], 'not_applicable': []}
    for p in P:
        i = p['id']
        if i in registry.PROPS:
            r = registry.PROPS[i]
            man['checks'].append({'property': i, 'quick_cmd': 'python3-vt vc/check.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt vc/check.py %s --tier thorough' % i,
                                  'evidence_file': 'evidence/%s.json' % i, 'technique': r.get('technique', 'contract-based deductive verification of the real code (VC generation from the clang AST, SMT and polynomial normal forms), contracts replayed on the real code'),
                                  'level': r.get('level', 'proof'), 'level_note': r.get('note', 'All obligations of the contracts generated from the current source are discharged for all inputs; real arithmetic stands for floating point, and Eigen/std/g2o follow assumed contracts (see evidence trusted_base).')})
        else:
            man['not_applicable'].append({'property': i, 'reason': NA.get(i, 'not under contract yet')})
    man['notes'] = 'See DESIGN.md.'
    json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

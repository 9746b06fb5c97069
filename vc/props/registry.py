"""Property id -> units and replay harness."""
from . import numerics as nm, graph as gr, covar as co, voxel as vx, cell as ce, robust as rb, mix as mx, loop as lo

def U(name, tu, fn, **kw):
    return dict(name=name, tu=tu, fn=fn, **kw)

TRUSTED = [
    'cxdump: clang 18 front end and the JSON dump of the instantiated AST (tool/cxdump.cpp)',
    'the VC generator vc/interp.py with its library contracts for Eigen, std and g2o (vc/lib.py)',
    'vc/poly.py (rational normal forms), z3 5.x API, z3 4.8.12, z3-new, cvc5',
]
ASSUMPTIONS = [
    'double and float arithmetic is treated as exact real arithmetic; literals close to pi denote pi',
    'signed integers do not overflow; unsigned integers wrap',
    'OpenMP pragmas are ignored (sequential execution)',
    'Eigen, libstdc++ and g2o functions behave as their assumed contracts in vc/lib.py say',
    'memory allocation succeeds',
]
NUM = {'src': 'numerics.cpp'}
GR = {'src': 'graph.cpp'}
CO = {'src': 'covar.cpp'}
VX = {'src': 'voxel.cpp'}
CE = {'src': 'cell.cpp'}
K = 'cell.cpp'
E, G, X = 'eigen.cpp', 'graph.cpp', 'voxel.cpp'
RB = {'src': 'robust.cpp', 'link': ['-lg2o_core', '-lg2o_types_slam2d', '-lg2o_stuff']}
MX = {'src': 'mix.cpp', 'link': ['-lg2o_core', '-lg2o_types_slam2d', '-lg2o_stuff', '-lGL']}
LO = {'src': 'loop.cpp', 'stubs': True}
SE2 = ('/usr/include/g2o/types/slam2d/se2.h',)
PROPS = {
    'C01': dict(title='graph ids, counts and slot reuse', replay=GR, units=[
        U('counts', G, gr.u_count), U('addEdge', G, gr.u_add_edge), U('removeEdge', G, gr.u_remove), U('addNode', G, gr.u_add_node)]),
    'C02': dict(title='dead ids are rejected', replay=GR, units=[
        U('lookups', G, gr.u_get), U('removeEdge rejects', G, gr.u_remove_reject), U('removeEdge', G, gr.u_remove)]),
    'C03': dict(title='adjacency lists', replay=GR, units=[
        U('addEdge adjacency', G, gr.u_add_edge_adj), U('removeEdge adjacency', G, gr.u_remove_adj, opts={'timeout': 60}), U('addNode', G, gr.u_add_node)]),
    'C04': dict(title='iteration', replay=GR, units=[
        U('edge iterator', G, gr.u_iter_edge), U('const edge iterator', G, gr.u_iter_cedge), U('node iterator', G, gr.u_iter_node), U('const node iterator', G, gr.u_iter_cnode)]),
    'C05': dict(title='pose and transform round trip', replay=NUM, units=[
        U('getTransFromPose', E, nm.u_trans_from_pose), U('getPoseFromTransform', E, nm.u_pose_from_trans), U('round trip', E, nm.u_round_trip)]),
    'C06': dict(title='angle normalisation', replay=NUM, units=[
        U('normalizeAngle', E, nm.u_normalize), U('getAngleDiffrence', E, nm.u_anglediff)]),
    'C07': dict(title='frame changes and composition', replay=NUM, units=[
        U('transBtwFrames', E, nm.u_frames), U('transBtwPoses', E, nm.u_btwposes), U('transformConcat', E, nm.u_concat)]),
    'C08': dict(title='2-D / 3-D embedding', replay=NUM, units=[
        U('convert', E, nm.u_embed), U('vec/mat', E, nm.u_vecmat)]),
    'C09': dict(title='constraint error', replay=GR, units=[
        U('getError', G, gr.u_error), U('addToPose', G, gr.u_addpose)]),
    'C10': dict(title='Jacobians', replay=GR, units=[U('calcJacobianBlocks', G, gr.u_jac)]),
    'C11': dict(title='covariance propagation', replay=CO, units=[U('addToCovar', 'cov.cpp', co.u_add), U('construction', 'cov.cpp', co.u_ctor)]),
    'C12': dict(title='covariance inverse', replay=CO, units=[U('covarInverse', 'cov.cpp', co.u_inverse)]),
    'C13': dict(title='voxel grid addressing', replay=VX, units=[U('lemmas', X, vx.u_lemmas), U('addressing', X, vx.u_address)]),
    'C14': dict(title='growing the grid', replay=VX, units=[
        U('lemmas', X, vx.u_lemmas), U('enlargeGrid', X, vx.u_enlarge_grid), U('enlarge', X, vx.u_enlarge)]),
    'C15': dict(title='translation of the grid', replay=VX, units=[
        U('lemmas', X, vx.u_lemmas), U('moveLeft', X, vx.u_move_left), U('moveRight', X, vx.u_move_right), U('moveUp', X, vx.u_move_up),
        U('moveDown', X, vx.u_move_down), U('enlargeGrid', X, vx.u_enlarge_grid), U('translate', X, vx.u_translate)]),
    'C16': dict(title='adding, removing, copying cells', replay=VX, units=[
        U('lemmas', X, vx.u_lemmas), U('enlargeGrid', X, vx.u_enlarge_grid), U('addCell', X, vx.u_add), U('removeCell', X, vx.u_remove),
        U('clear', X, vx.u_clear), U('copy', X, vx.u_copy), U('getValidCells', X, vx.u_valid)]),
    'C17': dict(title='neighbours', replay=VX, units=[U('lemmas', X, vx.u_lemmas), U('getNeighbors', X, vx.u_neighbors)]),
    'C18': dict(title='ray tracing', replay=VX, units=[U('lemmas', X, vx.u_lemmas)] + [U(n, X, f) for n, f in vx.RAYS]),
    'C19': dict(title='merging NDT cells', replay=CE, units=[U('operator+=', K, ce.u_merge)]),
    'C20': dict(title='occupancy of a cell', replay=CE, units=[U('updateOccupancy', K, ce.u_ray), U('accessors', K, ce.u_get), U('operator+=', K, ce.u_merge), U('computeGaussian', K, ce.u_compute)]),
    'C21': dict(title='Gaussian of a cell', replay=CE, units=[U('computeGaussian', K, ce.u_compute), U('transform', K, ce.u_transform), U('accessors', K, ce.u_get)]),
    'C22': dict(title='switchable constraints', replay=RB, units=[
        U('computeError', 'robust.cpp', rb.u_error, libs=SE2), U('linearizeOplus', 'robust.cpp', rb.u_linear, libs=SE2),
        U('switch variable and prior', 'robust.cpp', rb.u_switch, libs=SE2), U('text', 'robust.cpp', rb.u_text, libs=SE2)]),
    'C23': dict(title='max-mixture constraints', replay=MX, units=[
        U('computeError (poses)', 'mix.cpp', mx.u_select_a, libs=SE2), U('computeError (points)', 'mix.cpp', mx.u_select_b, libs=SE2),
        U('initializeComponents (poses)', 'mix.cpp', mx.u_init_a, libs=SE2), U('initializeComponents (points)', 'mix.cpp', mx.u_init_b, libs=SE2)]),
    'C24': dict(title='loop search', replay=LO, units=[
        U('isCloseMatch', 'loop.cpp', lo.u_close, stubs=True), U('genLoopClosures', 'loop.cpp', lo.u_search, stubs=True)]),
    'C25': dict(title='adding and withdrawing loop closures', replay=LO, units=[
        U('addToGraph', 'loop.cpp', lo.u_add, stubs=True), U('removeFromGraph', 'loop.cpp', lo.u_withdraw, stubs=True)]),
    'C26': dict(title='walk records and settings of the loop search', replay=LO, units=[
        U('EdgeCov', 'loop.cpp', lo.u_record, stubs=True), U('settings', 'loop.cpp', lo.u_settings, stubs=True)]),
}

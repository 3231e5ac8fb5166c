"""C24: GP trees, dynamical graphs and environments."""
from refcheck import *

RULE = ("the gated value graph of every operation on GP trees and dynamical "
        "graphs and of every built-in environment equals that of its "
        "reference definition")
FILES = ['prog.c']
MAZE = {('EnvMaze', 'maze'): [ord(c) for c in '*OGFQ*FO'],
        ('EnvMaze', 'maze', '[]'): [ord(c) for c in '*OGFQ*FO'],
        ('EnvMaze', 'xsize'): [1, 2, 3, 5], ('EnvMaze', 'ysize'): [1, 2, 4, 5]}
OP = ['sam_adapt', 'sam_init']
TARGETS = {n: dict(opaque=OP) for n in (
    'tree_mutate', 'node_activate', 'graph_reset', 'graph_output',
    'graph_rand', 'graph_mutate', 'env_mux_get_state', 'env_mux_execute',
    'env_mux_reset', 'env_mux_is_done', 'env_mux_maxpayoff',
    'env_mux_multistep', 'env_maze_reset', 'env_maze_is_done',
    'env_maze_get_state', 'env_maze_execute', 'env_maze_maxpayoff',
    'env_maze_multistep')}
for n in ('tree_eval', 'tree_traverse', 'tree_grow'):
    TARGETS[n] = dict(opaque=OP + [n], recursive=True)
for n in ('env_maze_reset', 'env_maze_get_state', 'env_maze_execute'):
    TARGETS[n] = dict(opaque=OP, hints=MAZE)
TARGETS['tree_crossover'] = dict(opaque=OP + ['tree_traverse'],
                                 internal={'tree_traverse': 'tree pos'},
                                 alts=['alt_tree_crossover'])
TARGETS['graph_update'] = dict(
    opaque=OP + ['synchronous_update'],
    internal={'synchronous_update': 'dgp inputs'})

# the loop over the connections of a node is unrolled
TARGETS['synchronous_update'] = [dict(
    opaque=OP, unroll=True, case='%d connections' % k,
    facts={('Graph', 'max_k'): k}) for k in (1, 2)]


def run(R):
    check(R, FILES, TARGETS)

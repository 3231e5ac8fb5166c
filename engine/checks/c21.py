"""C21: matching, generality, covering and variation of conditions/actions."""
from refcheck import *

RULE = ("the gated value graph of every matching, generality, covering, "
        "update and variation operation of conditions and actions equals "
        "that of its reference definition")
FILES = ['cond.c']
OP = ['float_to_binary', 'sam_adapt', 'tree_eval', 'tree_free', 'tree_rand',
      'graph_rand', 'graph_update', 'neural_rand', 'neural_propagate',
      'neural_output', 'neural_outputs', 'cl_rand']
M = ['cond_gp_match', 'cond_dgp_match', 'cond_neural_match',
     'rule_dgp_cond_match', 'rule_neural_cond_match', 'rule_dgp_act_compute',
     'rule_neural_act_compute', 'act_neural_compute']
TARGETS = {n: dict(opaque=OP) for n in (
    'cond_dummy_match',
    'cond_rectangle_match', 'cond_rectangle_general', 'cond_rectangle_cover',
    'cond_rectangle_update', 'cond_rectangle_crossover',
    'cond_rectangle_mutate',
    'cond_ellipsoid_match', 'cond_ellipsoid_general', 'cond_ellipsoid_cover',
    'cond_ellipsoid_update', 'cond_ellipsoid_crossover',
    'cond_ellipsoid_mutate',
    'cond_ternary_match', 'cond_ternary_general', 'cond_ternary_cover',
    'cond_ternary_crossover', 'cond_ternary_mutate',
    'cond_gp_match', 'cond_dgp_match', 'cond_neural_match',
    'rule_dgp_cond_match', 'rule_dgp_act_compute', 'rule_neural_cond_match',
    'rule_neural_act_compute', 'act_integer_compute', 'act_integer_cover',
    'act_integer_general', 'act_integer_mutate', 'act_neural_compute',
    'cl_cover')}
TARGETS['float_to_binary'] = {}
for n in ('cond_gp_cover', 'cond_dgp_cover', 'cond_neural_cover',
          'rule_dgp_act_cover', 'rule_neural_act_cover', 'act_neural_cover'):
    TARGETS[n] = dict(opaque=OP + M)


def run(R):
    check(R, FILES, TARGETS)

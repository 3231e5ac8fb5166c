"""C17: the learning equations."""
from refcheck import *

RULE = ("the gated value graph of each function of the classifier update "
        "cycle equals that of its reference definition")
FILES = ['learn.c']
TARGETS = {
    'cl_init': {}, 'cl_acc': {}, 'cl_update': {}, 'cl_update_fit': {},
    'clset_update': dict(opaque=['cl_update'],
                         facts={('XCSF', 'SET_SUBSUMPTION'): 0}),
    'cl_del_vote': {}, 'cl_subsumer': {}, 'cl_general': {}, 'cl_match': {},
    'cl_mfrac': {}, 'cl_action': {}, 'cl_predict': {}, 'cl_mutate': {},
    'cl_crossover': {}, 'clset_total_fit': {}, 'clset_mean_time': {},
    'clset_set_times': {}, 'clset_mean_cond_size': {},
    'clset_mean_pred_size': {}, 'clset_mfrac': {},
}


def run(R):
    check(R, FILES, TARGETS)

"""C19: prediction, payoff, losses and the training loops."""
from refcheck import *

RULE = ("the gated value graph of the system prediction, the action choice, "
        "the losses and the training loops equals that of their reference "
        "definitions")
FILES = ['run.c']
RL = ['clset_action', 'clset_validate', 'clset_update', 'ea', 'clset_free',
      'clset_kill', 'clset_init', 'clset_match', 'pa_build', 'pa_best_action',
      'pa_rand_action', 'xcs_rl_init_trial', 'xcs_rl_init_step',
      'xcs_rl_update', 'xcs_rl_end_step', 'xcs_rl_end_trial', 'perf_print',
      'pa_best_val', 'xcs_supervised_score', 'pa_val']


def less(*n):
    return [x for x in RL if x not in n]


TARGETS = {
    'pa_init': {}, 'pa_build': dict(opaque=['cl_predict']),
    'pa_best_val': {}, 'pa_val': {},
    'pa_best_action': {}, 'pa_rand_action': {},
    'xcs_rl_decision': dict(opaque=RL),
    'clset_action': dict(opaque=['clset_add']),
    'clset_match': dict(opaque=['clset_add', 'cl_match', 'cl_action',
                                'clset_mfrac'],
                        facts={('arg', 2): 0}),
    'xcs_rl_update': dict(opaque=less('xcs_rl_update')),
    'xcs_rl_error': dict(opaque=RL),
    'xcs_rl_init_trial': dict(opaque=['clset_init']),
    'xcs_rl_init_step': dict(opaque=['clset_init']),
    'xcs_rl_end_step': dict(opaque=less('xcs_rl_end_step')),
    'xcs_rl_end_trial': dict(opaque=['clset_free', 'clset_kill']),
    'xcs_rl_fit': dict(opaque=RL),
    'xcs_supervised_fit': dict(opaque=RL),
    'xcs_supervised_predict': dict(opaque=RL),
    'xcs_supervised_score': dict(opaque=less('xcs_supervised_score')),
    'xcs_supervised_score_n': dict(opaque=RL),
    'loss_mae': {}, 'loss_mse': {}, 'loss_rmse': {}, 'loss_log': {},
    'loss_binary_log': {}, 'loss_onehot': {}, 'loss_huber': {},
}


def run(R):
    check(R, FILES, TARGETS)

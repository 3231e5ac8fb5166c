"""C23: the sets, deletion, parental selection and offspring."""
from refcheck import *

RULE = ("the gated value graph of every operation on sets and of every step "
        "of deletion, parental selection and insertion of offspring equals "
        "that of its reference definition")
FILES = ['pop.c']
OP = ['cl_del_vote', 'cl_init', 'cl_cover', 'cl_rand', 'cl_cond_size',
      'cl_pred_size', 'clset_total_fit', 'cl_subsumer', 'cl_general',
      'cl_mutate', 'cl_crossover', 'cl_copy', 'cl_free', 'clset_set_times',
      'clset_mean_time', 'clset_validate', 'clset_load_pop_file']
ADD = OP + ['clset_add']
TARGETS = {n: dict(opaque=OP) for n in (
    'clset_init', 'clset_add', 'clset_free', 'clset_kill',
    'clset_pset_never_match', 'clset_pset_roulette', 'clset_action_coverage',
    'ea_select_rw', 'ea_select_tournament', 'ea_init_offspring')}
for n in ('ea_subsume', 'ea_add', 'ea_select', 'clset_pset_del'):
    TARGETS[n] = dict(opaque=ADD)
EA = dict(opaque=ADD + ['ea_select_rw', 'ea_select_tournament',
                        'ea_init_offspring', 'ea_add',
                        'clset_pset_enforce_limit'],
          internal={'ea_select_rw': 'xcsf set fit_sum',
                    'ea_select_tournament': 'xcsf set',
                    'ea_init_offspring': 'xcsf c1p c2p c1 c2 cmod',
                    'ea_add': 'xcsf set c1p c2p c1 cmod mmod'}, unroll=True)
TARGETS['ea'] = [dict(EA, case='%d offspring' % n,
                      facts={('ArgsEA', 'lambda'): n}) for n in (0, 1, 2, 3)]
for n in ('clset_validate', 'clset_subsumption'):
    TARGETS[n] = [dict(opaque=[x for x in OP if x != n], unroll=True,
                       case='%d in a set' % k,
                       facts={('Set', 'size'): k},
                       hints={('Set', 'size'): [k],
                              ('Cl', 'num'): [0, 1, 2, 0]}) for k in (0, 1, 2, 3)]


def run(R):
    check(R, FILES, TARGETS)

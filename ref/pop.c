/* Reference semantics of the population sets and the evolutionary algorithm
 * (see learn.c). */
#include "xcsf.h"
#include "action.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "ea.h"
#include "loss.h"
#include "pa.h"
#include "param.h"
#include "perf.h"
#include "prediction.h"
#include "utils.h"
#include "xcs_rl.h"
#include "xcs_supervised.h"
#include <float.h>


void
clset_load_pop_file(struct XCSF *xcsf);
struct Cl *
ea_select_rw(const struct XCSF *xcsf, const struct Set *set,
             const double fit_sum);
struct Cl *
ea_select_tournament(const struct XCSF *xcsf, const struct Set *set);
void
ea_init_offspring(const struct XCSF *xcsf, const struct Cl *c1p,
                  const struct Cl *c2p, struct Cl *c1, struct Cl *c2,
                  const bool cmod);
void
ea_add(struct XCSF *xcsf, const struct Set *set, struct Cl *c1p,
       struct Cl *c2p, struct Cl *c1, const bool cmod, const bool mmod);
void
clset_cover(struct XCSF *xcsf, const double *x);
bool
clset_action_coverage(const struct XCSF *xcsf, bool *act_covered);

/* never matched anything although it had its chance: first such in the list */
void
ref_clset_pset_never_match(const struct XCSF *xcsf, struct Clist **del,
                           struct Clist **delprev)
{
    struct Clist *before = NULL;
    for (struct Clist *p = xcsf->pset.list; p != NULL; p = p->next) {
        if (p->cl->age > xcsf->M_PROBATION && p->cl->mtotal == 0) {
            *delprev = before;
            *del = p;
            return;
        }
        before = p;
    }
}

/* proportionate to the deletion vote; the larger of two when compacting */
void
ref_clset_pset_roulette(const struct XCSF *xcsf, struct Clist **del,
                        struct Clist **delprev)
{
    const double mean = clset_total_fit(&xcsf->pset) / xcsf->pset.num;
    double votes = 0;
    for (struct Clist *p = xcsf->pset.list; p != NULL; p = p->next) {
        votes = votes + cl_del_vote(xcsf, p->cl, mean);
    }
    int spins = 1;
    if (xcsf->COMPACTION && xcsf->error < xcsf->E0) {
        spins = 2;
    }
    double largest = 0;
    for (int k = 0; k < spins; ++k) {
        const double r = rand_uniform(0, votes);
        struct Clist *before = NULL;
        struct Clist *p = xcsf->pset.list;
        double acc = cl_del_vote(xcsf, p->cl, mean);
        while (acc < r) {
            before = p;
            p = p->next;
            acc += cl_del_vote(xcsf, p->cl, mean);
        }
        const double size =
            cl_cond_size(xcsf, p->cl) + cl_pred_size(xcsf, p->cl);
        if (*del == NULL || largest < size) {
            largest = size;
            *del = p;
            *delprev = before;
        }
    }
}

bool
ref_clset_action_coverage(const struct XCSF *xcsf, bool *act_covered)
{
    const int n = xcsf->n_actions;
    for (int i = 0; i < n; ++i) {
        act_covered[i] = false;
    }
    for (struct Clist *p = xcsf->mset.list; p != NULL; p = p->next) {
        act_covered[p->cl->action] = true;
    }
    for (int i = 0; i < n; ++i) {
        if (act_covered[i] == false) {
            return false;
        }
    }
    return true;
}

void
ref_clset_init(struct Set *set)
{
    set->num = 0;
    set->size = 0;
    set->list = NULL;
}

void
ref_clset_add(struct Set *set, struct Cl *c)
{
    struct Clist *node = malloc(sizeof(struct Clist));
    node->next = set->list;
    node->cl = c;
    set->list = node;
    set->num = set->num + c->num;
    set->size = set->size + 1;
}

void
ref_clset_free(struct Set *set)
{
    struct Clist *p = set->list;
    while (p != NULL) {
        struct Clist *next = p->next;
        free(p);
        p = next;
    }
    ref_clset_init(set);
}

void
ref_clset_kill(const struct XCSF *xcsf, struct Set *set)
{
    struct Clist *p = set->list;
    while (p != NULL) {
        struct Clist *next = p->next;
        cl_free(xcsf, p->cl);
        free(p);
        p = next;
    }
    ref_clset_init(set);
}

/* filled up with random classifiers, all of them as if made at time 0 */
void
ref_clset_pset_init(struct XCSF *xcsf)
{
    if (xcsf->population_file[0] != '\0') {
        clset_load_pop_file(xcsf);
    }
    while (xcsf->POP_INIT && xcsf->POP_SIZE > xcsf->pset.num) {
        struct Cl *c = malloc(sizeof(struct Cl));
        cl_init(xcsf, c, xcsf->POP_SIZE, 0);
        cl_rand(xcsf, c);
        clset_add(&xcsf->pset, c);
    }
}

/* fitness-proportionate */
struct Cl *
ref_ea_select_rw(const struct XCSF *xcsf, const struct Set *set,
                 const double fit_sum)
{
    (void) xcsf;
    const double p = rand_uniform(0, fit_sum);
    struct Clist *it = set->list;
    double acc = it->cl->fit;
    while (acc < p) {
        it = it->next;
        acc += it->cl->fit;
    }
    return it->cl;
}

/* fittest of a random fraction of the set, which may not be empty */
struct Cl *
ref_ea_select_tournament(const struct XCSF *xcsf, const struct Set *set)
{
    struct Cl *best = NULL;
    while (best == NULL) {
        for (struct Clist *it = set->list; it != NULL; it = it->next) {
            if (rand_uniform(0, 1) < xcsf->ea->select_size) {
                if (best == NULL || best->fit < it->cl->fit) {
                    best = it->cl;
                }
            }
        }
    }
    return best;
}

/* reduced error and fitness (per micro-classifier) of the parents */
void
ref_ea_init_offspring(const struct XCSF *xcsf, const struct Cl *c1p,
                      const struct Cl *c2p, struct Cl *c1, struct Cl *c2,
                      const bool cmod)
{
    const double er = xcsf->ea->err_reduc;
    const double fr = xcsf->ea->fit_reduc;
    const double e1 = c1p->err;
    const double e2 = c2p->err;
    const double f1 = c1p->fit / c1p->num;
    const double f2 = c2p->fit / c2p->num;
    c1->err = er * (cmod ? (e1 + e2) / 2 : e1);
    c2->err = er * (cmod ? (e1 + e2) / 2 : e2);
    c1->fit = fr * (cmod ? (f1 + f2) / 2 : f1);
    c2->fit = fr * (cmod ? (f1 + f2) / 2 : f2);
}

static void
absorb(struct XCSF *xcsf, struct Cl *winner, struct Cl *child)
{
    winner->num += 1;
    xcsf->pset.num += 1;
    cl_free(xcsf, child);
}

/* by the parents, else by a random subsumer of the set, else by none */
void
ref_ea_subsume(struct XCSF *xcsf, struct Cl *c, struct Cl *c1p, struct Cl *c2p,
               const struct Set *set)
{
    if (cl_subsumer(xcsf, c1p) && cl_general(xcsf, c1p, c)) {
        absorb(xcsf, c1p, c);
        return;
    }
    if (cl_subsumer(xcsf, c2p) && cl_general(xcsf, c2p, c)) {
        absorb(xcsf, c2p, c);
        return;
    }
    struct Clist *found[set->size];
    int n = 0;
    for (struct Clist *it = set->list; it != NULL; it = it->next) {
        if (cl_subsumer(xcsf, it->cl) && cl_general(xcsf, it->cl, c)) {
            found[n] = it;
            n = n + 1;
        }
    }
    if (n == 0) {
        clset_add(&xcsf->pset, c);
    } else {
        absorb(xcsf, found[rand_uniform_int(0, n)]->cl, c);
    }
}

/* an unaltered offspring is another copy of its own parent */
void
ref_ea_add(struct XCSF *xcsf, const struct Set *set, struct Cl *c1p,
           struct Cl *c2p, struct Cl *c1, const bool cmod, const bool mmod)
{
    if (cmod || mmod) {
        if (xcsf->ea->subsumption) {
            ref_ea_subsume(xcsf, c1, c1p, c2p, set);
        } else {
            clset_add(&xcsf->pset, c1);
        }
    } else {
        absorb(xcsf, c1p, c1);
    }
}

/* both parents before either offspring */
void
ref_ea_select(const struct XCSF *xcsf, const struct Set *set, struct Cl **c1p,
              struct Cl **c2p)
{
    if (xcsf->ea->select_type != EA_SELECT_ROULETTE) {
        *c1p = ref_ea_select_tournament(xcsf, set);
        *c2p = ref_ea_select_tournament(xcsf, set);
        return;
    }
    const double total = clset_total_fit(set);
    *c1p = ref_ea_select_rw(xcsf, set, total);
    *c2p = ref_ea_select_rw(xcsf, set, total);
}

/* lambda offspring of two parents whenever theta trials have passed */
void
ref_ea(struct XCSF *xcsf, const struct Set *set)
{
    xcsf->time = xcsf->time + 1;
    if (set->size == 0) {
        return;
    }
    if (xcsf->time - clset_mean_time(set) < xcsf->ea->theta) {
        return;
    }
    clset_set_times(xcsf, set);
    struct Cl *mum = NULL;
    struct Cl *dad = NULL;
    if (xcsf->ea->select_type == EA_SELECT_ROULETTE) {
        const double total = clset_total_fit(set);
        mum = ea_select_rw(xcsf, set, total);
        dad = ea_select_rw(xcsf, set, total);
    } else {
        mum = ea_select_tournament(xcsf, set);
        dad = ea_select_tournament(xcsf, set);
    }
    for (int n = 0; n < xcsf->ea->lambda; n += 2) {
        struct Cl *a = malloc(sizeof(struct Cl));
        struct Cl *b = malloc(sizeof(struct Cl));
        cl_init(xcsf, a, mum->size, mum->time);
        cl_copy(xcsf, a, mum);
        cl_init(xcsf, b, dad->size, dad->time);
        cl_copy(xcsf, b, dad);
        const bool crossed = cl_crossover(xcsf, a, b);
        const bool ma = cl_mutate(xcsf, a);
        const bool mb = cl_mutate(xcsf, b);
        ea_init_offspring(xcsf, mum, dad, a, b, crossed);
        ea_add(xcsf, set, mum, dad, a, crossed, ma);
        ea_add(xcsf, set, dad, mum, b, crossed, mb);
    }
    clset_pset_enforce_limit(xcsf);
}

/* drops members without copies and recounts */
void
ref_clset_validate(struct Set *set)
{
    set->size = 0;
    set->num = 0;
    struct Clist **link = &set->list;
    while (*link != NULL) {
        struct Clist *p = *link;
        if (p->cl != NULL && p->cl->num != 0) {
            set->size += 1;
            set->num += p->cl->num;
            link = &p->next;
        } else {
            *link = p->next;
            free(p);
        }
    }
}

/* the most general subsumer takes over whatever it is more general than */
void
ref_clset_subsumption(struct XCSF *xcsf, struct Set *set)
{
    struct Cl *s = NULL;
    for (struct Clist *p = set->list; p != NULL; p = p->next) {
        if (cl_subsumer(xcsf, p->cl)) {
            if (s == NULL || cl_general(xcsf, p->cl, s)) {
                s = p->cl;
            }
        }
    }
    if (s == NULL) {
        return;
    }
    int n = 0;
    for (struct Clist *p = set->list; p != NULL; p = p->next) {
        if (p->cl != NULL && p->cl != s && cl_general(xcsf, s, p->cl)) {
            s->num += p->cl->num;
            p->cl->num = 0;
            clset_add(&xcsf->kset, p->cl);
            n = n + 1;
        }
    }
    if (n > 0) {
        clset_validate(set);
        clset_validate(&xcsf->pset);
    }
}

/* one copy less of one classifier; the last one takes it out */
void
ref_clset_pset_del(struct XCSF *xcsf)
{
    struct Clist *victim = NULL;
    struct Clist *before = NULL;
    ref_clset_pset_never_match(xcsf, &victim, &before);
    if (victim == NULL) {
        ref_clset_pset_roulette(xcsf, &victim, &before);
    }
    xcsf->pset.num -= 1;
    victim->cl->num -= 1;
    if (victim->cl->num == 0) {
        clset_add(&xcsf->kset, victim->cl);
        xcsf->pset.size -= 1;
        if (before != NULL) {
            before->next = victim->next;
        } else {
            xcsf->pset.list = victim->next;
        }
        free(victim);
    }
}

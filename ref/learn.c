/* Reference semantics of the learning equations (XCS/XCSF), written from the
 * published definitions.  Never linked or run: the analyser compares the value
 * graph of each ref_X with that of X. */
#include "xcsf.h"
#include "action.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "ea.h"
#include "loss.h"
#include "pa.h"
#include "param.h"
#include "perf.h"
#include "prediction.h"
#include "utils.h"
#include "xcs_rl.h"
#include "xcs_supervised.h"
#include <float.h>

void
ref_cl_init(const struct XCSF *xcsf, struct Cl *c, const double size,
            const int time)
{
    c->fit = xcsf->INIT_FITNESS;
    c->err = xcsf->INIT_ERROR;
    c->num = 1;
    c->exp = 0;
    c->size = size;
    c->time = time;
    c->prediction = calloc(xcsf->y_dim, sizeof(double));
    c->action = 0;
    c->m = false;
    c->age = 0;
    c->mtotal = 0;
}

/* relative accuracy: 1 inside the error threshold, a power law outside */
double
ref_cl_acc(const struct XCSF *xcsf, const struct Cl *c)
{
    if (c->err <= xcsf->E0) {
        return 1;
    }
    double k = xcsf->ALPHA * pow(c->err / xcsf->E0, -xcsf->NU);
    return k > DBL_EPSILON ? k : DBL_EPSILON;
}

/* moyenne adaptive modifiee: plain mean for the first 1/beta updates */
void
ref_cl_update(const struct XCSF *xcsf, struct Cl *c, const double *x,
              const double *y, const int set_num, const bool cur)
{
    const int n = c->exp + 1;
    c->exp = n;
    if (!cur) {
        pred_compute(xcsf, c, x);
    }
    const double e = (xcsf->loss_ptr)(xcsf, c->prediction, y);
    double rate = xcsf->BETA;
    if (n * xcsf->BETA < 1) {
        rate = 1.0 / n;
    }
    c->err = c->err + rate * (e - c->err);
    c->size = c->size + rate * (set_num - c->size);
    cond_update(xcsf, c, x, y);
    pred_update(xcsf, c, x, y);
    act_update(xcsf, c, x, y);
}

void
ref_cl_update_fit(const struct XCSF *xcsf, struct Cl *c, const double acc_sum,
                  const double acc)
{
    c->fit =
        (1 - xcsf->BETA) * c->fit + xcsf->BETA * (acc * c->num / acc_sum);
}

/* every member is updated with the numerosity of the set, and then receives
 * its share of the accuracy of the set */
void
ref_clset_update(struct XCSF *xcsf, struct Set *set, const double *x,
                 const double *y, const bool cur)
{
    for (struct Clist *p = set->list; p != NULL; p = p->next) {
        cl_update(xcsf, p->cl, x, y, set->num, cur);
    }
    double sum = 0;
    for (struct Clist *p = set->list; p != NULL; p = p->next) {
        sum += cl_acc(xcsf, p->cl) * p->cl->num;
    }
    for (struct Clist *p = set->list; p != NULL; p = p->next) {
        cl_update_fit(xcsf, p->cl, sum, cl_acc(xcsf, p->cl));
    }
}

double
ref_cl_del_vote(const struct XCSF *xcsf, const struct Cl *c,
                const double avg_fit)
{
    double vote = c->size * c->num;
    const double fit = c->fit / c->num;
    if (c->exp > xcsf->THETA_DEL && c->fit < xcsf->DELTA * avg_fit * c->num) {
        vote *= avg_fit / fit;
    }
    return vote;
}

bool
ref_cl_subsumer(const struct XCSF *xcsf, const struct Cl *c)
{
    return c->exp > xcsf->THETA_SUB && c->err < xcsf->E0;
}

bool
ref_cl_general(const struct XCSF *xcsf, const struct Cl *c1,
               const struct Cl *c2)
{
    return cond_general(xcsf, c1, c2) && act_general(xcsf, c1, c2);
}

bool
ref_cl_match(const struct XCSF *xcsf, struct Cl *c, const double *x)
{
    const bool m = cond_match(xcsf, c, x);
    c->m = m;
    c->mtotal += m ? 1 : 0;
    c->age += 1;
    return m;
}

double
ref_cl_mfrac(const struct XCSF *xcsf, const struct Cl *c)
{
    return c->age > 0 ? (double) c->mtotal / c->age : 0;
}

int
ref_cl_action(const struct XCSF *xcsf, struct Cl *c, const double *x)
{
    const int a = act_compute(xcsf, c, x);
    c->action = a;
    return a;
}

const double *
ref_cl_predict(const struct XCSF *xcsf, const struct Cl *c, const double *x)
{
    pred_compute(xcsf, c, x);
    return c->prediction;
}

bool
ref_cl_mutate(const struct XCSF *xcsf, const struct Cl *c)
{
    const bool a = cond_mutate(xcsf, c);
    const bool b = pred_mutate(xcsf, c);
    bool d = false;
    if (xcsf->n_actions > 1) {
        d = act_mutate(xcsf, c);
    }
    return a || b || d;
}

bool
ref_cl_crossover(const struct XCSF *xcsf, const struct Cl *c1,
                 const struct Cl *c2)
{
    const bool a = cond_crossover(xcsf, c1, c2);
    const bool b = pred_crossover(xcsf, c1, c2);
    const bool d = act_crossover(xcsf, c1, c2);
    return a || b || d;
}

double
ref_clset_total_fit(const struct Set *set)
{
    double s = 0;
    for (struct Clist *p = set->list; p != NULL; p = p->next) {
        s += p->cl->fit;
    }
    return s;
}

double
ref_clset_mean_time(const struct Set *set)
{
    double s = 0;
    for (struct Clist *p = set->list; p != NULL; p = p->next) {
        s += p->cl->num * p->cl->time;
    }
    return s / set->num;
}

void
ref_clset_set_times(const struct XCSF *xcsf, const struct Set *set)
{
    for (struct Clist *p = set->list; p != NULL; p = p->next) {
        p->cl->time = xcsf->time;
    }
}

double
ref_clset_mean_cond_size(const struct XCSF *xcsf, const struct Set *set)
{
    double s = 0;
    int n = 0;
    for (struct Clist *p = set->list; p != NULL; p = p->next) {
        s += cl_cond_size(xcsf, p->cl);
        n += 1;
    }
    return s / n;
}

double
ref_clset_mean_pred_size(const struct XCSF *xcsf, const struct Set *set)
{
    double s = 0;
    int n = 0;
    for (struct Clist *p = set->list; p != NULL; p = p->next) {
        s += cl_pred_size(xcsf, p->cl);
        n += 1;
    }
    return s / n;
}

/* match fraction of the most general accurate rule; of the best rule when no
 * rule is accurate */
double
ref_clset_mfrac(const struct XCSF *xcsf)
{
    double best = 0;
    for (struct Clist *p = xcsf->pset.list; p != NULL; p = p->next) {
        const struct Cl *c = p->cl;
        if (c->exp * xcsf->BETA > 1 && c->err < xcsf->E0 &&
            cl_mfrac(xcsf, c) > best) {
            best = cl_mfrac(xcsf, c);
        }
    }
    if (best == 0) {
        double low = DBL_MAX;
        for (struct Clist *p = xcsf->pset.list; p != NULL; p = p->next) {
            const struct Cl *c = p->cl;
            if (c->exp * xcsf->BETA > 1 && c->err < low) {
                low = c->err;
                best = cl_mfrac(xcsf, c);
            }
        }
    }
    return best;
}

/* Reference semantics of prediction, payoff and the training loops (see
 * learn.c). */
#include "xcsf.h"
#include "action.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "ea.h"
#include "loss.h"
#include "pa.h"
#include "param.h"
#include "perf.h"
#include "prediction.h"
#include "utils.h"
#include "xcs_rl.h"
#include "xcs_supervised.h"
#include <float.h>

/* fitness-weighted mean of the predictions of the match set, per action */
void
ref_pa_build(const struct XCSF *xcsf, const double *x)
{
    const int d = xcsf->y_dim;
    for (int i = 0; i < xcsf->pa_size; ++i) {
        xcsf->pa[i] = 0;
        xcsf->nr[i] = 0;
    }
    for (struct Clist *p = xcsf->mset.list; p != NULL; p = p->next) {
        cl_predict(xcsf, p->cl, x);
    }
    for (struct Clist *p = xcsf->mset.list; p != NULL; p = p->next) {
        for (int j = 0; j < d; ++j) {
            xcsf->pa[p->cl->action * d + j] +=
                p->cl->fit * p->cl->prediction[j];
            xcsf->nr[p->cl->action * d + j] += p->cl->fit;
        }
    }
    for (int i = 0; i < xcsf->n_actions; ++i) {
        for (int j = 0; j < d; ++j) {
            xcsf->pa[i * d + j] = xcsf->nr[i * d + j] == 0 ?
                0 :
                xcsf->pa[i * d + j] / xcsf->nr[i * d + j];
        }
    }
}

void
ref_pa_init(struct XCSF *xcsf)
{
    xcsf->pa_size = xcsf->n_actions * xcsf->y_dim;
    xcsf->pa = malloc(sizeof(double) * xcsf->pa_size);
    xcsf->nr = malloc(sizeof(double) * xcsf->pa_size);
    xcsf->cover = calloc(xcsf->pa_size, sizeof(double));
}

double
ref_pa_best_val(const struct XCSF *xcsf)
{
    double best = xcsf->pa[0];
    for (int i = 1; i < xcsf->pa_size; ++i) {
        if (xcsf->pa[i] > best) {
            best = xcsf->pa[i];
        }
    }
    return best;
}

double
ref_pa_val(const struct XCSF *xcsf, const int action)
{
    if (action >= 0 && action < xcsf->n_actions) {
        return xcsf->pa[action];
    }
    exit(EXIT_FAILURE);
}

/* one of the actions with the largest prediction, uniformly */
int
ref_pa_best_action(const struct XCSF *xcsf)
{
    int *ties = calloc(xcsf->n_actions, sizeof(int));
    double best = xcsf->pa[0];
    int n = 1;
    for (int i = 1; i < xcsf->n_actions; ++i) {
        if (xcsf->pa[i] > best) {
            best = xcsf->pa[i];
            ties[0] = i;
            n = 1;
        } else if (xcsf->pa[i] == best) {
            ties[n] = i;
            ++n;
        }
    }
    const int a = ties[rand_uniform_int(0, n)];
    free(ties);
    return a;
}

/* a random action that is represented in the match set */
int
ref_pa_rand_action(const struct XCSF *xcsf)
{
    int a = rand_uniform_int(0, xcsf->n_actions);
    while (xcsf->nr[a] == 0) {
        a = rand_uniform_int(0, xcsf->n_actions);
    }
    return a;
}

int
ref_xcs_rl_decision(struct XCSF *xcsf, const double *state)
{
    clset_match(xcsf, state, true);
    pa_build(xcsf, state);
    bool random = false;
    if (xcsf->explore) {
        random = rand_uniform(0, 1) < xcsf->P_EXPLORE;
    }
    return random ? pa_rand_action(xcsf) : pa_best_action(xcsf);
}

void
ref_clset_action(struct XCSF *xcsf, const int action)
{
    for (struct Clist *p = xcsf->mset.list; p != NULL; p = p->next) {
        if (p->cl->action == action) {
            clset_add(&xcsf->aset, p->cl);
        }
    }
    xcsf->aset_size += xcsf->BETA * (xcsf->aset.size - xcsf->aset_size);
}

/* matching without covering */
void
ref_clset_match(struct XCSF *xcsf, const double *x, const bool cover)
{
    for (struct Clist *p = xcsf->pset.list; p != NULL; p = p->next) {
        cl_match(xcsf, p->cl, x);
        cl_action(xcsf, p->cl, x);
    }
    for (struct Clist *p = xcsf->pset.list; p != NULL; p = p->next) {
        if (p->cl->m) {
            clset_add(&xcsf->mset, p->cl);
        }
    }
    xcsf->mset_size += xcsf->BETA * (xcsf->mset.size - xcsf->mset_size);
    xcsf->mfrac += xcsf->BETA * (clset_mfrac(xcsf) - xcsf->mfrac);
}

/* discounted payoff to the previous action set, reward to the last one */
void
ref_xcs_rl_update(struct XCSF *xcsf, const double *state, const int action,
                  const double reward, const bool done)
{
    clset_action(xcsf, action);
    if (xcsf->prev_aset.list != NULL) {
        const double payoff =
            xcsf->prev_reward + xcsf->GAMMA * pa_best_val(xcsf);
        clset_validate(&xcsf->prev_aset);
        clset_update(xcsf, &xcsf->prev_aset, xcsf->prev_state, &payoff,
                     false);
        if (xcsf->explore) {
            ea(xcsf, &xcsf->prev_aset);
        }
    }
    if (done) {
        const double payoff = reward;
        clset_validate(&xcsf->aset);
        clset_update(xcsf, &xcsf->aset, state, &payoff, true);
        if (xcsf->explore) {
            ea(xcsf, &xcsf->aset);
        }
    }
}

double
ref_xcs_rl_error(struct XCSF *xcsf, const int action, const double reward,
                 const bool done, const double max_p)
{
    double e = 0;
    const double pred = pa_val(xcsf, action);
    if (xcsf->prev_aset.list != NULL) {
        const double target = xcsf->prev_reward + xcsf->GAMMA * pred;
        e += (xcsf->loss_ptr)(xcsf, &xcsf->prev_pred, &target) / max_p;
    }
    if (done) {
        e += (xcsf->loss_ptr)(xcsf, &pred, &reward) / max_p;
    }
    xcsf->error = xcsf->error + xcsf->BETA * (e - xcsf->error);
    return e;
}

void
ref_xcs_rl_init_trial(struct XCSF *xcsf)
{
    if (xcsf->x_dim < 1) {
        exit(EXIT_FAILURE);
    }
    xcsf->prev_reward = 0;
    xcsf->prev_pred = 0;
    xcsf->prev_state = malloc(sizeof(double) * xcsf->x_dim);
    clset_init(&xcsf->prev_aset);
    clset_init(&xcsf->kset);
}

void
ref_xcs_rl_init_step(struct XCSF *xcsf)
{
    clset_init(&xcsf->mset);
    clset_init(&xcsf->aset);
}

void
ref_xcs_rl_end_step(struct XCSF *xcsf, const double *state, const int action,
                    const double reward)
{
    clset_free(&xcsf->mset);
    clset_free(&xcsf->prev_aset);
    xcsf->prev_aset.list = xcsf->aset.list;
    xcsf->prev_aset.size = xcsf->aset.size;
    xcsf->prev_aset.num = xcsf->aset.num;
    xcsf->prev_reward = reward;
    xcsf->prev_pred = pa_val(xcsf, action);
    for (int i = 0; i < xcsf->x_dim; ++i) {
        xcsf->prev_state[i] = state[i];
    }
}

void
ref_xcs_rl_end_trial(struct XCSF *xcsf)
{
    clset_free(&xcsf->prev_aset);
    clset_kill(xcsf, &xcsf->kset);
}

double
ref_xcs_rl_fit(struct XCSF *xcsf, const double *state, const int action,
               const double reward)
{
    xcs_rl_init_trial(xcsf);
    xcs_rl_init_step(xcsf);
    clset_match(xcsf, state, true);
    pa_build(xcsf, state);
    const double pred = pa_val(xcsf, action);
    const double e = (xcsf->loss_ptr)(xcsf, &pred, &reward);
    param_set_explore(xcsf, true);
    xcs_rl_update(xcsf, state, action, reward, true);
    xcs_rl_end_step(xcsf, state, action, reward);
    xcs_rl_end_trial(xcsf);
    xcsf->error += xcsf->BETA * (e - xcsf->error);
    return e;
}

static void
trial(struct XCSF *xcsf, const double *x, const double *y)
{
    clset_init(&xcsf->mset);
    clset_init(&xcsf->kset);
    clset_match(xcsf, x, true);
    pa_build(xcsf, x);
    if (xcsf->explore) {
        clset_update(xcsf, &xcsf->mset, x, y, true);
        ea(xcsf, &xcsf->mset);
    }
    clset_kill(xcsf, &xcsf->kset);
    clset_free(&xcsf->mset);
}

static int
pick(const struct Input *data, const int n, const bool shuffle)
{
    return shuffle ? rand_uniform_int(0, data->n_samples) :
                     n % data->n_samples;
}

double
ref_xcs_supervised_fit(struct XCSF *xcsf, const struct Input *train,
                       const struct Input *test, const bool shuffle,
                       const int start, const int trials)
{
    double err = 0;
    double w1 = 0;
    double w2 = 0;
    for (int i = 0; i < trials; ++i) {
        int k = pick(train, start + i, shuffle);
        const double *y = &train->y[train->y_dim * k];
        param_set_explore(xcsf, true);
        trial(xcsf, &train->x[train->x_dim * k], y);
        const double e = (xcsf->loss_ptr)(xcsf, xcsf->pa, y);
        err += e;
        w1 += e;
        xcsf->error += xcsf->BETA * (e - xcsf->error);
        if (test != NULL) {
            k = pick(test, start + i, shuffle);
            y = &test->y[test->y_dim * k];
            param_set_explore(xcsf, false);
            trial(xcsf, &test->x[test->x_dim * k], y);
            w2 += (xcsf->loss_ptr)(xcsf, xcsf->pa, y);
        }
        perf_print(xcsf, &w1, &w2, i);
    }
    return err / trials;
}

static void
present(struct XCSF *xcsf, const double *x, const double *cover)
{
    clset_init(&xcsf->mset);
    clset_init(&xcsf->kset);
    clset_match(xcsf, x, cover == NULL);
    if (cover != NULL && xcsf->mset.size < 1) {
        memcpy(xcsf->pa, cover, sizeof(double) * xcsf->pa_size);
    } else {
        pa_build(xcsf, x);
    }
    clset_kill(xcsf, &xcsf->kset);
    clset_free(&xcsf->mset);
}

void
ref_xcs_supervised_predict(struct XCSF *xcsf, const double *x, double *pred,
                           const int n_samples, const double *cover)
{
    xcsf->explore = false;
    for (int i = 0; i < n_samples; ++i) {
        present(xcsf, &x[xcsf->x_dim * i], cover);
        memcpy(&pred[i * xcsf->pa_size], xcsf->pa,
               sizeof(double) * xcsf->pa_size);
    }
}

double
ref_xcs_supervised_score(struct XCSF *xcsf, const struct Input *data,
                         const double *cover)
{
    xcsf->explore = false;
    double sum = 0;
    for (int i = 0; i < data->n_samples; ++i) {
        present(xcsf, &data->x[data->x_dim * i], cover);
        sum += (xcsf->loss_ptr)(xcsf, xcsf->pa, &data->y[data->y_dim * i]);
    }
    return sum / data->n_samples;
}

double
ref_xcs_supervised_score_n(struct XCSF *xcsf, const struct Input *data,
                           const int N, const double *cover)
{
    if (N > data->n_samples) {
        return xcs_supervised_score(xcsf, data, cover);
    }
    xcsf->explore = false;
    double sum = 0;
    for (int i = 0; i < N; ++i) {
        const int k = rand_uniform_int(0, data->n_samples);
        present(xcsf, &data->x[data->x_dim * k], cover);
        sum += (xcsf->loss_ptr)(xcsf, xcsf->pa, &data->y[data->y_dim * k]);
    }
    return sum / N;
}

/* ----------------------------------------------------------------- losses */

double
ref_loss_mae(const struct XCSF *xcsf, const double *pred, const double *y)
{
    double s = 0;
    for (int i = 0; i < xcsf->y_dim; ++i) {
        s += fabs(pred[i] - y[i]);
    }
    return s / xcsf->y_dim;
}

double
ref_loss_mse(const struct XCSF *xcsf, const double *pred, const double *y)
{
    double s = 0;
    for (int i = 0; i < xcsf->y_dim; ++i) {
        s += pow(pred[i] - y[i], 2);
    }
    return s / xcsf->y_dim;
}

double
ref_loss_rmse(const struct XCSF *xcsf, const double *pred, const double *y)
{
    return sqrt(ref_loss_mse(xcsf, pred, y));
}

double
ref_loss_log(const struct XCSF *xcsf, const double *pred, const double *y)
{
    double s = 0;
    for (int i = 0; i < xcsf->y_dim; ++i) {
        s -= y[i] * log(fmax(pred[i], DBL_EPSILON));
    }
    return s;
}

double
ref_loss_binary_log(const struct XCSF *xcsf, const double *pred,
                    const double *y)
{
    double s = 0;
    for (int i = 0; i < xcsf->y_dim; ++i) {
        s -= y[i] * log(fmax(pred[i], DBL_EPSILON));
        s -= (1 - y[i]) * log(fmax(1 - pred[i], DBL_EPSILON));
    }
    return s;
}

double
ref_loss_onehot(const struct XCSF *xcsf, const double *pred, const double *y)
{
    int top = 0;
    for (int i = 1; i < xcsf->y_dim; ++i) {
        if (pred[i] > pred[top]) {
            top = i;
        }
    }
    return y[top] == 1 ? 0 : 1;
}

double
ref_loss_huber(const struct XCSF *xcsf, const double *pred, const double *y)
{
    const double d = xcsf->HUBER_DELTA;
    double s = 0;
    for (int i = 0; i < xcsf->y_dim; ++i) {
        const double a = fabs(pred[i] - y[i]);
        s += a > d ? d * (a - d / 2) : a * a / 2;
    }
    return s / xcsf->y_dim;
}

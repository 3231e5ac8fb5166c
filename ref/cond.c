/* Reference semantics of conditions, actions and covering (see learn.c). */
#include "xcsf.h"
#include "act_integer.h"
#include "act_neural.h"
#include "cl.h"
#include "cond_dgp.h"
#include "cond_dummy.h"
#include "cond_ellipsoid.h"
#include "cond_gp.h"
#include "cond_neural.h"
#include "cond_rectangle.h"
#include "cond_ternary.h"
#include "condition.h"
#include "ea.h"
#include "rule_dgp.h"
#include "rule_neural.h"
#include "sam.h"
#include "utils.h"
#include <float.h>

/* ------------------------------------------------------------ dummy */

bool
ref_cond_dummy_match(const struct XCSF *xcsf, const struct Cl *c,
                     const double *x)
{
    return true;
}

/* ---------------------------------------------------- hyperrectangles */

static double
lower(const struct XCSF *xcsf, const struct CondRectangle *r, const int i)
{
    if (xcsf->cond->type == COND_TYPE_HYPERRECTANGLE_CSR) {
        return r->b1[i] - r->b2[i];
    }
    return r->b1[i] < r->b2[i] ? r->b1[i] : r->b2[i];
}

static double
upper(const struct XCSF *xcsf, const struct CondRectangle *r, const int i)
{
    if (xcsf->cond->type == COND_TYPE_HYPERRECTANGLE_CSR) {
        return r->b1[i] + r->b2[i];
    }
    return r->b1[i] > r->b2[i] ? r->b1[i] : r->b2[i];
}

bool
ref_cond_rectangle_match(const struct XCSF *xcsf, const struct Cl *c,
                         const double *x)
{
    const struct CondRectangle *r = c->cond;
    for (int i = 0; i < xcsf->x_dim; ++i) {
        if (!(lower(xcsf, r, i) <= x[i] && x[i] <= upper(xcsf, r, i))) {
            return false;
        }
    }
    return true;
}

bool
ref_cond_rectangle_general(const struct XCSF *xcsf, const struct Cl *c1,
                           const struct Cl *c2)
{
    const struct CondRectangle *a = c1->cond;
    const struct CondRectangle *b = c2->cond;
    for (int i = 0; i < xcsf->x_dim; ++i) {
        if (lower(xcsf, b, i) < lower(xcsf, a, i) ||
            upper(xcsf, b, i) > upper(xcsf, a, i)) {
            return false;
        }
    }
    return true;
}

void
ref_cond_rectangle_cover(const struct XCSF *xcsf, const struct Cl *c,
                         const double *x)
{
    const struct CondRectangle *r = c->cond;
    const double width = fabs(xcsf->cond->max - xcsf->cond->min);
    for (int i = 0; i < xcsf->x_dim; ++i) {
        if (xcsf->cond->type == COND_TYPE_HYPERRECTANGLE_CSR) {
            r->b2[i] = rand_uniform(xcsf->cond->spread_min, width);
            r->b1[i] = x[i];
        } else {
            const double u = rand_uniform(xcsf->cond->spread_min, width);
            const double v = rand_uniform(xcsf->cond->spread_min, width);
            r->b1[i] = x[i] - u / 2;
            r->b2[i] = x[i] + v / 2;
        }
    }
}

void
ref_cond_rectangle_update(const struct XCSF *xcsf, const struct Cl *c,
                          const double *x, const double *y)
{
    const struct CondRectangle *r = c->cond;
    const double eta = xcsf->cond->eta;
    if (xcsf->cond->type != COND_TYPE_HYPERRECTANGLE_CSR || eta <= 0) {
        return;
    }
    for (int i = 0; i < xcsf->x_dim; ++i) {
        r->b1[i] = (1 - eta) * r->b1[i] + eta * x[i];
    }
}

bool
ref_cond_rectangle_crossover(const struct XCSF *xcsf, const struct Cl *c1,
                             const struct Cl *c2)
{
    const struct CondRectangle *a = c1->cond;
    const struct CondRectangle *b = c2->cond;
    bool any = false;
    if (!(rand_uniform(0, 1) < xcsf->ea->p_crossover)) {
        return false;
    }
    for (int i = 0; i < xcsf->x_dim; ++i) {
        if (rand_uniform(0, 1) < 0.5) {
            const double t = b->b1[i];
            b->b1[i] = a->b1[i];
            a->b1[i] = t;
            any = true;
        }
        if (rand_uniform(0, 1) < 0.5) {
            const double t = b->b2[i];
            b->b2[i] = a->b2[i];
            a->b2[i] = t;
            any = true;
        }
    }
    return any;
}

static double
inside(const double v, const double lo, const double hi)
{
    if (v < lo) {
        return lo;
    }
    return v > hi ? hi : v;
}

static const int sam_type[1] = { SAM_LOG_NORMAL };

bool
ref_cond_rectangle_mutate(const struct XCSF *xcsf, const struct Cl *c)
{
    const struct CondRectangle *r = c->cond;
    bool any = false;
    sam_adapt(r->mu, 1, sam_type);
    for (int i = 0; i < xcsf->x_dim; ++i) {
        const double o1 = r->b1[i];
        const double o2 = r->b2[i];
        const double n1 = inside(o1 + rand_normal(0, r->mu[0]),
                                 xcsf->cond->min, xcsf->cond->max);
        double n2 = o2 + rand_normal(0, r->mu[0]);
        if (xcsf->cond->type == COND_TYPE_HYPERRECTANGLE_CSR) {
            n2 = n2 > DBL_EPSILON ? n2 : DBL_EPSILON;
        } else {
            n2 = inside(n2, xcsf->cond->min, xcsf->cond->max);
        }
        r->b1[i] = n1;
        r->b2[i] = n2;
        if (n1 != o1 || n2 != o2) {
            any = true;
        }
    }
    return any;
}

/* -------------------------------------------------- hyperellipsoids */

bool
ref_cond_ellipsoid_match(const struct XCSF *xcsf, const struct Cl *c,
                         const double *x)
{
    const struct CondEllipsoid *e = c->cond;
    double d = 0;
    for (int i = 0; i < xcsf->x_dim; ++i) {
        d += pow((x[i] - e->center[i]) / e->spread[i], 2);
    }
    return d < 1;
}

/* the extreme points of the second along each axis lie in the first */
bool
ref_cond_ellipsoid_general(const struct XCSF *xcsf, const struct Cl *c1,
                           const struct Cl *c2)
{
    const struct CondEllipsoid *a = c1->cond;
    const struct CondEllipsoid *b = c2->cond;
    for (int i = 0; i < xcsf->x_dim; ++i) {
        if (a->center[i] == b->center[i] && a->spread[i] == b->spread[i]) {
            continue;
        }
        double hi = 0;
        double lo = 0;
        for (int j = 0; j < xcsf->x_dim; ++j) {
            double p = b->center[j];
            double q = b->center[j];
            if (j == i) {
                p += b->spread[j];
                q -= b->spread[j];
            }
            p = (p - a->center[j]) / a->spread[j];
            q = (q - a->center[j]) / a->spread[j];
            hi += p * p;
            lo += q * q;
        }
        if (hi > 1 || lo > 1) {
            return false;
        }
    }
    return true;
}

void
ref_cond_ellipsoid_cover(const struct XCSF *xcsf, const struct Cl *c,
                         const double *x)
{
    const struct CondEllipsoid *e = c->cond;
    const double width = fabs(xcsf->cond->max - xcsf->cond->min);
    for (int i = 0; i < xcsf->x_dim; ++i) {
        e->spread[i] = rand_uniform(xcsf->cond->spread_min, width);
        e->center[i] = x[i];
    }
}

void
ref_cond_ellipsoid_update(const struct XCSF *xcsf, const struct Cl *c,
                          const double *x, const double *y)
{
    const struct CondEllipsoid *e = c->cond;
    const double eta = xcsf->cond->eta;
    if (eta > 0) {
        for (int i = 0; i < xcsf->x_dim; ++i) {
            e->center[i] = (1 - eta) * e->center[i] + eta * x[i];
        }
    }
}

bool
ref_cond_ellipsoid_crossover(const struct XCSF *xcsf, const struct Cl *c1,
                             const struct Cl *c2)
{
    const struct CondEllipsoid *a = c1->cond;
    const struct CondEllipsoid *b = c2->cond;
    bool any = false;
    if (!(rand_uniform(0, 1) < xcsf->ea->p_crossover)) {
        return false;
    }
    for (int i = 0; i < xcsf->x_dim; ++i) {
        if (rand_uniform(0, 1) < 0.5) {
            const double t = b->center[i];
            b->center[i] = a->center[i];
            a->center[i] = t;
            any = true;
        }
        if (rand_uniform(0, 1) < 0.5) {
            const double t = b->spread[i];
            b->spread[i] = a->spread[i];
            a->spread[i] = t;
            any = true;
        }
    }
    return any;
}

bool
ref_cond_ellipsoid_mutate(const struct XCSF *xcsf, const struct Cl *c)
{
    const struct CondEllipsoid *e = c->cond;
    bool any = false;
    sam_adapt(e->mu, 1, sam_type);
    for (int i = 0; i < xcsf->x_dim; ++i) {
        const double o1 = e->center[i];
        const double o2 = e->spread[i];
        const double n1 = inside(o1 + rand_normal(0, e->mu[0]),
                                 xcsf->cond->min, xcsf->cond->max);
        double n2 = o2 + rand_normal(0, e->mu[0]);
        n2 = n2 > DBL_EPSILON ? n2 : DBL_EPSILON;
        e->center[i] = n1;
        e->spread[i] = n2;
        if (n1 != o1 || n2 != o2) {
            any = true;
        }
    }
    return any;
}

/* ----------------------------------------------------------- ternary */

bool
ref_cond_ternary_match(const struct XCSF *xcsf, const struct Cl *c,
                       const double *x)
{
    const struct CondTernary *t = c->cond;
    const int n = xcsf->cond->bits;
    for (int i = 0; i < xcsf->x_dim; ++i) {
        float_to_binary(x[i], t->tmp_input, n);
        for (int j = 0; j < n; ++j) {
            if (t->string[i * n + j] != '#' &&
                t->string[i * n + j] != t->tmp_input[j]) {
                return false;
            }
        }
    }
    return true;
}

bool
ref_cond_ternary_general(const struct XCSF *xcsf, const struct Cl *c1,
                         const struct Cl *c2)
{
    const struct CondTernary *a = c1->cond;
    const struct CondTernary *b = c2->cond;
    bool more = false;
    for (int i = 0; i < a->length; ++i) {
        if (a->string[i] == b->string[i]) {
            continue;
        }
        if (a->string[i] != '#') {
            return false;
        }
        more = true;
    }
    return more;
}

void
ref_cond_ternary_cover(const struct XCSF *xcsf, const struct Cl *c,
                       const double *x)
{
    const struct CondTernary *t = c->cond;
    const int n = xcsf->cond->bits;
    for (int i = 0; i < xcsf->x_dim; ++i) {
        float_to_binary(x[i], t->tmp_input, n);
        for (int j = 0; j < n; ++j) {
            const double u = rand_uniform(0, 1);
            t->string[i * n + j] =
                u < xcsf->cond->p_dontcare ? '#' : t->tmp_input[j];
        }
    }
}

bool
ref_cond_ternary_crossover(const struct XCSF *xcsf, const struct Cl *c1,
                           const struct Cl *c2)
{
    const struct CondTernary *a = c1->cond;
    const struct CondTernary *b = c2->cond;
    bool any = false;
    if (!(rand_uniform(0, 1) < xcsf->ea->p_crossover)) {
        return false;
    }
    for (int i = 0; i < a->length; ++i) {
        if (rand_uniform(0, 1) < 0.5) {
            const char v = b->string[i];
            b->string[i] = a->string[i];
            a->string[i] = v;
            any = true;
        }
    }
    return any;
}

bool
ref_cond_ternary_mutate(const struct XCSF *xcsf, const struct Cl *c)
{
    const struct CondTernary *t = c->cond;
    bool any = false;
    sam_adapt(t->mu, 1, sam_type);
    for (int i = 0; i < t->length; ++i) {
        if (rand_uniform(0, 1) < t->mu[0]) {
            any = true;
            if (t->string[i] != '#') {
                t->string[i] = '#';
            } else if (rand_uniform(0, 1) < 0.5) {
                t->string[i] = '0';
            } else {
                t->string[i] = '1';
            }
        }
    }
    return any;
}

/* -------------------------------------------- programs and networks */

bool
ref_cond_gp_match(const struct XCSF *xcsf, const struct Cl *c,
                  const double *x)
{
    struct CondGP *g = c->cond;
    g->gp.pos = 0;
    return tree_eval(&g->gp, xcsf->cond->targs, x) > 0.5;
}

void
ref_cond_gp_cover(const struct XCSF *xcsf, const struct Cl *c,
                  const double *x)
{
    struct CondGP *g = c->cond;
    bool m = false;
    while (!m) {
        tree_free(&g->gp);
        tree_rand(&g->gp, xcsf->cond->targs);
        m = cond_gp_match(xcsf, c, x);
    }
}

bool
ref_cond_dgp_match(const struct XCSF *xcsf, const struct Cl *c,
                   const double *x)
{
    const struct CondDGP *g = c->cond;
    graph_update(&g->dgp, x, !xcsf->STATEFUL);
    return g->dgp.state[0] > 0.5;
}

void
ref_cond_dgp_cover(const struct XCSF *xcsf, const struct Cl *c,
                   const double *x)
{
    struct CondDGP *g = c->cond;
    bool m = false;
    while (!m) {
        graph_rand(&g->dgp);
        m = cond_dgp_match(xcsf, c, x);
    }
}

bool
ref_cond_neural_match(const struct XCSF *xcsf, const struct Cl *c,
                      const double *x)
{
    struct CondNeural *g = c->cond;
    neural_propagate(&g->net, x, xcsf->explore);
    return neural_output(&g->net, 0) > 0.5;
}

void
ref_cond_neural_cover(const struct XCSF *xcsf, const struct Cl *c,
                      const double *x)
{
    const struct CondNeural *g = c->cond;
    bool m = false;
    while (!m) {
        neural_rand(&g->net);
        m = cond_neural_match(xcsf, c, x);
    }
}

bool
ref_rule_dgp_cond_match(const struct XCSF *xcsf, const struct Cl *c,
                        const double *x)
{
    const struct RuleDGP *g = c->cond;
    graph_update(&g->dgp, x, !xcsf->STATEFUL);
    return g->dgp.state[0] > 0.5;
}

int
ref_rule_dgp_act_compute(const struct XCSF *xcsf, const struct Cl *c,
                         const double *x)
{
    const struct RuleDGP *g = c->cond;
    int a = 0;
    for (int i = 0; i < g->n_outputs; ++i) {
        if (g->dgp.state[i + 1] > 0.5) {
            a += (int) pow(2, i);
        }
    }
    if (a > xcsf->n_actions - 1) {
        a = xcsf->n_actions - 1;
    }
    return a;
}

void
ref_rule_dgp_act_cover(const struct XCSF *xcsf, const struct Cl *c,
                       const double *x, const int action)
{
    struct RuleDGP *g = c->cond;
    for (;;) {
        graph_rand(&g->dgp);
        if (rule_dgp_cond_match(xcsf, c, x) && rule_dgp_act_compute(xcsf, c, x) == action) {
            return;
        }
    }
}

bool
ref_rule_neural_cond_match(const struct XCSF *xcsf, const struct Cl *c,
                           const double *x)
{
    struct RuleNeural *g = c->cond;
    neural_propagate(&g->net, x, xcsf->explore);
    return neural_output(&g->net, 0) > 0.5;
}

int
ref_rule_neural_act_compute(const struct XCSF *xcsf, const struct Cl *c,
                            const double *x)
{
    const struct RuleNeural *g = c->cond;
    int a = 0;
    for (int i = 1; i < g->net.n_outputs; ++i) {
        if (neural_output(&g->net, i) > 0.5) {
            a += (int) pow(2, i - 1);
        }
    }
    if (a > xcsf->n_actions - 1) {
        a = xcsf->n_actions - 1;
    }
    return a;
}

void
ref_rule_neural_act_cover(const struct XCSF *xcsf, const struct Cl *c,
                          const double *x, const int action)
{
    const struct RuleNeural *g = c->cond;
    for (;;) {
        neural_rand(&g->net);
        if (rule_neural_cond_match(xcsf, c, x) && rule_neural_act_compute(xcsf, c, x) == action) {
            return;
        }
    }
}

/* ----------------------------------------------------------- actions */

int
ref_act_integer_compute(const struct XCSF *xcsf, const struct Cl *c,
                        const double *x)
{
    return ((struct ActInteger *) c->act)->action;
}

void
ref_act_integer_cover(const struct XCSF *xcsf, const struct Cl *c,
                      const double *x, const int action)
{
    ((struct ActInteger *) c->act)->action = action;
}

bool
ref_act_integer_general(const struct XCSF *xcsf, const struct Cl *c1,
                        const struct Cl *c2)
{
    return ((struct ActInteger *) c1->act)->action ==
        ((struct ActInteger *) c2->act)->action;
}

bool
ref_act_integer_mutate(const struct XCSF *xcsf, const struct Cl *c)
{
    struct ActInteger *a = c->act;
    sam_adapt(a->mu, 1, sam_type);
    if (!(rand_uniform(0, 1) < a->mu[0])) {
        return false;
    }
    const int old = a->action;
    const int new = rand_uniform_int(0, xcsf->n_actions);
    a->action = new;
    return new != old;
}

int
ref_act_neural_compute(const struct XCSF *xcsf, const struct Cl *c,
                       const double *x)
{
    struct ActNeural *a = c->act;
    neural_propagate(&a->net, x, xcsf->explore);
    const double *o = neural_outputs(&a->net);
    int best = 0;
    for (int i = 1; i < xcsf->n_actions; ++i) {
        if (o[i] > o[best]) {
            best = i;
        }
    }
    return best;
}

void
ref_act_neural_cover(const struct XCSF *xcsf, const struct Cl *c,
                     const double *x, const int action)
{
    const struct ActNeural *a = c->act;
    for (;;) {
        neural_rand(&a->net);
        if (act_neural_compute(xcsf, c, x) == action) {
            return;
        }
    }
}

/* -------------------------------------------------------- classifier */

void
ref_cl_cover(const struct XCSF *xcsf, struct Cl *c, const double *x,
             const int action)
{
    cl_rand(xcsf, c);
    cond_cover(xcsf, c, x);
    act_cover(xcsf, c, x, action);
    c->action = action;
    c->m = true;
}

/* -------------------------------------------------- adaptive mutation */

void
ref_float_to_binary(const double f, char *binary, const int bits)
{
    int v = (int) (f * pow(2, bits));
    for (int i = bits - 1; i >= 0; --i) {
        if (f >= 1) {
            binary[i] = '1';
        } else if (f <= 0) {
            binary[i] = '0';
        } else {
            binary[i] = v % 2 == 1 ? '1' : '0';
            v = v / 2;
        }
    }
}

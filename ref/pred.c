/* Reference semantics of predictions, self-adaptation and linear algebra
 * (see learn.c). */
#include "xcsf.h"
#include "blas.h"
#include "cl.h"
#include "neural.h"
#include "pred_constant.h"
#include "pred_neural.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "prediction.h"
#include "sam.h"
#include "utils.h"

/* ---------------------------------------------------- linear algebra */

void
ref_blas_gemm(const int TA, const int TB, const int M, const int N,
              const int K, const double ALPHA, const double *A, const int lda,
              const double *B, const int ldb, const double BETA, double *C,
              const int ldc)
{
    for (int i = 0; i < M; ++i) {
        for (int j = 0; j < N; ++j) {
            double s = 0;
            for (int k = 0; k < K; ++k) {
                s += (TA ? A[k * lda + i] : A[i * lda + k]) *
                    (TB ? B[j * ldb + k] : B[k * ldb + j]);
            }
            C[i * ldc + j] = BETA * C[i * ldc + j] + ALPHA * s;
        }
    }
}

void
ref_blas_axpy(const int N, const double ALPHA, const double *X,
              const int INCX, double *Y, const int INCY)
{
    for (int i = 0; i < N; ++i) {
        Y[i * INCY] = Y[i * INCY] + ALPHA * X[i * INCX];
    }
}

void
ref_blas_scal(const int N, const double ALPHA, double *X, const int INCX)
{
    for (int i = 0; i < N; ++i) {
        X[i * INCX] = ALPHA * X[i * INCX];
    }
}

void
ref_blas_fill(const int N, const double ALPHA, double *X, const int INCX)
{
    for (int i = 0; i < N; ++i) {
        X[i * INCX] = ALPHA;
    }
}

double
ref_blas_dot(const int N, const double *X, const int INCX, const double *Y,
             const int INCY)
{
    double s = 0;
    for (int i = 0; i < N; ++i) {
        s += X[i * INCX] * Y[i * INCY];
    }
    return s;
}

void
ref_blas_mul(const int N, const double *X, const int INCX, double *Y,
             const int INCY)
{
    for (int i = 0; i < N; ++i) {
        Y[i * INCY] = X[i * INCX] * Y[i * INCY];
    }
}

double
ref_blas_sum(const double *X, const int N)
{
    double s = 0;
    for (int i = 0; i < N; ++i) {
        s += X[i];
    }
    return s;
}

/* ------------------------------------------------------- predictions */

void
ref_pred_constant_init(const struct XCSF *xcsf, struct Cl *c)
{
}

void
ref_pred_constant_update(const struct XCSF *xcsf, const struct Cl *c,
                         const double *x, const double *y)
{
    for (int i = 0; i < xcsf->y_dim; ++i) {
        const double p = c->prediction[i];
        c->prediction[i] = c->exp * xcsf->BETA < 1 ?
            p + (y[i] - p) / c->exp :
            p + xcsf->BETA * (y[i] - p);
    }
}

void
ref_pred_constant_compute(const struct XCSF *xcsf, const struct Cl *c,
                          const double *x)
{
}

void
ref_pred_transform_input(const struct XCSF *xcsf, const double *x,
                         const double X0, double *out)
{
    const int n = xcsf->x_dim;
    out[0] = X0;
    for (int i = 0; i < n; ++i) {
        out[1 + i] = x[i];
    }
    if (xcsf->pred->type == PRED_TYPE_NLMS_QUADRATIC ||
        xcsf->pred->type == PRED_TYPE_RLS_QUADRATIC) {
        int k = n + 1;
        for (int i = 0; i < n; ++i) {
            for (int j = i; j < n; ++j) {
                out[k] = x[i] * x[j];
                k = k + 1;
            }
        }
    }
}

void
ref_pred_nlms_init(const struct XCSF *xcsf, struct Cl *c)
{
    static const int type[1] = { SAM_LOG_NORMAL };
    struct PredNLMS *p = malloc(sizeof(struct PredNLMS));
    const int d = xcsf->x_dim;
    c->pred = p;
    p->n = d + 1;
    if (xcsf->pred->type == PRED_TYPE_NLMS_QUADRATIC) {
        p->n = 1 + d + d + d * (d - 1) / 2;
    }
    p->n_weights = p->n * xcsf->y_dim;
    p->weights = calloc(p->n_weights, sizeof(double));
    for (int i = 0; i < xcsf->y_dim; ++i) {
        p->weights[i * p->n] = xcsf->pred->x0;
    }
    p->mu = malloc(sizeof(double));
    if (xcsf->pred->evolve_eta) {
        sam_init(p->mu, 1, type);
        p->eta = rand_uniform(xcsf->pred->eta_min, xcsf->pred->eta);
    } else {
        memset(p->mu, 0, sizeof(double));
        p->eta = xcsf->pred->eta;
    }
    p->tmp_input = malloc(sizeof(double) * p->n);
}

void
ref_pred_nlms_update(const struct XCSF *xcsf, const struct Cl *c,
                     const double *x, const double *y)
{
    const struct PredNLMS *p = c->pred;
    double norm = xcsf->pred->x0 * xcsf->pred->x0;
    for (int i = 0; i < xcsf->x_dim; ++i) {
        norm += x[i] * x[i];
    }
    for (int i = 0; i < xcsf->y_dim; ++i) {
        const double e = y[i] - c->prediction[i];
        for (int j = 0; j < p->n; ++j) {
            p->weights[i * p->n + j] += p->eta * e / norm * p->tmp_input[j];
        }
    }
}

void
ref_pred_nlms_compute(const struct XCSF *xcsf, const struct Cl *c,
                      const double *x)
{
    const struct PredNLMS *p = c->pred;
    pred_transform_input(xcsf, x, xcsf->pred->x0, p->tmp_input);
    for (int i = 0; i < xcsf->y_dim; ++i) {
        double s = 0;
        for (int j = 0; j < p->n; ++j) {
            s += p->weights[i * p->n + j] * p->tmp_input[j];
        }
        c->prediction[i] = s;
    }
}

bool
ref_pred_nlms_mutate(const struct XCSF *xcsf, const struct Cl *c)
{
    static const int type[1] = { SAM_LOG_NORMAL };
    struct PredNLMS *p = c->pred;
    if (!xcsf->pred->evolve_eta) {
        return false;
    }
    sam_adapt(p->mu, 1, type);
    const double old = p->eta;
    double v = old + rand_normal(0, p->mu[0]);
    if (v < xcsf->pred->eta_min) {
        v = xcsf->pred->eta_min;
    } else if (v > xcsf->pred->eta) {
        v = xcsf->pred->eta;
    }
    p->eta = v;
    return v != old;
}

void
ref_pred_rls_init(const struct XCSF *xcsf, struct Cl *c)
{
    struct PredRLS *p = malloc(sizeof(struct PredRLS));
    const int d = xcsf->x_dim;
    c->pred = p;
    p->n = d + 1;
    if (xcsf->pred->type == PRED_TYPE_RLS_QUADRATIC) {
        p->n = 1 + d + d + d * (d - 1) / 2;
    }
    p->n_weights = p->n * xcsf->y_dim;
    p->weights = calloc(p->n_weights, sizeof(double));
    for (int i = 0; i < xcsf->y_dim; ++i) {
        p->weights[i * p->n] = xcsf->pred->x0;
    }
    p->matrix = calloc(p->n * p->n, sizeof(double));
    for (int i = 0; i < p->n; ++i) {
        p->matrix[i * p->n + i] = xcsf->pred->scale_factor;
    }
    p->tmp_input = malloc(sizeof(double) * p->n);
    p->tmp_vec = calloc(p->n, sizeof(double));
    p->tmp_matrix1 = calloc(p->n * p->n, sizeof(double));
    p->tmp_matrix2 = calloc(p->n * p->n, sizeof(double));
}

void
ref_pred_rls_compute(const struct XCSF *xcsf, const struct Cl *c,
                     const double *x)
{
    const struct PredRLS *p = c->pred;
    pred_transform_input(xcsf, x, xcsf->pred->x0, p->tmp_input);
    for (int i = 0; i < xcsf->y_dim; ++i) {
        double s = 0;
        for (int j = 0; j < p->n; ++j) {
            s += p->weights[i * p->n + j] * p->tmp_input[j];
        }
        c->prediction[i] = s;
    }
}

void
ref_pred_rls_update(const struct XCSF *xcsf, const struct Cl *c,
                    const double *x, const double *y)
{
    const struct PredRLS *p = c->pred;
    const int n = p->n;
    const double lambda = xcsf->pred->lambda;
    for (int i = 0; i < n; ++i) {
        double s = 0;
        for (int j = 0; j < n; ++j) {
            s += p->matrix[i * n + j] * p->tmp_input[j];
        }
        p->tmp_vec[i] = s;
    }
    double d = lambda;
    for (int i = 0; i < n; ++i) {
        d += p->tmp_input[i] * p->tmp_vec[i];
    }
    for (int i = 0; i < n; ++i) {
        p->tmp_vec[i] = p->tmp_vec[i] / d;
    }
    for (int i = 0; i < xcsf->y_dim; ++i) {
        const double e = y[i] - c->prediction[i];
        for (int j = 0; j < n; ++j) {
            p->weights[i * n + j] += e * p->tmp_vec[j];
        }
    }
    for (int i = 0; i < n; ++i) {
        for (int j = 0; j < n; ++j) {
            p->tmp_matrix1[i * n + j] =
                (i == j ? 1 : 0) - p->tmp_vec[i] * p->tmp_input[j];
        }
    }
    for (int i = 0; i < n; ++i) {
        for (int j = 0; j < n; ++j) {
            double s = 0;
            for (int k = 0; k < n; ++k) {
                s += p->tmp_matrix1[i * n + k] * p->matrix[k * n + j];
            }
            p->tmp_matrix2[i * n + j] = s;
        }
    }
    for (int i = 0; i < n; ++i) {
        for (int j = 0; j < n; ++j) {
            p->matrix[i * n + j] = p->tmp_matrix2[i * n + j] / lambda;
        }
    }
}

void
ref_pred_neural_update(const struct XCSF *xcsf, const struct Cl *c,
                       const double *x, const double *y)
{
    neural_learn(&((struct PredNeural *) c->pred)->net, y, x);
}

void
ref_pred_neural_compute(const struct XCSF *xcsf, const struct Cl *c,
                        const double *x)
{
    struct PredNeural *p = c->pred;
    neural_propagate(&p->net, x, xcsf->explore);
    for (int i = 0; i < xcsf->y_dim; ++i) {
        c->prediction[i] = neural_output(&p->net, i);
    }
}

bool
ref_pred_neural_mutate(const struct XCSF *xcsf, const struct Cl *c)
{
    return neural_mutate(&((struct PredNeural *) c->pred)->net);
}

/* --------------------------------------------------- self-adaptation */

static const double rates[10] = { 0.0005, 0.001, 0.002, 0.003, 0.005,
                                  0.01,   0.015, 0.02,  0.05,  0.1 };

void
ref_sam_init(double *mu, const int N, const int *type)
{
    for (int i = 0; i < N; ++i) {
        if (type[i] == SAM_LOG_NORMAL || type[i] == SAM_UNIFORM) {
            mu[i] = rand_uniform(0.0005, 1);
        } else if (type[i] == SAM_RATE_SELECT) {
            mu[i] = rates[rand_uniform_int(0, 10)];
        } else {
            exit(EXIT_FAILURE);
        }
    }
}

void
ref_sam_adapt(double *mu, const int N, const int *type)
{
    for (int i = 0; i < N; ++i) {
        if (type[i] == SAM_LOG_NORMAL) {
            double v = mu[i] * exp(rand_normal(0, 1));
            if (v < 0.0005) {
                v = 0.0005;
            } else if (v > 1) {
                v = 1;
            }
            mu[i] = v;
        } else if (type[i] == SAM_RATE_SELECT) {
            if (rand_uniform(0, 1) < 0.1) {
                mu[i] = rates[rand_uniform_int(0, 10)];
            }
        } else if (type[i] == SAM_UNIFORM) {
            if (rand_uniform(0, 1) < 0.1) {
                mu[i] = rand_uniform(0.0005, 1);
            }
        } else {
            exit(EXIT_FAILURE);
        }
    }
}

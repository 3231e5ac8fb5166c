CHECK = 'C20'
B, C, N, L, P, S, U = ('xcsf/' + x for x in ('blas.c', 'pred_constant.c', 'pred_nlms.c', 'pred_rls.c', 'prediction.c', 'sam.c', 'pred_neural.c'))
BROKEN = [
 [(B, "const double A_PART = ALPHA * A[k * lda + i];", "const double A_PART = ALPHA * A[i * lda + k];")],
 [(B, "sum += ALPHA * A[i * lda + k] * B[j * ldb + k];", "sum += ALPHA * A[i * lda + k] * B[k * ldb + j];")],
 [(B, "sum += ALPHA * A[i + k * lda] * B[k + j * ldb];\n            }\n            C[i * ldc + j] += sum;", "sum += ALPHA * A[i + k * lda] * B[k + j * ldb];\n            }\n            C[i * ldc + j] = sum;")],
 [(B, "C[i * ldc + j] *= BETA;", "C[i * N + j] *= BETA;")],
 [(B, "Y[i * INCY] += X[i * INCX];", "Y[i * INCX] += X[i * INCX];")],
 [(B, "            X[i * INCX] = 0;", "            X[i] = 0;")],
 [(B, "dot += X[i * INCX] * Y[i * INCY];", "dot += X[i * INCX] * Y[i * INCX];")],
 [(C, "(c->prediction[i] * (c->exp - 1) + y[i]) / c->exp", "(c->prediction[i] * c->exp + y[i]) / (c->exp + 1)")],
 [(C, "xcsf->BETA * (y[i] - c->prediction[i]);", "xcsf->BETA * (y[0] - c->prediction[i]);")],
 [(N, "const double norm = X0 * X0 + blas_dot(xcsf->x_dim, x, 1, x, 1);", "const double norm = X0 + blas_dot(xcsf->x_dim, x, 1, x, 1);")],
 [(N, "blas_axpy(n, correction, pred->tmp_input, 1, &pred->weights[i * n], 1);", "blas_axpy(n - 1, correction, pred->tmp_input, 1, &pred->weights[i * n], 1);")],
 [(N, "pred->eta = clamp(pred->eta, xcsf->pred->eta_min, xcsf->pred->eta);", "pred->eta = clamp(pred->eta, 0, xcsf->pred->eta);")],
 [(N, "blas_fill(xcsf->y_dim, xcsf->pred->x0, pred->weights, pred->n);", "blas_fill(xcsf->y_dim, xcsf->pred->x0, pred->weights, 1);")],
 [(N, "rand_uniform(xcsf->pred->eta_min, xcsf->pred->eta)", "rand_uniform(0, xcsf->pred->eta)")],
 [(N, "pred->n = 1 + 2 * xcsf->x_dim + xcsf->x_dim * (xcsf->x_dim - 1) / 2;", "pred->n = 1 + xcsf->x_dim + xcsf->x_dim * (xcsf->x_dim - 1) / 2;")],
 [(L, "divisor = 1 / (divisor + xcsf->pred->lambda);", "divisor = 1 / (divisor + 1);")],
 [(L, "pred->tmp_matrix1[i * n + j] = -tmp;", "pred->tmp_matrix1[i * n + j] = tmp;")],
 [(L, "pred->tmp_matrix2[i * n + j] / lambda;", "pred->tmp_matrix2[i * n + j];")],
 [(L, "const double tmp = pred->tmp_vec[i] * pred->tmp_input[j];", "const double tmp = pred->tmp_vec[i] * pred->tmp_vec[j];")],
 [(L, "pred->matrix[i * pred->n + i] = xcsf->pred->scale_factor;", "pred->matrix[i * pred->n + i] = 1 / xcsf->pred->scale_factor;")],
 [(L, "blas_dot(n, &pred->weights[i * n], 1, pred->tmp_input, 1);", "blas_dot(xcsf->x_dim + 1, &pred->weights[i * n], 1, pred->tmp_input, 1);")],
 [(P, "for (int j = i; j < xcsf->x_dim; ++j) {", "for (int j = i + 1; j < xcsf->x_dim; ++j) {")],
 [(P, "xcsf->pred->type == PRED_TYPE_NLMS_QUADRATIC ||\n        xcsf->pred->type == PRED_TYPE_RLS_QUADRATIC) {\n        for", "xcsf->pred->type == PRED_TYPE_NLMS_QUADRATIC ||\n        xcsf->pred->type == PRED_TYPE_RLS_LINEAR) {\n        for")],
 [(P, "tmp_input[0] = X0;", "tmp_input[0] = 1;")],
 [(S, "mu[i] = clamp(mu[i], MU_EPSILON, 1);", "mu[i] = clamp(mu[i], 0, 1);")],
 [(S, "mu[i] *= exp(rand_normal(0, 1));", "mu[i] *= rand_normal(0, 1);")],
 [(S, "mu[i] = mrates[rand_uniform_int(0, N_RATES)];\n                break;", "mu[i] = mrates[rand_uniform_int(0, N_RATES - 1)];\n                break;")],
 [(S, "0.015, 0.02,  0.05,", "0.015, 0.02,  0.5,")],
 [(S, "if (rand_uniform(0, 1) < 0.1) {\n                    mu[i] = rand_uniform", "if (rand_uniform(0, 1) < 0.2) {\n                    mu[i] = rand_uniform")],
 [(U, "neural_propagate(&pred->net, x, xcsf->explore);", "neural_propagate(&pred->net, x, false);")],
 [(U, "c->prediction[i] = neural_output(&pred->net, i);", "c->prediction[i] = neural_output(&pred->net, 0);")],
]
KEPT = [
 [(C, "c->exp * xcsf->BETA < 1", "c->exp * xcsf->BETA <= 1")],
 [(B, "    for (int i = 0; i < M; ++i) {\n        for (int k = 0; k < K; ++k) {\n            const double A_PART = ALPHA * A[i * lda + k];\n            for (int j = 0; j < N; ++j) {\n                C[i * ldc + j] += A_PART * B[k * ldb + j];\n            }\n        }\n    }", "    for (int i = 0; i < M; ++i) {\n        double *row = &C[i * ldc];\n        const double *a = &A[i * lda];\n        for (int j = 0; j < N; ++j) {\n            double t = 0;\n            for (int k = 0; k < K; ++k) {\n                t += a[k] * B[k * ldb + j];\n            }\n            row[j] += ALPHA * t;\n        }\n    }")],
 [(B, "    double dot = 0;\n    for (int i = 0; i < N; ++i) {\n        dot += X[i * INCX] * Y[i * INCY];\n    }", "    double dot = 0;\n    int n = N;\n    while (n-- > 0) {\n        dot += *X * *Y;\n        X += INCX;\n        Y += INCY;\n    }")],
 [(C, "            c->prediction[i] =\n                (c->prediction[i] * (c->exp - 1) + y[i]) / c->exp;", "            c->prediction[i] += (y[i] - c->prediction[i]) / c->exp;")],
 [(N, "        blas_axpy(n, correction, pred->tmp_input, 1, &pred->weights[i * n], 1);", "        double *w = pred->weights + i * n;\n        for (int j = n - 1; j >= 0; --j) {\n            w[j] += correction * pred->tmp_input[j];\n        }")],
 [(N, "        pred->eta += rand_normal(0, pred->mu[0]);\n        pred->eta = clamp(pred->eta, xcsf->pred->eta_min, xcsf->pred->eta);\n        if (orig != pred->eta) {\n            return true;\n        }", "        pred->eta = clamp(orig + rand_normal(0, pred->mu[0]),\n                          xcsf->pred->eta_min, xcsf->pred->eta);\n        return orig < pred->eta || orig > pred->eta;")],
 [(L, "            const double tmp = pred->tmp_vec[i] * pred->tmp_input[j];\n            if (i == j) {\n                pred->tmp_matrix1[i * n + j] = 1 - tmp;\n            } else {\n                pred->tmp_matrix1[i * n + j] = -tmp;\n            }", "            double tmp = -pred->tmp_vec[i] * pred->tmp_input[j];\n            if (i == j) {\n                tmp += 1;\n            }\n            pred->tmp_matrix1[i * n + j] = tmp;")],
 [(L, "    // divide gain matrix entries by lambda\n    const double lambda = xcsf->pred->lambda;\n    for (int i = 0; i < n; ++i) {\n        for (int j = 0; j < n; ++j) {\n            pred->matrix[i * n + j] = pred->tmp_matrix2[i * n + j] / lambda;\n        }\n    }", "    const int total = n * n;\n    for (int i = 0; i < total; ++i) {\n        pred->matrix[i] = C[i] / xcsf->pred->lambda;\n    }")],
 [(L, "    divisor = 1 / (divisor + xcsf->pred->lambda);\n    blas_scal(n, divisor, pred->tmp_vec, 1);", "    divisor += xcsf->pred->lambda;\n    for (int i = 0; i < n; ++i) {\n        pred->tmp_vec[i] /= divisor;\n    }")],
 [(P, "    int idx = 1;\n    // linear terms\n    for (int i = 0; i < xcsf->x_dim; ++i) {\n        tmp_input[idx] = x[i];\n        ++idx;\n    }", "    int idx = 1 + xcsf->x_dim;\n    memcpy(&tmp_input[1], x, sizeof(double) * xcsf->x_dim);")],
 [(P, "                tmp_input[idx] = x[i] * x[j];\n                ++idx;", "                tmp_input[idx++] = x[j] * x[i];")],
 [(S, "            case SAM_UNIFORM:\n                if (rand_uniform(0, 1) < 0.1) {\n                    mu[i] = rand_uniform(MU_EPSILON, 1);\n                }\n                break;\n            default:\n                printf(\"sam_adapt()", "            case SAM_UNIFORM: {\n                const double r = rand_uniform(0, 1);\n                if (r >= 0.1) {\n                    break;\n                }\n                mu[i] = rand_uniform(MU_EPSILON, 1);\n                break;\n            }\n            default:\n                printf(\"sam_adapt()")],
]

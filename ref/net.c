/* Reference semantics of neural networks (see learn.c). */
#include "xcsf.h"
#include "blas.h"
#include "image.h"
#include "neural.h"
#include "neural_activations.h"
#include "neural_layer.h"
#include "neural_layer_avgpool.h"
#include "neural_layer_connected.h"
#include "neural_layer_convolutional.h"
#include "neural_layer_dropout.h"
#include "neural_layer_lstm.h"
#include "neural_layer_maxpool.h"
#include "neural_layer_noise.h"
#include "neural_layer_recurrent.h"
#include "neural_layer_softmax.h"
#include "neural_layer_upsample.h"
#include "sam.h"
#include "utils.h"
#include <float.h>

static double
limit(const double v, const double lo, const double hi)
{
    return v < lo ? lo : (v > hi ? hi : v);
}

/* ------------------------------------------------------- activations */

double
ref_neural_activate(const int a, const double x)
{
    if (a == LOGISTIC) {
        return 1 / (1 + exp(-x));
    }
    if (a == RELU) {
        return x > 0 ? x : 0;
    }
    if (a == TANH) {
        return tanh(x);
    }
    if (a == LINEAR) {
        return x;
    }
    if (a == GAUSSIAN) {
        return exp(-(x * x));
    }
    if (a == SIN) {
        return sin(x);
    }
    if (a == COS) {
        return cos(x);
    }
    if (a == SOFT_PLUS) {
        return log1p(exp(x));
    }
    if (a == LEAKY) {
        return x > 0 ? x : x * 0.1;
    }
    if (a == SELU) {
        return x >= 0 ? 1.0507 * x : 1.0507 * 1.6732 * expm1(x);
    }
    if (a == LOGGY) {
        return 2 / (1 + exp(-x)) - 1;
    }
    exit(EXIT_FAILURE);
}

double
ref_neural_gradient(const int a, const double x)
{
    if (a == LOGISTIC) {
        const double s = 1 / (1 + exp(-x));
        return s * (1 - s);
    }
    if (a == RELU) {
        return x > 0 ? 1 : 0;
    }
    if (a == TANH) {
        return 1 - tanh(x) * tanh(x);
    }
    if (a == LINEAR) {
        return 1;
    }
    if (a == GAUSSIAN) {
        return -2 * x * exp(-(x * x));
    }
    if (a == SIN) {
        return cos(x);
    }
    if (a == COS) {
        return -sin(x);
    }
    if (a == SOFT_PLUS) {
        return 1 / (1 + exp(-x));
    }
    if (a == LEAKY) {
        return x < 0 ? 0.1 : 1;
    }
    if (a == SELU) {
        return x >= 0 ? 1.0507 : 1.0507 * 1.6732 * exp(x);
    }
    if (a == LOGGY) {
        return 2 * exp(x) / ((exp(x) + 1) * (exp(x) + 1));
    }
    exit(EXIT_FAILURE);
}

void
ref_neural_activate_array(double *state, double *output, const int n,
                          const int a)
{
    for (int i = 0; i < n; ++i) {
        const double v = limit(state[i], -100, 100);
        state[i] = v;
        output[i] = neural_activate(a, v);
    }
}

void
ref_neural_gradient_array(const double *state, double *delta, const int n,
                          const int a)
{
    for (int i = 0; i < n; ++i) {
        delta[i] = delta[i] * neural_gradient(a, state[i]);
    }
}

/* ---------------------------------------------------- shared by layers */

bool
ref_layer_mutate_eta(struct Layer *l, const double mu)
{
    const double old = l->eta;
    const double v = limit(old + rand_normal(0, mu), l->eta_min, l->eta_max);
    l->eta = v;
    return v != old;
}

int
ref_layer_mutate_neurons(const struct Layer *l, const double mu)
{
    int n = 0;
    if (!(rand_uniform(0, 0.1) < mu)) {
        return 0;
    }
    do {
        const double m = limit(rand_normal(0, 0.5), -1, 1);
        n = (int) round(m * l->max_neuron_grow);
    } while (n == 0);
    if (l->n_outputs + n < 1) {
        return 1 - l->n_outputs;
    }
    if (l->n_outputs + n > l->max_outputs) {
        return l->max_outputs - l->n_outputs;
    }
    return n;
}

bool
ref_layer_mutate_connectivity(struct Layer *l, const double mu_enable,
                              const double mu_disable)
{
    bool any = false;
    if (l->n_inputs <= 1 || l->n_outputs <= 1) {
        return false;
    }
    for (int i = 0; i < l->n_weights; ++i) {
        if (l->weight_active[i]) {
            if (rand_uniform(0, 1) < mu_disable) {
                l->weight_active[i] = false;
                l->weights[i] = 0;
                l->n_active = l->n_active - 1;
                any = true;
            }
        } else {
            if (rand_uniform(0, 1) < mu_enable) {
                l->weight_active[i] = true;
                l->weights[i] = rand_normal(0, 0.1);
                l->n_active = l->n_active + 1;
                any = true;
            }
        }
    }
    return any;
}

bool
ref_layer_mutate_weights(struct Layer *l, const double mu)
{
    bool any = false;
    for (int i = 0; i < l->n_weights; ++i) {
        if (l->weight_active[i]) {
            const double old = l->weights[i];
            const double v = limit(old + rand_normal(0, mu), -10, 10);
            l->weights[i] = v;
            any = any || v != old;
        }
    }
    for (int i = 0; i < l->n_biases; ++i) {
        const double old = l->biases[i];
        const double v = limit(old + rand_normal(0, mu), -10, 10);
        l->biases[i] = v;
        any = any || v != old;
    }
    return any;
}

bool
ref_layer_mutate_functions(struct Layer *l, const double mu)
{
    bool any = false;
    if (rand_uniform(0, 1) < mu) {
        const int f = rand_uniform_int(0, 11);
        any = f != l->function;
        l->function = f;
    }
    if (l->type == LSTM) {
        if (rand_uniform(0, 1) < mu) {
            const int f = rand_uniform_int(0, 11);
            any = any || f != l->recurrent_function;
            l->recurrent_function = f;
        }
    }
    return any;
}

void
ref_layer_weight_rand(struct Layer *l)
{
    for (int i = 0; i < l->n_weights; ++i) {
        l->weights[i] = rand_normal(0, 1);
        l->weight_active[i] = true;
    }
    for (int i = 0; i < l->n_biases; ++i) {
        l->biases[i] = rand_normal(0, 1);
    }
    l->n_active = l->n_weights;
}

void
ref_layer_weight_clamp(const struct Layer *l)
{
    for (int i = 0; i < l->n_weights; ++i) {
        l->weights[i] =
            l->weight_active[i] ? limit(l->weights[i], -10, 10) : 0;
    }
    for (int i = 0; i < l->n_biases; ++i) {
        l->biases[i] = limit(l->biases[i], -10, 10);
    }
}

void
ref_layer_calc_n_active(struct Layer *l)
{
    int n = 0;
    for (int i = 0; i < l->n_weights; ++i) {
        n += l->weight_active[i] ? 1 : 0;
    }
    l->n_active = n;
}

void
ref_layer_init_eta(struct Layer *l)
{
    if (l->options & LAYER_EVOLVE_ETA) {
        l->eta = rand_uniform(l->eta_min, l->eta_max);
    } else {
        l->eta = l->eta_max;
    }
}

static void
learn_weights(const struct Layer *l)
{
    if (!(l->options & LAYER_SGD_WEIGHTS) || !(l->eta > 0)) {
        return;
    }
    for (int i = 0; i < l->n_biases; ++i) {
        const double u = l->bias_updates[i];
        l->biases[i] = limit(l->biases[i] + l->eta * u, -10, 10);
        l->bias_updates[i] = l->momentum * u;
    }
    for (int i = 0; i < l->n_weights; ++i) {
        double u = l->weight_updates[i];
        if (l->decay > 0) {
            u -= l->decay * l->weights[i];
        }
        const double w = l->weights[i] + l->eta * u;
        l->weights[i] = l->weight_active[i] ? limit(w, -10, 10) : 0;
        l->weight_updates[i] = l->momentum * u;
    }
}

/* ----------------------------------------------------- connected layer */

void
ref_neural_layer_connected_forward(const struct Layer *l,
                                   const struct Net *net, const double *input)
{
    for (int i = 0; i < l->n_outputs; ++i) {
        double s = l->biases[i];
        for (int j = 0; j < l->n_inputs; ++j) {
            s += l->weights[i * l->n_inputs + j] * input[j];
        }
        s = limit(s, -100, 100);
        l->state[i] = s;
        l->output[i] = neural_activate(l->function, s);
    }
}

void
ref_neural_layer_connected_backward(const struct Layer *l,
                                    const struct Net *net,
                                    const double *input, double *delta)
{
    for (int i = 0; i < l->n_outputs; ++i) {
        l->delta[i] = l->delta[i] * neural_gradient(l->function, l->state[i]);
    }
    if (l->options & LAYER_SGD_WEIGHTS) {
        for (int i = 0; i < l->n_outputs; ++i) {
            l->bias_updates[i] += l->delta[i];
        }
        for (int i = 0; i < l->n_outputs; ++i) {
            for (int j = 0; j < l->n_inputs; ++j) {
                l->weight_updates[i * l->n_inputs + j] +=
                    l->delta[i] * input[j];
            }
        }
    }
    if (delta != NULL) {
        for (int j = 0; j < l->n_inputs; ++j) {
            double s = 0;
            for (int i = 0; i < l->n_outputs; ++i) {
                s += l->delta[i] * l->weights[i * l->n_inputs + j];
            }
            delta[j] += s;
        }
    }
}

void
ref_neural_layer_connected_update(const struct Layer *l)
{
    learn_weights(l);
}

void
ref_neural_layer_connected_resize(struct Layer *l, const struct Layer *prev)
{
    const int n = prev->n_outputs;
    const int total = n * l->n_outputs;
    if (total < 1 || total > N_WEIGHTS_MAX) {
        exit(EXIT_FAILURE);
    }
    double *w = malloc(sizeof(double) * total);
    double *u = malloc(sizeof(double) * total);
    bool *a = malloc(sizeof(bool) * total);
    for (int i = 0; i < l->n_outputs; ++i) {
        for (int j = 0; j < n; ++j) {
            if (j >= l->n_inputs) {
                w[i * n + j] = rand_normal(0, 0.1);
                u[i * n + j] = 0;
                a[i * n + j] = true;
            } else {
                w[i * n + j] = l->weights[i * l->n_inputs + j];
                u[i * n + j] = l->weight_updates[i * l->n_inputs + j];
                a[i * n + j] = l->weight_active[i * l->n_inputs + j];
            }
        }
    }
    free(l->weights);
    free(l->weight_updates);
    free(l->weight_active);
    l->weights = w;
    l->weight_updates = u;
    l->weight_active = a;
    l->n_weights = total;
    l->n_inputs = n;
    layer_calc_n_active(l);
    if (l->options & LAYER_EVOLVE_CONNECT) {
        layer_ensure_input_represention(l);
    }
}

/* ------------------------------------------------- convolutional layer */

void
ref_im2col(const double *im, const int channels, const int height,
           const int width, const int ksize, const int stride, const int pad,
           double *out)
{
    const int oh = (height + 2 * pad - ksize) / stride + 1;
    const int ow = (width + 2 * pad - ksize) / stride + 1;
    const int n = channels * ksize * ksize;
    for (int c = 0; c < n; ++c) {
        for (int h = 0; h < oh; ++h) {
            for (int w = 0; w < ow; ++w) {
                const int r = (c / ksize) % ksize + h * stride - pad;
                const int q = c % ksize + w * stride - pad;
                double v = 0;
                if (r >= 0 && r < height && q >= 0 && q < width) {
                    v = im[(c / (ksize * ksize) * height + r) * width + q];
                }
                out[(c * oh + h) * ow + w] = v;
            }
        }
    }
}

void
ref_col2im(const double *col, const int channels, const int height,
           const int width, const int ksize, const int stride, const int pad,
           double *im)
{
    const int oh = (height + 2 * pad - ksize) / stride + 1;
    const int ow = (width + 2 * pad - ksize) / stride + 1;
    const int n = channels * ksize * ksize;
    for (int c = 0; c < n; ++c) {
        for (int h = 0; h < oh; ++h) {
            for (int w = 0; w < ow; ++w) {
                const int r = (c / ksize) % ksize + h * stride - pad;
                const int q = c % ksize + w * stride - pad;
                if (r >= 0 && r < height && q >= 0 && q < width) {
                    im[(c / (ksize * ksize) * height + r) * width + q] +=
                        col[(c * oh + h) * ow + w];
                }
            }
        }
    }
}

void
ref_neural_layer_convolutional_forward(const struct Layer *l,
                                       const struct Net *net,
                                       const double *input)
{
    const int k = l->size * l->size * l->channels;
    const int n = l->out_w * l->out_h;
    memset(l->state, 0, sizeof(double) * l->n_outputs);
    const double *col = input;
    if (l->size != 1) {
        im2col(input, l->channels, l->height, l->width, l->size, l->stride,
               l->pad, l->temp);
        col = l->temp;
    }
    blas_gemm(0, 0, l->n_filters, n, k, 1, l->weights, k, col, n, 1, l->state,
              n);
    for (int i = 0; i < l->n_biases; ++i) {
        for (int j = 0; j < n; ++j) {
            l->state[i * n + j] += l->biases[i];
        }
    }
    neural_activate_array(l->state, l->output, l->n_outputs, l->function);
}

void
ref_neural_layer_convolutional_backward(const struct Layer *l,
                                        const struct Net *net,
                                        const double *input, double *delta)
{
    const int n = l->size * l->size * l->channels;
    const int k = l->out_w * l->out_h;
    neural_gradient_array(l->state, l->delta, l->n_outputs, l->function);
    if (l->options & LAYER_SGD_WEIGHTS) {
        for (int i = 0; i < l->n_biases; ++i) {
            double s = 0;
            for (int j = 0; j < k; ++j) {
                s += l->delta[k * i + j];
            }
            l->bias_updates[i] += s;
        }
        const double *col = input;
        if (l->size != 1) {
            im2col(input, l->channels, l->height, l->width, l->size,
                   l->stride, l->pad, l->temp);
            col = l->temp;
        }
        blas_gemm(0, 1, l->n_filters, n, k, 1, l->delta, k, col, k, 1,
                  l->weight_updates, n);
    }
    if (delta != NULL) {
        if (l->size == 1) {
            blas_gemm(1, 0, n, k, l->n_filters, 1, l->weights, n, l->delta, k,
                      0, delta, k);
        } else {
            blas_gemm(1, 0, n, k, l->n_filters, 1, l->weights, n, l->delta, k,
                      0, l->temp, k);
            col2im(l->temp, l->channels, l->height, l->width, l->size,
                   l->stride, l->pad, delta);
        }
    }
}

void
ref_neural_layer_convolutional_update(const struct Layer *l)
{
    learn_weights(l);
}

/* ------------------------------------------------ weightless layers */

void
ref_neural_layer_avgpool_forward(const struct Layer *l, const struct Net *net,
                                 const double *input)
{
    const int n = l->height * l->width;
    for (int k = 0; k < l->channels; ++k) {
        double s = 0;
        for (int i = 0; i < n; ++i) {
            s += input[n * k + i];
        }
        l->output[k] = s / n;
    }
}

void
ref_neural_layer_avgpool_backward(const struct Layer *l,
                                  const struct Net *net, const double *input,
                                  double *delta)
{
    const int n = l->height * l->width;
    if (delta == NULL) {
        return;
    }
    for (int k = 0; k < l->channels; ++k) {
        for (int i = 0; i < n; ++i) {
            delta[n * k + i] += l->delta[k] / n;
        }
    }
}

void
ref_neural_layer_maxpool_forward(const struct Layer *l, const struct Net *net,
                                 const double *input)
{
    const int off = -l->pad / 2;
    for (int k = 0; k < l->channels; ++k) {
        for (int i = 0; i < l->out_h; ++i) {
            for (int j = 0; j < l->out_w; ++j) {
                const int o = j + l->out_w * (i + l->out_h * k);
                if (o >= l->n_outputs) {
                    continue;
                }
                int at = -1;
                double best = -DBL_MAX;
                for (int n = 0; n < l->size; ++n) {
                    for (int m = 0; m < l->size; ++m) {
                        const int h = off + i * l->stride + n;
                        const int w = off + j * l->stride + m;
                        const int x = w + l->width * (h + l->height * k);
                        if (h >= 0 && w >= 0 && h < l->height &&
                            w < l->width && x < l->n_inputs &&
                            input[x] > best) {
                            at = x;
                            best = input[x];
                        }
                    }
                }
                if (at < 0 || at >= l->n_inputs) {
                    exit(EXIT_FAILURE);
                }
                l->indexes[o] = at;
                l->output[o] = input[at];
            }
        }
    }
}

void
ref_neural_layer_maxpool_backward(const struct Layer *l,
                                  const struct Net *net, const double *input,
                                  double *delta)
{
    if (delta != NULL) {
        for (int i = 0; i < l->n_outputs; ++i) {
            delta[l->indexes[i]] += l->delta[i];
        }
    }
}

void
ref_neural_layer_softmax_forward(const struct Layer *l, const struct Net *net,
                                 const double *input)
{
    double top = input[0];
    for (int i = 1; i < l->n_inputs; ++i) {
        top = input[i] > top ? input[i] : top;
    }
    double sum = 0;
    for (int i = 0; i < l->n_inputs; ++i) {
        sum += exp((input[i] - top) / l->scale);
    }
    for (int i = 0; i < l->n_inputs; ++i) {
        l->output[i] = exp((input[i] - top) / l->scale) / sum;
    }
}

void
ref_neural_layer_softmax_backward(const struct Layer *l,
                                  const struct Net *net, const double *input,
                                  double *delta)
{
    if (delta != NULL) {
        for (int i = 0; i < l->n_inputs; ++i) {
            delta[i] += l->delta[i];
        }
    }
}

void
ref_neural_layer_dropout_forward(const struct Layer *l, const struct Net *net,
                                 const double *input)
{
    for (int i = 0; i < l->n_inputs; ++i) {
        if (net->train) {
            l->state[i] = rand_uniform(0, 1);
            l->output[i] =
                l->state[i] < l->probability ? 0 : input[i] * l->scale;
        } else {
            l->output[i] = input[i];
        }
    }
}

void
ref_neural_layer_dropout_backward(const struct Layer *l,
                                  const struct Net *net, const double *input,
                                  double *delta)
{
    if (delta == NULL) {
        return;
    }
    for (int i = 0; i < l->n_inputs; ++i) {
        delta[i] = l->state[i] < l->probability ?
            0 :
            delta[i] + l->scale * l->delta[i];
    }
}

void
ref_neural_layer_noise_forward(const struct Layer *l, const struct Net *net,
                               const double *input)
{
    for (int i = 0; i < l->n_inputs; ++i) {
        double v = input[i];
        if (net->train) {
            l->state[i] = rand_uniform(0, 1);
            if (l->state[i] < l->probability) {
                v += rand_normal(0, l->scale);
            }
        }
        l->output[i] = v;
    }
}

void
ref_neural_layer_noise_backward(const struct Layer *l, const struct Net *net,
                                const double *input, double *delta)
{
    if (delta != NULL) {
        for (int i = 0; i < l->n_inputs; ++i) {
            delta[i] += l->delta[i];
        }
    }
}

void
ref_neural_layer_upsample_forward(const struct Layer *l,
                                  const struct Net *net, const double *input)
{
    const int w = l->width, h = l->height, s = l->stride;
    for (int k = 0; k < l->channels; ++k) {
        for (int j = 0; j < h * s; ++j) {
            for (int i = 0; i < w * s; ++i) {
                l->output[(k * h * s + j) * w * s + i] =
                    input[(k * h + j / s) * w + i / s];
            }
        }
    }
}

void
ref_neural_layer_upsample_backward(const struct Layer *l,
                                   const struct Net *net, const double *input,
                                   double *delta)
{
    const int w = l->width, h = l->height, s = l->stride;
    if (delta == NULL) {
        return;
    }
    for (int k = 0; k < l->channels; ++k) {
        for (int j = 0; j < h * s; ++j) {
            for (int i = 0; i < w * s; ++i) {
                delta[(k * h + j / s) * w + i / s] +=
                    l->delta[(k * h * s + j) * w * s + i];
            }
        }
    }
}

/* ---------------------------------------------------- recurrent layers */

void
ref_neural_layer_recurrent_forward(const struct Layer *l,
                                   const struct Net *net, const double *input)
{
    for (int i = 0; i < l->n_outputs; ++i) {
        l->prev_state[i] = l->state[i];
    }
    layer_forward(l->input_layer, net, input);
    layer_forward(l->self_layer, net, l->output_layer->output);
    for (int i = 0; i < l->n_outputs; ++i) {
        l->state[i] = l->input_layer->output[i] + l->self_layer->output[i];
    }
    layer_forward(l->output_layer, net, l->state);
}

void
ref_neural_layer_recurrent_backward(const struct Layer *l,
                                    const struct Net *net, const double *input,
                                    double *delta)
{
    for (int i = 0; i < l->n_outputs; ++i) {
        l->input_layer->delta[i] = 0;
        l->self_layer->delta[i] = 0;
    }
    layer_backward(l->output_layer, net, l->state, l->self_layer->delta);
    for (int i = 0; i < l->n_outputs; ++i) {
        l->input_layer->delta[i] = l->self_layer->delta[i];
    }
    layer_backward(l->self_layer, net, l->prev_state, NULL);
    layer_backward(l->input_layer, net, input, delta);
}

void
ref_neural_layer_recurrent_update(const struct Layer *l)
{
    if ((l->options & LAYER_SGD_WEIGHTS) && l->eta > 0) {
        layer_update(l->input_layer);
        layer_update(l->self_layer);
        layer_update(l->output_layer);
    }
}

void
ref_neural_layer_lstm_forward(const struct Layer *l, const struct Net *net,
                              const double *input)
{
    layer_forward(l->uf, net, input);
    layer_forward(l->ui, net, input);
    layer_forward(l->ug, net, input);
    layer_forward(l->uo, net, input);
    layer_forward(l->wf, net, l->h);
    layer_forward(l->wi, net, l->h);
    layer_forward(l->wg, net, l->h);
    layer_forward(l->wo, net, l->h);
    const int n = l->n_outputs;
    for (int k = 0; k < n; ++k) {
        l->f[k] = l->wf->output[k] + l->uf->output[k];
        l->i[k] = l->wi->output[k] + l->ui->output[k];
        l->g[k] = l->wg->output[k] + l->ug->output[k];
        l->o[k] = l->wo->output[k] + l->uo->output[k];
    }
    neural_activate_array(l->f, l->f, n, l->recurrent_function);
    neural_activate_array(l->i, l->i, n, l->recurrent_function);
    neural_activate_array(l->g, l->g, n, l->function);
    neural_activate_array(l->o, l->o, n, l->recurrent_function);
    for (int k = 0; k < n; ++k) {
        l->temp[k] = l->i[k] * l->g[k];
        l->c[k] = l->f[k] * l->c[k] + l->temp[k];
        l->cell[k] = l->c[k];
        l->h[k] = l->c[k];
    }
    neural_activate_array(l->h, l->h, n, l->function);
    for (int k = 0; k < n; ++k) {
        l->h[k] = l->o[k] * l->h[k];
        l->output[k] = l->h[k];
    }
}

void
ref_neural_layer_lstm_update(const struct Layer *l)
{
    if ((l->options & LAYER_SGD_WEIGHTS) && l->eta > 0) {
        layer_update(l->uf);
        layer_update(l->ui);
        layer_update(l->ug);
        layer_update(l->uo);
        layer_update(l->wf);
        layer_update(l->wi);
        layer_update(l->wg);
        layer_update(l->wo);
    }
}

/* ------------------------------------------------------------ networks */

void
ref_neural_rand(const struct Net *net)
{
    for (const struct Llist *i = net->tail; i != NULL; i = i->prev) {
        layer_rand(i->layer);
    }
}

void
ref_neural_resize(const struct Net *net)
{
    const struct Layer *p = NULL;
    for (const struct Llist *i = net->tail; i != NULL; i = i->prev) {
        if (p != NULL) {
            if (i->layer->n_inputs != p->n_outputs) {
                layer_resize(i->layer, p);
            }
        }
        p = i->layer;
    }
}

void
ref_neural_propagate(struct Net *net, const double *input, const bool train)
{
    net->train = train;
    for (const struct Llist *i = net->tail; i != NULL; i = i->prev) {
        layer_forward(i->layer, net, input);
        input = layer_output(i->layer);
    }
}

void
ref_neural_learn(const struct Net *net, const double *truth,
                 const double *input)
{
    for (const struct Llist *i = net->tail; i != NULL; i = i->prev) {
        memset(i->layer->delta, 0, sizeof(double) * i->layer->n_outputs);
    }
    for (int i = 0; i < net->head->layer->n_outputs; ++i) {
        net->head->layer->delta[i] = truth[i] - net->head->layer->output[i];
    }
    for (const struct Llist *i = net->head; i != NULL; i = i->next) {
        if (i->next != NULL) {
            layer_backward(i->layer, net, i->next->layer->output,
                           i->next->layer->delta);
        } else {
            layer_backward(i->layer, net, input, NULL);
        }
    }
    for (const struct Llist *i = net->tail; i != NULL; i = i->prev) {
        layer_update(i->layer);
    }
}

double
ref_neural_output(const struct Net *net, const int k)
{
    if (k < 0 || k >= net->n_outputs) {
        exit(EXIT_FAILURE);
    }
    return layer_output(net->head->layer)[k];
}

double *
ref_neural_outputs(const struct Net *net)
{
    return layer_output(net->head->layer);
}

bool
ref_neural_mutate(const struct Net *net)
{
    bool any = false;
    bool grown = false;
    const struct Layer *p = NULL;
    for (const struct Llist *i = net->tail; i != NULL; i = i->prev) {
        const int n = i->layer->n_outputs;
        if (grown) {
            layer_resize(i->layer, p);
        }
        if (layer_mutate(i->layer)) {
            any = true;
        }
        grown = i->layer->n_outputs != n;
        p = i->layer;
    }
    return any;
}

/* position 0 is next to the inputs (the tail of the list) */
void
ref_neural_insert(struct Net *net, struct Layer *l, const int pos)
{
    struct Llist *above = net->tail;
    for (int i = 0; i < pos && above != NULL; ++i) {
        above = above->prev;
    }
    if (net->head == NULL || net->tail == NULL) {
        struct Llist *only = malloc(sizeof(struct Llist));
        only->layer = l;
        only->prev = NULL;
        only->next = NULL;
        net->head = only;
        net->tail = only;
        net->n_inputs = l->n_inputs;
        net->n_outputs = l->n_outputs;
        net->output = l->output;
    } else {
        struct Llist *n = malloc(sizeof(struct Llist));
        n->layer = l;
        n->prev = above;
        if (above == NULL) {
            n->next = net->head;
            n->next->prev = n;
            net->head = n;
            net->n_outputs = l->n_outputs;
            net->output = l->output;
        } else {
            n->next = above->next;
            above->next = n;
            if (n->next == NULL) {
                net->tail = n;
                net->n_inputs = l->n_inputs;
            } else {
                n->next->prev = n;
            }
        }
    }
    ++(net->n_layers);
}

int
ref_neural_size(const struct Net *net)
{
    int n = 0;
    for (const struct Llist *i = net->tail; i != NULL; i = i->prev) {
        const int t = i->layer->type;
        if (t == CONNECTED || t == RECURRENT || t == LSTM ||
            t == CONVOLUTIONAL) {
            n += i->layer->n_active;
        }
    }
    return n;
}

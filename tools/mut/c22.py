CHECK = 'C22'
X = 'xcsf/'
N, LA, CN, CV, RE, LS, AC, IM = (X + x for x in ('neural.c', 'neural_layer.c', 'neural_layer_connected.c', 'neural_layer_convolutional.c', 'neural_layer_recurrent.c', 'neural_layer_lstm.c', 'neural_activations.c', 'image.c'))
AV, MP, SM, DR, NO, UP = (X + 'neural_layer_%s.c' % x for x in ('avgpool', 'maxpool', 'softmax', 'dropout', 'noise', 'upsample'))
BROKEN = [
 [(CN, "blas_gemm(0, 1, 1, n, k, 1, a, k, b, k, 1, c, n);", "blas_gemm(0, 1, 1, n, k, 1, a, k, b, n, 1, c, n);")],
 [(CN, "    neural_gradient_array(l->state, l->delta, l->n_outputs, l->function);\n", "    neural_gradient_array(l->output, l->delta, l->n_outputs, l->function);\n")],
 [(CN, "blas_axpy(l->n_outputs, 1, l->delta, 1, l->bias_updates, 1);", "blas_axpy(l->n_outputs - 1, 1, l->delta, 1, l->bias_updates, 1);")],
 [(CN, "            blas_axpy(l->n_weights, -(l->decay),", "            blas_axpy(l->n_weights, l->decay,")],
 [(CN, "        blas_scal(l->n_weights, l->momentum, l->weight_updates, 1);\n        layer_weight_clamp(l);", "        blas_scal(l->n_weights, l->momentum, l->weight_updates, 1);")],
 [(CN, "            if (j < l->n_inputs) {", "            if (j <= l->n_inputs) {")],
 [(CN, "        const int orig_offset = i * l->n_inputs;", "        const int orig_offset = i * prev->n_outputs;")],
 [(CV, "    neural_gradient_array(l->state, l->delta, l->n_outputs, l->function);\n    if (l->options & LAYER_SGD_WEIGHTS) {\n", "    if (l->options & LAYER_SGD_WEIGHTS) {\n        neural_gradient_array(l->state, l->delta, l->n_outputs, l->function);\n")],
 [(CV, "            l->state[i * n + j] += l->biases[i];", "            l->state[i * n + j] += l->biases[0];")],
 [(CV, "blas_sum(l->delta + k * i, k);", "blas_sum(l->delta + m * i, k);")],
 [(RE, "    memcpy(l->prev_state, l->state, sizeof(double) * l->n_outputs);\n", "")],
 [(RE, "    blas_axpy(l->n_outputs, 1, l->self_layer->output, 1, l->state, 1);\n", "    blas_axpy(l->n_outputs, 1, l->output_layer->output, 1, l->state, 1);\n")],
 [(RE, "    layer_backward(l->self_layer, net, l->prev_state, 0);", "    layer_backward(l->self_layer, net, l->state, 0);")],
 [(RE, "        layer_update(l->self_layer);\n", "")],
 [(LS, "    layer_forward(l->wg, net, l->h);", "    layer_forward(l->wg, net, input);")],
 [(LS, "    blas_mul(l->n_outputs, l->f, 1, l->c, 1);\n    blas_axpy", "    blas_mul(l->n_outputs, l->i, 1, l->c, 1);\n    blas_axpy")],
 [(LS, "    neural_activate_array(l->g, l->g, l->n_outputs, l->function);", "    neural_activate_array(l->g, l->g, l->n_outputs, l->recurrent_function);")],
 [(LS, "    memcpy(l->cell, l->c, sizeof(double) * l->n_outputs);", "    memcpy(l->cell, l->h, sizeof(double) * l->n_outputs);")],
 [(LS, "        layer_update(l->wo);\n", "")],
 [(AV, "        l->output[k] /= n;", "        l->output[k] /= l->channels;")],
 [(SM, "exp((input[i] / l->scale) - (largest / l->scale))", "exp((input[i] - largest) * l->scale)")],
 [(DR, "            if (l->state[i] < l->probability) {\n                delta[i] = 0;", "            if (l->state[i] > l->probability) {\n                delta[i] = 0;")],
 [(NO, "input[i] + rand_normal(0, l->scale);", "input[i] + rand_normal(0, l->probability);")],
 [(MP, "    for (int k = 0; k < l->channels; ++k) {\n        for (int i = 0; i < l->out_h; ++i) {", "    for (int k = 0; k < l->channels; ++k) {\n        for (int i = 0; i < l->out_w; ++i) {")],
 [(MP, "            delta[l->indexes[i]] += l->delta[i];", "            delta[l->indexes[i]] = l->delta[i];")],
 [(UP, "delta[in_index] += l->delta[out_index];", "delta[in_index] = l->delta[out_index];")],
 [(IM, "    return im[col + width * (row + height * channel)];", "    return im[col + width * (row + width * channel)];")],
 [(IM, "        const int h_offset = (c / ksize) % ksize;\n        const int c_im = c / ksize / ksize;\n        for (int h = 0; h < height_col; ++h) {\n            for (int w = 0; w < width_col; ++w) {\n                const int im_row = h_offset + h * stride;\n                const int im_col = w_offset + w * stride;\n                const int col_index = (c * height_col + h) * width_col + w;\n                data_col", "        const int h_offset = (c / ksize) % ksize;\n        const int c_im = c / ksize / ksize;\n        for (int h = 0; h < height_col; ++h) {\n            for (int w = 0; w < width_col; ++w) {\n                const int im_row = h_offset + h * stride;\n                const int im_col = w_offset + w * stride;\n                const int col_index = (c * width_col + h) * height_col + w;\n                data_col")],
 [(N, "    for (int i = 0; i < p->n_outputs; ++i) {\n        p->delta[i] = truth[i] - p->output[i];", "    for (int i = 0; i < p->n_outputs; ++i) {\n        p->delta[i] = p->output[i] - truth[i];")],
 [(N, "            layer_backward(l, net, prev->output, prev->delta);", "            layer_backward(l, net, prev->output, 0);")],
 [(LA, "        if (l->n_outputs + n < 1) {\n            n = -(l->n_outputs - 1);", "        if (l->n_outputs + n < 0) {\n            n = -(l->n_outputs - 1);")],
 [(LA, "                l->weight_active[i] = false;\n                l->weights[i] = 0;\n                --(l->n_active);", "                l->weight_active[i] = false;\n                --(l->n_active);")],
 [(LA, "        } else {\n            l->weights[i] = 0;\n        }\n    }\n    for (int i = 0; i < l->n_biases; ++i) {\n        l->biases[i] = clamp(", "        }\n    }\n    for (int i = 0; i < l->n_biases; ++i) {\n        l->biases[i] = clamp(")],
 [(LA, "        l->biases[i] += rand_normal(0, mu);\n        l->biases[i] = clamp(l->biases[i], WEIGHT_MIN, WEIGHT_MAX);", "        l->biases[i] += rand_normal(0, mu);")],
 [(LA, "    if (l->type == LSTM && rand_uniform(0, 1) < mu) {", "    if (rand_uniform(0, 1) < mu) {")],
]
KEPT = [
 [(RE, "    memcpy(l->prev_state, l->state, sizeof(double) * l->n_outputs);\n    layer_forward", "    for (int i = 0; i < l->n_outputs; ++i) {\n        l->prev_state[i] = l->state[i];\n    }\n    layer_forward")],
 [(RE, "    memcpy(l->state, l->input_layer->output, sizeof(double) * l->n_outputs);\n    blas_axpy(l->n_outputs, 1, l->self_layer->output, 1, l->state, 1);", "    for (int i = 0; i < l->n_outputs; ++i) {\n        l->state[i] = l->self_layer->output[i] + l->input_layer->output[i];\n    }")],
 [(LS, "    memcpy(l->f, l->wf->output, sizeof(double) * l->n_outputs);\n    blas_axpy(l->n_outputs, 1, l->uf->output, 1, l->f, 1);", "    for (int k = 0; k < l->n_outputs; ++k) {\n        l->f[k] = l->wf->output[k] + l->uf->output[k];\n    }")],
 [(CN, "    memcpy(l->state, l->biases, sizeof(double) * l->n_outputs);\n    blas_gemm(0, 1, 1, n, k, 1, a, k, b, k, 1, c, n);", "    for (int i = 0; i < n; ++i) {\n        double t = l->biases[i];\n        for (int j = 0; j < k; ++j) {\n            t += a[j] * b[i * k + j];\n        }\n        c[i] = t;\n    }")],
 [(CV, "    if (l->size == 1) {\n        blas_gemm(0, 0, m, n, k, 1, a, k, input, n, 1, c, n);\n    } else {\n        im2col(input, l->channels, l->height, l->width, l->size, l->stride,\n               l->pad, b);\n        blas_gemm(0, 0, m, n, k, 1, a, k, b, n, 1, c, n);\n    }", "    const double *in = input;\n    if (l->size != 1) {\n        im2col(input, l->channels, l->height, l->width, l->size, l->stride,\n               l->pad, b);\n        in = b;\n    }\n    blas_gemm(0, 0, m, n, k, 1, a, k, in, n, 1, c, n);")],
 [(N, "        if (iter->next == NULL) {\n            layer_backward(l, net, input, 0);\n        } else {\n            const struct Layer *prev = iter->next->layer;\n            layer_backward(l, net, prev->output, prev->delta);\n        }", "        const struct Layer *prev = iter->next ? iter->next->layer : NULL;\n        layer_backward(l, net, prev ? prev->output : input,\n                       prev ? prev->delta : NULL);")],
 [(N, "    const struct Layer *p = net->head->layer;\n    for (int i = 0; i < p->n_outputs; ++i) {", "    const struct Layer *p = net->head->layer;\n    const int n_out = p->n_outputs;\n    for (int i = 0; i < n_out; ++i) {")],
 [(LA, "    l->eta += rand_normal(0, mu);\n    l->eta = clamp(l->eta, l->eta_min, l->eta_max);\n    if (l->eta != orig) {\n        return true;\n    }\n    return false;", "    l->eta = clamp(orig + rand_normal(0, mu), l->eta_min, l->eta_max);\n    return l->eta != orig;")],
 [(SM, "    for (int i = 0; i < l->n_inputs; ++i) {\n        l->output[i] /= sum;\n    }", "    const double inv = 1 / sum;\n    for (int i = l->n_inputs - 1; i >= 0; --i) {\n        l->output[i] *= inv;\n    }")],
 [(DR, "        for (int i = 0; i < l->n_inputs; ++i) {\n            l->state[i] = rand_uniform(0, 1);\n            if (l->state[i] < l->probability) {", "        for (int i = 0; i < l->n_inputs; ++i) {\n            const double r = rand_uniform(0, 1);\n            l->state[i] = r;\n            if (r < l->probability) {")],
 [(AV, "        l->output[k] = 0;\n        for (int i = 0; i < n; ++i) {\n            l->output[k] += input[i + n * k];\n        }\n        l->output[k] /= n;", "        double s = 0;\n        const double *p = input + n * k;\n        for (int i = 0; i < n; ++i) {\n            s += p[i];\n        }\n        l->output[k] = s / n;")],
 [(CN, "        blas_scal(l->n_biases, l->momentum, l->bias_updates, 1);\n", "        for (int i = 0; i < l->n_biases; ++i) {\n            l->bias_updates[i] *= l->momentum;\n        }\n")],
 [(LS, "    layer_forward(l->uf, net, input);\n    layer_forward(l->ui, net, input);", "    layer_forward(l->ui, net, input);\n    layer_forward(l->uf, net, input);"), (LS, "    layer_forward(l->wg, net, l->h);\n    layer_forward(l->wo, net, l->h);\n", "    layer_forward(l->wo, net, l->h);\n    layer_forward(l->wg, net, l->h);\n")],
 [(LS, "    neural_activate_array(l->f, l->f, l->n_outputs, l->recurrent_function);\n    neural_activate_array(l->i, l->i, l->n_outputs, l->recurrent_function);", "    neural_activate_array(l->i, l->i, l->n_outputs, l->recurrent_function);\n    neural_activate_array(l->f, l->f, l->n_outputs, l->recurrent_function);")],
 [(RE, "        layer_update(l->input_layer);\n        layer_update(l->self_layer);", "        layer_update(l->self_layer);\n        layer_update(l->input_layer);")],
]

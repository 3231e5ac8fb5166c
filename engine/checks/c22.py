"""C22: what neural networks compute and how they learn."""
from refcheck import *

RULE = ("the gated value graph of every activation, layer and network "
        "operation equals that of its reference definition")
FILES = ['net.c']
A = ['neural_activate', 'neural_gradient']
L = A + ['sam_adapt', 'layer_calc_n_active', 'layer_ensure_input_represention']
C = ['im2col', 'col2im', 'neural_activate_array', 'neural_gradient_array']
TARGETS = {n: {} for n in ('neural_activate', 'neural_gradient')}
TARGETS.update({n: dict(opaque=L) for n in (
    'neural_activate_array', 'neural_gradient_array',
    'layer_mutate_eta', 'layer_mutate_neurons', 'layer_mutate_connectivity',
    'layer_mutate_weights', 'layer_mutate_functions', 'layer_weight_rand',
    'layer_weight_clamp', 'layer_init_eta',
    'neural_layer_connected_forward', 'neural_layer_connected_backward',
    'neural_layer_connected_update', 'neural_layer_connected_resize',
    'im2col', 'col2im', 'neural_layer_convolutional_update',
    'neural_layer_avgpool_forward', 'neural_layer_avgpool_backward',
    'neural_layer_maxpool_forward', 'neural_layer_maxpool_backward',
    'neural_layer_softmax_forward', 'neural_layer_softmax_backward',
    'neural_layer_dropout_forward', 'neural_layer_dropout_backward',
    'neural_layer_noise_forward', 'neural_layer_noise_backward',
    'neural_layer_upsample_forward', 'neural_layer_upsample_backward',
    'neural_layer_recurrent_forward', 'neural_layer_recurrent_backward',
    'neural_layer_recurrent_update',
    'neural_layer_lstm_update',
    'neural_rand', 'neural_resize', 'neural_propagate', 'neural_learn',
    'neural_output', 'neural_outputs')})
TARGETS['layer_calc_n_active'] = {}
TARGETS['neural_layer_lstm_forward'] = dict(
    opaque=L + ['neural_activate_array'])
for n in ('neural_layer_convolutional_forward',
          'neural_layer_convolutional_backward'):
    TARGETS[n] = dict(opaque=A + C + ['blas_gemm'])

for n in ('neural_insert', 'neural_size'):
    TARGETS[n] = dict(opaque=[])


def run(R):
    check(R, FILES, TARGETS)

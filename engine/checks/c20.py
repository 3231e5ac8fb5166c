"""C20: predictions, self-adaptation of rates and linear algebra."""
from refcheck import *

RULE = ("the gated value graph of every prediction, self-adaptation and "
        "linear algebra operation equals that of its reference definition")
FILES = ['pred.c']
OP = ['sam_adapt', 'sam_init', 'neural_learn', 'neural_propagate',
      'neural_output', 'neural_mutate', 'pred_transform_input']
TARGETS = {n: dict(opaque=OP) for n in (
    'pred_constant_init', 'pred_constant_update', 'pred_constant_compute',
    'pred_nlms_init', 'pred_nlms_update', 'pred_nlms_compute',
    'pred_nlms_mutate', 'pred_rls_init', 'pred_rls_update',
    'pred_rls_compute', 'pred_neural_update', 'pred_neural_compute',
    'pred_neural_mutate')}
TARGETS.update({n: {} for n in (
    'pred_transform_input', 'sam_init', 'sam_adapt', 'blas_gemm',
    'blas_axpy', 'blas_scal', 'blas_fill', 'blas_dot', 'blas_mul',
    'blas_sum')})
# rows of the matrices do not overlap
TARGETS['blas_gemm'] = dict(hints={
    **{('arg', k): [0, 1, 2, 3] for k in (2, 3, 4)},
    **{('arg', k): [3, 4, 5] for k in (7, 9, 12)}})


def run(R):
    check(R, FILES, TARGETS)

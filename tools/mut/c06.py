CHECK = 'C06'
BROKEN = [
 # 0 wrong loss function selected
 [('xcsf/loss.c', "xcsf->loss_ptr = &loss_huber", "xcsf->loss_ptr = &loss_mse")],
 # 1 prefix match
 [('xcsf/condition.c', "strncmp(type, COND_STRING_GP, 8)", "strncmp(type, COND_STRING_GP, 7)")],
 # 2 prefix too long? (n > len+1 harmless) : shorter ternary
 [('xcsf/condition.c', "strncmp(type, COND_STRING_TERNARY, 8)", "strncmp(type, COND_STRING_TERNARY, 3)")],
 # 3 act vptr not set by rule
 [('xcsf/condition.c', "            c->cond_vptr = &rule_neural_cond_vtbl;\n            c->act_vptr = &rule_neural_act_vtbl;", "            c->cond_vptr = &rule_neural_cond_vtbl;\n            c->act_vptr = &rule_dgp_act_vtbl;")],
 # 4 gradient of a different function
 [('xcsf/neural_activations.c', "return soft_plus_gradient(x);", "return relu_gradient(x);")],
 # 5 activation
 [('xcsf/neural_activations.c', "return selu_activate(x);", "return leaky_activate(x);")],
 # 6 export wrong type name
 [('xcsf/neural_layer_avgpool.c', '"type", "avgpool"', '"type", "maxpool"')],
 # 7 rectangle export inverted
 [('xcsf/cond_rectangle.c', '"type", "hyperrectangle_csr"', '"type", "hyperrectangle_ubr"')],
 # 8 slots swapped in vtable
 # 9 cl_load order: condition_set after action_set reversed in cl_rand
 [('xcsf/cl.c', "    action_set(xcsf, c);\n    prediction_set(xcsf, c);\n    condition_set(xcsf, c);", "    condition_set(xcsf, c);\n    prediction_set(xcsf, c);\n    action_set(xcsf, c);")],
 # 10 copy keeps other vptr
 [('xcsf/cl.c', "    dest->act_vptr = src->act_vptr;\n    act_copy(xcsf, dest, src);\n    cond_copy", "    action_set(xcsf, dest);\n    act_copy(xcsf, dest, src);\n    cond_copy")],
 # 11 layer load of type
 [('xcsf/neural_layer.c', "l->layer_vptr = &layer_recurrent_vtbl;", "l->layer_vptr = &layer_lstm_vtbl;")],
 # 12 layer_type_as_int
 [('xcsf/neural_layer.c', "        return UPSAMPLE;", "        return AVGPOOL;")],
 # 13 unknown name accepted
 [('xcsf/prediction.c', "    return PRED_TYPE_INVALID;", "    return PRED_TYPE_CONSTANT;")],
 # 14 rls linear/quadratic name
 [('xcsf/pred_rls.c', 'xcsf->pred->type == PRED_TYPE_RLS_QUADRATIC', 'xcsf->pred->type == PRED_TYPE_NLMS_QUADRATIC')],
 # 15 act type string
 [('xcsf/action.c', "            return ACT_STRING_NEURAL;", "            return ACT_STRING_INTEGER;")],
 # 16 loss string mismatch
 [('xcsf/loss.h', '("binary_log\\0")', '("binary\\0")')],
 # 17 ea select type
 [('xcsf/ea.c', "        return EA_SELECT_TOURNAMENT;", "        return EA_SELECT_ROULETTE;")],
 # 18 layer init args select: copy of vptr wrong
 [('xcsf/neural_layer_noise.c', "    l->layer_vptr = src->layer_vptr;", "    l->layer_vptr = &layer_noise_vtbl;\n    l->layer_vptr = &layer_dropout_vtbl;"), ('xcsf/neural_layer_noise.c', '#include "neural_layer_noise.h"', '#include "neural_layer_noise.h"\n#include "neural_layer_dropout.h"')],
 # 19 pred_nlms uses linear for quadratic in init
 [('xcsf/pred_nlms.c', "xcsf->pred->type == PRED_TYPE_NLMS_QUADRATIC", "xcsf->pred->type == PRED_TYPE_RLS_QUADRATIC")],
 # 20 dgp function names
 [('xcsf/dgp.c', "strncmp(", "!strncmp(")],
 # 21 gp function export symbol wrong
 [('xcsf/dgp.c', "            return STRING_FUZZY_CFMQVS_AND;", "            return STRING_FUZZY_CFMQVS_OR;")],
 # 22 layer import of activation
 [('xcsf/neural_activations.c', "        return COS;", "        return SIN;")],
 # 23 json import set twice: LSTM recurrent function ignored
 # 24 case dropped: maxpool default error
 [('xcsf/neural_layer.c', "        case MAXPOOL:\n            l->layer_vptr = &layer_maxpool_vtbl;\n            break;\n", "")],
 # 25 condition dispatch via csr-type for ubr
 # 26 NULL slot
 [('xcsf/cond_gp.h', "&cond_gp_update", "NULL")],
 # 27 type stored but vptr from old type in cl_load
 [('xcsf/cl.c', "    prediction_set(xcsf, c);\n    condition_set(xcsf, c);\n    s +=", "    condition_set(xcsf, c);\n    s +=")],
]
KEPT = [
 [('xcsf/condition.c', "    if (strncmp(type, COND_STRING_GP, 8) == 0) {\n        return COND_TYPE_GP;\n    }\n    if (strncmp(type, COND_STRING_DGP, 4) == 0) {\n        return COND_TYPE_DGP;\n    }\n", "    if (strcmp(type, COND_STRING_DGP) == 0) {\n        return COND_TYPE_DGP;\n    }\n    if (strcmp(type, COND_STRING_GP) == 0) {\n        return COND_TYPE_GP;\n    }\n")],
 [('xcsf/prediction.c', "    switch (xcsf->pred->type) {\n        case PRED_TYPE_CONSTANT:\n            c->pred_vptr = &pred_constant_vtbl;\n            break;\n", "    if (xcsf->pred->type == PRED_TYPE_CONSTANT) {\n        c->pred_vptr = &pred_constant_vtbl;\n        return;\n    }\n    switch (xcsf->pred->type) {\n")],
 [('xcsf/neural_activations.c', "        case LEAKY:\n            return leaky_activate(x);\n        case SELU:\n            return selu_activate(x);\n", "        case SELU:\n            return selu_activate(x);\n        case LEAKY:\n            return leaky_activate(x);\n")],
 [('xcsf/loss.c', '''int
loss_type_as_int(const char *type)
{
''', '''int
loss_type_as_int(const char *type)
{
    static const struct {
        const char *name;
        int type;
    } table[] = { { LOSS_STRING_ONEHOT, LOSS_ONEHOT }, { LOSS_STRING_HUBER, LOSS_HUBER } };
    for (int i = 0; i < 2; ++i) {
        if (strcmp(type, table[i].name) == 0) {
            return table[i].type;
        }
    }
''')],
 [('xcsf/cl.c', "    dest->cond_vptr = src->cond_vptr;\n    dest->pred_vptr = src->pred_vptr;\n    dest->act_vptr = src->act_vptr;\n    act_copy", "    dest->act_vptr = src->act_vptr;\n    dest->pred_vptr = src->pred_vptr;\n    dest->cond_vptr = src->cond_vptr;\n    act_copy")],
 [('xcsf/cond_gp.c', 'cJSON_AddStringToObject(json, "type", "tree_gp")', 'cJSON_AddStringToObject(json, "type", COND_STRING_GP)')],
 [('xcsf/neural_layer.c', "    switch (l->type) {\n        case CONNECTED:\n            l->layer_vptr = &layer_connected_vtbl;\n            break;", "    const int type = l->type;\n    switch (type) {\n        case CONNECTED:\n            l->layer_vptr = &layer_connected_vtbl;\n            return;")],
]

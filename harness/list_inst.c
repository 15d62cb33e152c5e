#include <stdlib.h>
#include <assert.h>
#include "list_inst.h"
#include "rmc_list_template.h"
RMC_LIST_IMPL(tl_list, tl_node, int64_t)

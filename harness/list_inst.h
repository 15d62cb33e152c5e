#pragma once
#include <stdint.h>
#include "rmc_list.h"
RMC_LIST(tl_list, tl_node, int64_t)

// The library's headers, for C++.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <netinet/in.h>
extern "C" {
#include "reliable_multicast.h"
#include "circular_buffer.h"
#include "rmc_pub.h"
#include "rmc_sub.h"
}
// rmc_log.h needs usec_timestamp_t.
#include "rmc_log.h"

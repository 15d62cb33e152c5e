#include "ws_stub.h"

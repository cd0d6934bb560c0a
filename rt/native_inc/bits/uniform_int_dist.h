#include "../../../shim/bits/uniform_int_dist.h"

#include "common.h"
VRng v_rng;
VFs v_fs;
int v_tz_hours = 0;

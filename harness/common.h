// Shared by the harnesses.
#ifndef VERIF_HARNESS_COMMON_H_
#define VERIF_HARNESS_COMMON_H_
#include "vshim/absl.h"
#include "vshim/tf.h"
#include "vshim/grpc.h"
#include "verif.h"
#include "vsched.h"
using verif::choose;
using verif::flip;
#endif

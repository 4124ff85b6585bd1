#include "absl/shim_base.h"

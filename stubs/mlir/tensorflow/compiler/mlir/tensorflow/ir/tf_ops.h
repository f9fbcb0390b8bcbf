#include "verif_ops.h"

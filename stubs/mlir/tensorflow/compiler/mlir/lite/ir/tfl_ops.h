#include "verif_ops.h"
#include "tensorflow/lite/schema/schema_generated.h"

#pragma once
#include "tensorflow/core/platform/status.h"
#include "tensorflow/compiler/mlir/lite/flatbuffer_export.h"
namespace tensorflow { namespace internal { Status RegisterAllCustomOps(const toco::TocoFlags& toco_flags); } }

#pragma once
#include "tensorflow/compiler/mlir/tensorflow/translate/import_model.h"

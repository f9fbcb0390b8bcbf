#pragma once
#include "tensorflow/lite/c/common.h"

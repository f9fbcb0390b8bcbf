#pragma once
#include "absl/status/status.h"
namespace tsl { using absl::StatusOr; using absl::Status; }

#pragma once
#include "absl/status/status.h"
#include <string>
namespace tensorflow { using std::string; using Status = absl::Status; using absl::OkStatus; template <typename T> using StatusOr = absl::StatusOr<T>; }

#pragma once
#include "tensorflow/core/platform/status.h"
namespace tensorflow { namespace errors { template <typename... A> Status InvalidArgument(A... a); template <typename... A> Status Internal(A... a); template <typename... A> Status NotFound(A... a); template <typename... A> Status Unimplemented(A... a); } }

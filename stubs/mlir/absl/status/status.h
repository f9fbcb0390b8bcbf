#pragma once
#include <string>
#include <string_view>
namespace absl {
class Status { public: Status(); bool ok() const; std::string_view message() const; int code() const; std::string ToString() const; void IgnoreError() const; };
Status OkStatus(); Status InternalError(std::string_view); Status InvalidArgumentError(std::string_view); Status NotFoundError(std::string_view); Status FailedPreconditionError(std::string_view); Status UnimplementedError(std::string_view);
template <typename T> class StatusOr { public: StatusOr(const T&); StatusOr(T&&); StatusOr(const Status&); bool ok() const; const Status& status() const; T& value(); const T& value() const; T& operator*(); T* operator->(); };
}

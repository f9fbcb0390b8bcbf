#pragma once
#include <iostream>
#include <sstream>
namespace tflite { namespace logging {
class LoggingWrapper { public: enum class LogSeverity : int { VERBOSE = 0, INFO = 1, WARN = 2, ERROR = 3, FATAL = 4 };
  LoggingWrapper(LogSeverity severity); LoggingWrapper(LogSeverity severity, bool should_log); ~LoggingWrapper(); std::stringstream& Stream(); }; } }
#define TFLITE_LOG(severity) tflite::logging::LoggingWrapper(tflite::logging::LoggingWrapper::LogSeverity::severity).Stream()
#define TFLITE_MAY_LOG(severity, should_log) tflite::logging::LoggingWrapper(tflite::logging::LoggingWrapper::LogSeverity::severity, (should_log)).Stream()
#define TFLITE_TOOLS_CHECK(condition) TFLITE_MAY_LOG(FATAL, (condition) ? false : true)

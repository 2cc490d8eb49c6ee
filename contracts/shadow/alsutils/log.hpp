// Extraction header: log output is dropped.
#pragma once
#include <sstream>
#include <string>
namespace alsutils { namespace log {
enum severity_level { info, notification, warning, error, critical };
inline void setLogFile(const std::string&) {}
} }
#define INFO alsutils::log::severity_level::info
#define NOTIFICATION alsutils::log::severity_level::notification
#define WARNING alsutils::log::severity_level::warning
#define ERROR alsutils::log::severity_level::error
#define CRITICAL alsutils::log::severity_level::critical
#define ALSVINN_LOG(severity, message) { }

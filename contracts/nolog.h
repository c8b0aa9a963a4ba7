// Logging is outside the properties under contract.  The verifier keeps the real logging calls and applies the contract
// "logging changes nothing the caller can see" at the call (arguments are still evaluated); the native replay uses this sink
// so that replays are single-threaded and deterministic.
#pragma once
#ifdef VC_NATIVE
#define KIO_ASYNC_LOGGER_H
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <format>
#include <fstream>
#include <iostream>
#include <memory>
#include <mutex>
#include <source_location>
#include <string>
#include <thread>
#include <functional>
#include <memory_resource>
#include <unordered_map>
#include <kio/sync/mpsc_queue.h>
namespace kio { enum class LogLevel { Trace, Debug, Info, Warn, Error, Disabled };
namespace alog { template <typename... A> inline void sink(const A&...) {} } }
#define ALOG_TRACE(...) ::kio::alog::sink(__VA_ARGS__)
#define ALOG_DEBUG(...) ::kio::alog::sink(__VA_ARGS__)
#define ALOG_INFO(...) ::kio::alog::sink(__VA_ARGS__)
#define ALOG_WARN(...) ::kio::alog::sink(__VA_ARGS__)
#define ALOG_ERROR(...) ::kio::alog::sink(__VA_ARGS__)
#else
#include <kio/core/async_logger.h>
#endif

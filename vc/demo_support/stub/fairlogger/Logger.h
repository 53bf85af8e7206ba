// Stand-in for FairLogger (not installed in this sandbox): statements compile, log arguments are not evaluated.
#ifndef DEMO_STUB_FAIRLOGGER
#define DEMO_STUB_FAIRLOGGER
#include <string>
#include <string_view>
#include <functional>
#include <ostream>
#include <array>
#include <unordered_map>
#include <map>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <chrono>
#include <ctime>
#include <fstream>
#include <mutex>
#include <type_traits>
#include <utility>
#include <vector>
#define FAIRLOGGER_VERSION_MAJOR 1
namespace fair {
enum class Verbosity : int { verylow, low, medium, high, veryhigh, user1, user2, user3, user4 };
enum class Severity : int { nolog, trace, debug4, debug3, debug2, debug1, debug, detail, info, state, warn, important, alarm, error, critical, fatal };
struct Logger {
    template<typename T> Logger& operator<<(const T&) { return *this; }
    Logger& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
    static void SetConsoleSeverity(const std::string&) {}
    static void SetConsoleSeverity(Severity) {}
    static void SetConsoleColor(bool) {}
    static void SetVerbosity(const std::string&) {}
    static void InitFileSink(const std::string&, const std::string&) {}
    static bool SuppressSeverity(Severity) { return true; }
    static std::string_view SeverityName(Severity) { return ""; }
    static bool Logging(Severity) { return false; }
    static bool Logging(const std::string&) { return false; }
    static void OnFatal(std::function<void()>) {}
    static void CycleConsoleSeverityUp() {} static void CycleConsoleSeverityDown() {} static void CycleVerbosityUp() {} static void CycleVerbosityDown() {}
};
}
#define DEMO_NOLOG if (true) {} else fair::Logger()
#define LOG(severity) DEMO_NOLOG
#define LOGF(...) do {} while (0)
#define LOGP(...) do {} while (0)
#define LOGN(severity) DEMO_NOLOG
#define LOGV(severity, verbosity) DEMO_NOLOG
#define LOGD(...) DEMO_NOLOG
#define LOG_IF(severity, condition) DEMO_NOLOG
#define MQLOG(severity) DEMO_NOLOG
#endif

// Stand-in for libamqpprox/amqpprox_logging.h used by the verification builds.
//
// It keeps the interface the library uses (LOG_* streams, Logging class, the
// scoped thread attributes) but drops the boost.log machinery: that machinery
// is not under verification, dominates compile time and would add threads of
// its own to the explored executions.  Messages of severity INFO and above
// (the ones a production proxy formats) are still formatted, into a stream
// that discards them, so that a formatting expression that dereferences a bad
// pointer is still executed.
#ifndef BLOOMBERG_AMQPPROX_LOGGING
#define BLOOMBERG_AMQPPROX_LOGGING

#include <atomic>
#include <ostream>
#include <streambuf>
#include <string>

namespace vlog {
struct NullBuf : std::streambuf {
    int             overflow(int c) override { return c; }
    std::streamsize xsputn(const char *, std::streamsize n) override
    {
        return n;
    }
};
struct NullStream : private NullBuf, public std::ostream {
    NullStream()
    : std::ostream(static_cast<NullBuf *>(this))
    {
    }
};
std::ostream &stream();  // per-thread null stream, defined in vlog.cpp
}

#define LOG_SEV(sev)                                                          \
    if (int(sev) > 3) {                                                       \
    }                                                                         \
    else                                                                      \
        ::vlog::stream()
#define LOG_TRACE LOG_SEV(5)
#define LOG_DEBUG LOG_SEV(4)
#define LOG_INFO LOG_SEV(3)
#define LOG_WARN LOG_SEV(2)
#define LOG_ERROR LOG_SEV(1)
#define LOG_FATAL LOG_SEV(0)

#define BOOST_LOG_SCOPED_THREAD_ATTR(name, attr) ((void)(attr))

namespace boost {
namespace log {
namespace attributes {
template <typename T>
struct constant {
    explicit constant(const T &) {}
};
}
}
}

namespace Bloomberg {
namespace amqpprox {

class Logging {
  public:
    enum AMQPPROX_LOG_LEVELS {
        AMQPPROX_LOG_TRACE = 5,
        AMQPPROX_LOG_DEBUG = 4,
        AMQPPROX_LOG_INFO  = 3,
        AMQPPROX_LOG_WARN  = 2,
        AMQPPROX_LOG_ERROR = 1,
        AMQPPROX_LOG_FATAL = 0
    };
    static void start(const std::string &) {}
    static void stop() {}
    static void setConsoleVerbosity(int) {}
    static void setFileVerbosity(int) {}
};

}
}

#endif

#include <amqpprox_logging.h>
namespace vlog {
std::ostream &stream()
{
    static thread_local NullStream s;
    return s;
}
}

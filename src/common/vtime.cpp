#include <vtime.h>

#include <errno.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace vtime {
static bool    s_on  = false;
static int64_t s_now = 0;
// an arbitrary but fixed epoch, away from zero and on a whole second
static const int64_t EPOCH = 1700000000LL * 1000000000LL;
void    enable() { s_on = true; }
void    set(int64_t n) { s_now = n; }
void    advance(int64_t n) { s_now += n; }
int64_t now() { return s_now; }
}

extern "C" {
int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (!vtime::s_on || (id != CLOCK_MONOTONIC && id != CLOCK_REALTIME && id != CLOCK_MONOTONIC_COARSE && id != CLOCK_REALTIME_COARSE))
        return syscall(SYS_clock_gettime, id, ts);
    int64_t t   = vtime::EPOCH + vtime::s_now;
    ts->tv_sec  = t / 1000000000LL;
    ts->tv_nsec = t % 1000000000LL;
    return 0;
}
int gettimeofday(struct timeval *tv, void *)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec  = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *out)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out)
        *out = ts.tv_sec;
    return ts.tv_sec;
}
// Without a timer descriptor asio evaluates its timer queue on every poll,
// against the clock above.
int timerfd_create(int, int)
{
    errno = EINVAL;
    return -1;
}
}

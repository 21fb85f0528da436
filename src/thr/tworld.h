#ifndef VERIF_TWORLD
#define VERIF_TWORLD
#include "thr.h"
#include <../config/cworld.h>
namespace tw {
using namespace Bloomberg::amqpprox;
using std::string;
using cw::Strings;
using vx::Chooser;
using vx::Scenario;
string   handle(cw::World &w, const string &line);
Control *sharedControl();
string   decide(cw::World &w, const string &vhost);
string   sorted(const string &s);
void     addConfig(std::vector<Scenario> &out, bool th);
void     addServer(std::vector<Scenario> &out, bool th);
}
#endif

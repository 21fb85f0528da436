// The proxy's configuration, as main() wires it, driven by control command
// lines and compared with a reference model of the configuration.
#ifndef VERIF_CWORLD
#define VERIF_CWORLD
#include <explore.h>
#include <vtime.h>

#include <amqpprox_affinitypartitionpolicy.h>
#include <amqpprox_backend.h>
#include <amqpprox_backendselectorstore.h>
#include <amqpprox_backendstore.h>
#include <amqpprox_bufferpool.h>
#include <amqpprox_connectionlimitermanager.h>
#include <amqpprox_connectionmanager.h>
#include <amqpprox_connectionselector.h>
#include <amqpprox_control.h>
#include <amqpprox_datacenter.h>
#include <amqpprox_dataratelimitmanager.h>
#include <amqpprox_eventsource.h>
#include <amqpprox_farmstore.h>
#include <amqpprox_partitionpolicystore.h>
#include <amqpprox_resourcemapper.h>
#include <amqpprox_robinbackendselector.h>
#include <amqpprox_server.h>
#include <amqpprox_session.h>
#include <amqpprox_sessionstate.h>
#include <amqpprox_statcollector.h>
#include <amqpprox_vhostestablishedpauser.h>
#include <amqpprox_vhoststate.h>

namespace cw {
using namespace Bloomberg::amqpprox;
using std::string;
using Strings = std::vector<string>;

Strings split(const string &s);
string  upper(string s);

// ------------------------------------------------------------ reference
struct MBackend {
    string dc, host;
    long   port  = 0;
    bool   proxy = false, tls = false, dns = false;
};
struct MFarm {
    std::set<string> members;
    int              policies = 0;
};
struct Model {
    std::map<string, MBackend>                backends;
    std::map<string, MFarm>                   farms;
    std::map<string, std::pair<bool, string>> maps;
    string                                    def, dc;
    std::map<string, long>                    connLimit, connAlarm, dataLimit, dataAlarm;  // "" is the default
    std::map<string, bool>                    vhosts;  // paused or not, as named in VHOST commands
    string                                    auth = "always";
    std::set<string>                          touched;  // farms whose rotation this command may restart

    enum Verdict { ACCEPT, REJECT, UNKNOWN };
    Verdict apply(const string &line);
    string  dump() const;
    // the backends a session of this vhost may try; empty: refused
    bool   route(const string &vhost, std::vector<string> *out, string *farm) const;
    string backendLine(const string &name) const;
};

// ------------------------------------------------------------ real thing
struct World {
    vx::Chooser &c;
    BufferPool   bufferPool;
    Datacenter   datacenter;
    EventSource  eventSource;
    FarmStore    farmStore;
    BackendStore backendStore;
    ResourceMapper           resourceMapper;
    StatCollector            statCollector;
    VhostState               vhostState;
    PartitionPolicyStore     partitionPolicyStore;
    BackendSelectorStore     backendSelectorStore;
    ConnectionLimiterManager connectionLimiterManager;
    ConnectionSelector       connectionSelector;
    DataRateLimitManager     dataRateLimitManager;
    std::unique_ptr<Server>  owned;
    Server                  *server = nullptr;
    std::unique_ptr<Control> control;
    EventSubscriptionHandle  pauser;
    std::map<string, std::unique_ptr<ControlCommand>> direct;  // without a control channel
    Model                    model;
    bool                     uds;

    // uds: commands travel over the control socket; own: a server of its own
    explicit World(vx::Chooser &c, bool uds = false, bool own = false);
    ~World();
    void addCommands();

    // Send a line; returns the answer.  Violates C24 if there is none.
    string send(const string &line);
    // send, apply to the model, and check that a rejected line is reported
    Model::Verdict cmd(const string &line);

    struct Probe {
        SessionState::ConnectionStatus     status = SessionState::ConnectionStatus::SUCCESS;
        std::vector<const Backend *>       cand;
        std::shared_ptr<ConnectionManager> mgr;
        string                             str() const;
    };
    Probe connect(const string &vhost);
    string wire(const string &line, bool *closed);
};

string show(const Backend *b);
std::vector<vx::Scenario> scenarios(const string &prop, const string &tier);
void addC24(std::vector<vx::Scenario> &out, bool th);
}
#endif

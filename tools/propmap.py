"""Which harness decides which property, and what the result rests on."""
K = ["the simulated kernel (harness/sim.cpp) behaves like Linux for the calls used"]
S = K + ["components are driven in the deployment's shape: one reactor thread per component group"]
PROPS = {
    "C01": dict(harness=["h_threads", "h_reactor"], assumes=K + ["sequentially consistent memory", "one thread per reactor, as deployed"],
                tech="stateless model checking of the real code: real threads under a controlled scheduler, exhaustive enumeration of all schedules up to a preemption bound with a scheduling point at every memory access, lock and system call of the reactor layer; plus exhaustive enumeration of histories"),
    "C02": dict(harness=["h_reactor"], assumes=K),
    "C03": dict(harness=["h_reactor"], assumes=K),
    "C04": dict(harness=["h_reactor"], assumes=K),
    "C05": dict(harness=["h_reactor"], assumes=K),
    "C06": dict(harness=["h_mbclient"], assumes=S),
    "C07": dict(harness=["h_mbclient"], assumes=S + ["independent reference codec harness/mbus.hpp"]),
    "C08": dict(harness=["h_mbclient"], assumes=S),
    "C09": dict(harness=["h_mbserver"], assumes=S + ["independent reference decoder in harness/h_mbserver.cpp"]),
    "C10": dict(harness=["h_mbserver"], assumes=S + ["independent reference codec harness/mbus.hpp"]),
    "C11": dict(harness=["h_mbserver"], assumes=S),
    "C12": dict(harness=["h_mbcodec"], assumes=["independent reference codec harness/mbus.hpp", "the codec is used on complete frames, as its callers do"]),
    "C13": dict(harness=["h_uacodec"], assumes=["independent reference encoder harness/uaref.hpp and harness/uacodec.hpp, written from OPC 10000-6"]),
    "C14": dict(harness=["h_uacodec", "h_ua"], assumes=K + ["independent reference encoder harness/uaref.hpp and harness/uacodec.hpp"]),
    "C15": dict(harness=["h_ua"], assumes=S + ["reference model of the server in harness/ua.hpp"]),
    "C16": dict(harness=["h_ua"], assumes=S + ["reference model of the server in harness/ua.hpp"]),
    "C17": dict(harness=["h_ua"], assumes=S + ["reference model of the server in harness/ua.hpp"]),
    "C18": dict(harness=["h_ua"], assumes=S + ["reference model of the server in harness/ua.hpp"]),
    "C19": dict(harness=["h_ua"], assumes=S + ["reference model of the server in harness/ua.hpp"]),
    "C20": dict(harness=["h_uaconn"], assumes=K),
    "C21": dict(harness=["h_uaconn"], assumes=K),
    "C22": dict(harness=["h_life"], assumes=K + ["reactor threads interleave at the messages they post and the calls they wait in (they share nothing else)"]),
}
TECH = "stateless model checking of the real code: exhaustive depth-first enumeration of all decision sequences within the bound, on a simulated kernel"

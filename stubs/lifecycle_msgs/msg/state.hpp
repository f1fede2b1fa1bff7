#pragma once
#include <cstdint>
#include <string>
namespace lifecycle_msgs { namespace msg { struct State { using _id_type=uint8_t; uint8_t id=0; std::string label;
 static constexpr uint8_t PRIMARY_STATE_UNKNOWN=0, PRIMARY_STATE_UNCONFIGURED=1, PRIMARY_STATE_INACTIVE=2, PRIMARY_STATE_ACTIVE=3, PRIMARY_STATE_FINALIZED=4, TRANSITION_STATE_CONFIGURING=10, TRANSITION_STATE_CLEANINGUP=11, TRANSITION_STATE_SHUTTINGDOWN=12, TRANSITION_STATE_ACTIVATING=13, TRANSITION_STATE_DEACTIVATING=14, TRANSITION_STATE_ERRORPROCESSING=15; };
struct Transition { static constexpr uint8_t TRANSITION_CONFIGURE=1; }; } }

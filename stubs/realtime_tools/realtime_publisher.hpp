#pragma once
#include <memory>
#include <mutex>
namespace realtime_tools { template<class M> class RealtimePublisher { public: M msg_; using SharedPtr=std::shared_ptr<RealtimePublisher>; template<class P> explicit RealtimePublisher(P){} bool trylock(){return true;} void unlockAndPublish(){} bool try_publish(const M&){return true;} }; }

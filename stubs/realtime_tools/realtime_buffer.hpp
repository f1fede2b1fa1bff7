#pragma once
namespace realtime_tools { template<class T> class RealtimeBuffer { T v_; public: RealtimeBuffer()=default; explicit RealtimeBuffer(const T&v):v_(v){} T* readFromRT(){return &v_;} T* readFromNonRT(){return &v_;} void writeFromNonRT(const T&v){v_=v;} void initRT(const T&v){v_=v;} }; }

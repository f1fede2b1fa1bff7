// bounded exploration of the real limiters: usage limiter <prop> <seconds> <seed> [seeds-file]
#include "common.hpp"
#include <mutex>
#include "joint_limits/joint_saturation_limiter.hpp"
#include "joint_limits/joint_soft_limiter.hpp"
#include "joint_limits/joint_limits_helpers.hpp"
using namespace vh; using joint_limits::JointLimits; using joint_limits::SoftJointLimits; using D=joint_limits::JointControlInterfacesData; using O=std::optional<double>;
template<class B> struct L : B { D& prev(){return this->prev_command_;} void prep(const JointLimits& l,const std::vector<SoftJointLimits>& s){ this->init({"j"}, std::vector<JointLimits>{l}, s, nullptr, nullptr);} };
using Range=L<joint_limits::JointSaturationLimiter<D>>; using Soft=L<joint_limits::JointSoftLimiter>;
static const char* FN[5]={"position","velocity","effort","acceleration","jerk"};
static O D::* const F[5]={&D::position,&D::velocity,&D::effort,&D::acceleration,&D::jerk};
static std::string so(const O&v){return v?num(*v):std::string("-");}
static std::string sd(const D&d){std::string s; for(int i=0;i<5;i++) s+=std::string(FN[i])+"="+so(d.*F[i])+" "; return s;}
static std::string sl(const JointLimits&l){return "pos("+std::to_string(l.has_position_limits)+")["+num(l.min_position)+","+num(l.max_position)+"] vel("+std::to_string(l.has_velocity_limits)+")"+num(l.max_velocity)+" acc("+std::to_string(l.has_acceleration_limits)+")"+num(l.max_acceleration)+" dec("+std::to_string(l.has_deceleration_limits)+")"+num(l.max_deceleration)+" jerk("+std::to_string(l.has_jerk_limits)+")"+num(l.max_jerk)+" eff("+std::to_string(l.has_effort_limits)+")"+num(l.max_effort);}
struct Case { JointLimits l; std::vector<SoftJointLimits> s; D prev, act, des; int64_t ns=0; };
static std::string desc(const Case&c,const D&out,const char*kind){ std::string t=std::string(kind)+" limiter\nlimits: "+sl(c.l)+"\n"; for(auto&s:c.s) t+="soft: ["+num(s.min_position)+","+num(s.max_position)+"] kp="+num(s.k_position)+" kv="+num(s.k_velocity)+"\n"; return t+"dt_ns: "+std::to_string(c.ns)+"\nremembered command: "+sd(c.prev)+"\nmeasured: "+sd(c.act)+"\nrequested: "+sd(c.des)+"\nhanded on: "+sd(out); }
static bool isn(const O&v){return v&&!std::isnan(*v);}
static bool same(const O&a,const O&b){ if(a.has_value()!=b.has_value()) return false; if(!a) return true; return *a==*b||(std::isnan(*a)&&std::isnan(*b)); }
static double slack(double a,double b){ double m=std::max(std::fabs(a),std::fabs(b)); return std::isfinite(m)?1e-12*m+1e-300:0; }
static bool le(double a,double b){ return a<=b+slack(a,b); }
static std::string P; static bool prop(const char*p){return P==p;}
template<class T> static bool run(Case& c, bool soft, bool advance, T& lim){
  D pre=lim.prev(); c.prev=pre; D out=c.des; out.joint_name="j"; bool r=false, threw=false;
  try { r=lim.enforce(c.act,out,rclcpp::Duration::from_nanoseconds(c.ns)); } catch(const std::runtime_error&){ threw=true; }
  (void)advance; D post=lim.prev(); const JointLimits&l=c.l; const char*k=soft?"soft":"range"; const double dt=rclcpp::Duration::from_nanoseconds(c.ns).seconds();
  auto F_=[&](const std::string&w){ fail(P+": "+w, desc(c,out,k)+"\nreturned: "+(threw?"exception":r?"limited":"not limited")); };
  const bool base = soft?prop("J05"):(prop("J01")||prop("J02")||prop("J03")||prop("J04")); if(!base) return false;
  bool far = l.has_position_limits && isn(c.act.position) && (*c.act.position > l.max_position+0.0087 || *c.act.position < l.min_position-0.0087);
  if(threw){ if((prop("J04")||prop("J02"))&&!(far&&dt>0&&isn(c.des.position))) F_("refused although the measured position is not far outside"); return true; }
  if(dt<=0){ if(prop("J02")||prop("J05")){ for(int i=0;i<5;i++) if(!same(out.*F[i],c.des.*F[i])) F_("changed with a non-positive time step"); if(r) F_("reports limiting with a non-positive time step"); } return true; }
  if(prop("J04")&&far&&isn(c.des.position)) F_("position command accepted although the measured position is far outside");
  auto sym=[&](const O&v,double m,const char*w){ if(isn(v)&&!(std::fabs(*v)<=m)) F_(std::string(w)+" outside its limit"); };
  if(prop("J01")||prop("J05")){
    bool softok=true; if(soft&&!c.s.empty()){ auto&s=c.s[0]; if(std::isfinite(s.min_position)&&std::isfinite(s.max_position)&&!(l.min_position<=s.min_position&&s.max_position<=l.max_position)) softok=false; }
    if(l.has_position_limits&&softok&&isn(out.position)&&!(*out.position>=l.min_position&&*out.position<=l.max_position)) F_("position outside its limits");
    if(l.has_velocity_limits) sym(out.velocity,l.max_velocity,"velocity"); if(l.has_effort_limits) sym(out.effort,l.max_effort,"effort"); if(l.has_jerk_limits) sym(out.jerk,l.max_jerk,"jerk");
    if(isn(out.acceleration)){ double d=*c.des.acceleration; bool dec=l.has_deceleration_limits&&c.act.velocity&&((d<0&&*c.act.velocity>0)||(d>0&&*c.act.velocity<0)); if(dec) sym(out.acceleration,l.max_deceleration,"acceleration (decelerating)"); else if(l.has_acceleration_limits) sym(out.acceleration,l.max_acceleration,"acceleration"); }
  }
  if(prop("J02")||prop("J05")){
    bool ch=false; for(int i=0;i<5;i++){ const O&a=c.des.*F[i]; const O&b=out.*F[i]; if(a.has_value()!=b.has_value()) F_(std::string(FN[i])+" created or dropped"); if(a&&std::isnan(*a)!=std::isnan(*b)) F_(std::string(FN[i])+" changed to or from NaN"); if(!same(a,b)) ch=true; }
    if(ch!=r) F_("the reported flag does not tell whether something changed"); }
  auto seed=[&](int i)->O{ if(pre.has_data()) return pre.*F[i]; if(!(c.des.*F[i])) return std::nullopt; if(c.act.*F[i]) return c.act.*F[i]; if(isn(c.des.*F[i])) return c.des.*F[i]; return std::nullopt; };
  if(prop("J02")){
    if(!l.has_velocity_limits&&!same(out.velocity,c.des.velocity)) F_("velocity changed although its limit is disabled"); if(!l.has_effort_limits&&!same(out.effort,c.des.effort)) F_("effort changed although its limit is disabled");
    if(!l.has_acceleration_limits&&!l.has_deceleration_limits&&!same(out.acceleration,c.des.acceleration)) F_("acceleration changed although its limits are disabled");
    auto untouched=[&](int i,double lo,double up){ const O&a=c.des.*F[i]; if(!(*a<lo)&&!(*a>up)&&!same(a,out.*F[i])) F_(std::string(FN[i])+" altered although inside the computed limits"); };
    if(isn(c.des.position)){ auto q=joint_limits::compute_position_limits("j",l,c.act.velocity,c.act.position,seed(0),dt); untouched(0,q.lower_limit,q.upper_limit);} 
    if(isn(c.des.velocity)){ auto q=joint_limits::compute_velocity_limits("j",l,*c.des.velocity,c.act.position,seed(1),dt); untouched(1,q.lower_limit,q.upper_limit);} 
    if(isn(c.des.effort)){ auto q=joint_limits::compute_effort_limits(l,c.act.position,c.act.velocity,dt); untouched(2,q.lower_limit,q.upper_limit);} 
    if(isn(c.des.acceleration)){ auto q=joint_limits::compute_acceleration_limits(l,*c.des.acceleration,c.act.velocity); untouched(3,q.lower_limit,q.upper_limit);} 
    if(isn(c.des.jerk)) untouched(4,-l.max_jerk,l.max_jerk);
  }
  if(prop("J03")){
    auto finite=[](const O&v){return v&&std::isfinite(*v);};
    O s0=seed(0); O ref=finite(s0)?s0:c.act.position; double va=c.act.velocity&&!std::isnan(*c.act.velocity)?std::fabs(*c.act.velocity):0; bool vnan=c.act.velocity&&std::isnan(*c.act.velocity);
    if(isn(out.position)&&l.has_velocity_limits&&finite(ref)&&!(*ref<l.min_position)&&!(*ref>l.max_position)){ double mv=(l.has_acceleration_limits&&!vnan)?std::min(l.max_velocity,va+l.max_acceleration*dt):l.max_velocity; double del=mv*dt; if(!le(*ref-del,*out.position)||!le(*out.position,*ref+del)) F_("position moved further than one step"); }
    O s1=seed(1); if(isn(out.velocity)&&l.has_velocity_limits&&l.has_acceleration_limits&&finite(s1)&&std::fabs(*s1)<=l.max_velocity){ bool restr=l.has_position_limits&&isn(c.act.position); if(restr){ double p=*c.act.position; restr=!(p>=l.min_position&&p<=l.max_position&&(l.max_position-p)/dt>=l.max_velocity*(1+1e-12)&&(l.min_position-p)/dt<=-l.max_velocity*(1+1e-12)); }
      double d=l.max_acceleration*dt; if(!restr&&(!le(*s1-d,*out.velocity)||!le(*out.velocity,*s1+d))) F_("velocity changed by more than the maximum acceleration allows"); }
    for(int i=0;i<5;i++){ const O&o=out.*F[i]; const O&q=post.*F[i]; const O&p=pre.*F[i]; if(isn(o)){ if(!(q&&*q==*o)) F_(std::string(FN[i])+" not remembered"); } else if(isn(p)&&!same(p,q)) F_(std::string(FN[i])+" memory changed without a command"); }
  }
  if(prop("J04")){
    const O&p=c.act.position; const O&v=c.act.velocity;
    if(isn(out.effort)&&l.has_effort_limits){ bool low=l.has_position_limits&&isn(p)&&isn(v)&&*p<=l.min_position&&*v<=0; bool high=!low&&l.has_position_limits&&isn(p)&&isn(v)&&*p>=l.max_position&&*v>=0; bool fn=l.has_velocity_limits&&isn(v)&&*v<-l.max_velocity, fp=l.has_velocity_limits&&isn(v)&&*v>l.max_velocity; if((low||fn)&&*out.effort<0) F_("effort pushes further outward (lower side)"); if((high||fp)&&*out.effort>0) F_("effort pushes further outward (upper side)"); }
    if(isn(out.velocity)&&l.has_velocity_limits&&l.has_position_limits&&isn(p)){ double d=*c.des.velocity,o=*out.velocity; O s1=seed(1); bool acc=l.has_acceleration_limits&&s1&&std::isfinite(*s1); double st=l.max_acceleration*dt;
      bool near=*p<l.max_position+0.002&&*p>l.min_position-0.002, far2=*p>l.max_position+0.002||*p<l.min_position-0.002; bool stop=(*p>l.max_position&&near&&d>=0)||(*p<l.min_position&&near&&d<=0)||far2;
      if(stop){ bool ok=o==0; if(acc){ if(o>0) ok=le(o,*s1-st); if(o<0) ok=le(*s1+st,o);} if(!ok) F_("velocity handed on although the joint must stop"); }
      if(!acc&&*p>=l.min_position&&*p<=l.max_position&&(!le(o,(l.max_position-*p)/dt)||!le((l.min_position-*p)/dt,o))) F_("velocity leads outside the position limits within one step"); }
  }
  return true;
}
static double pick(Rng&r,const std::vector<double>&base){ int k=r.i(0,19); if(k==0) return NaN(); if(k==1) return r.b()?INF:-INF; if(k==2) return 0; if(k<12){ double b=base[r.i(0,int(base.size())-1)]; static const double off[]={0,0,0,1e-9,-1e-9,0.001,-0.001,0.002,-0.002,0.003,-0.003,0.0087,-0.0087,0.009,-0.009,1,-1}; return b+off[r.i(0,16)]; } if(k<17) return r.r(-3,3); return r.r(-1,1)*std::pow(10,r.i(-6,6)); }
static O opt(Rng&r,double p,double v){ return r.b(p)?O(v):std::nullopt; }
static Case gen(Rng&r){ Case c; auto&l=c.l; auto pos=[&]{ int k=r.i(0,5); return k==0?0.0:k==1?r.r(0,1e-3):k==2?r.r(0,100):r.r(0,2); };
  if(r.b(0.8)){ l.has_position_limits=true; double a=r.b(.3)?-1:r.r(-3,3), w=r.b(.1)?0:pos(); l.min_position=a; l.max_position=a+w; } else if(r.b(.3)){ l.min_position=-std::numeric_limits<double>::max(); l.max_position=-l.min_position; }
  auto lim=[&](bool&h,double&m){ h=r.b(.7); if(h) m=pos(); else if(r.b(.3)) m=std::numeric_limits<double>::max(); };
  lim(l.has_velocity_limits,l.max_velocity); lim(l.has_acceleration_limits,l.max_acceleration); lim(l.has_deceleration_limits,l.max_deceleration); lim(l.has_jerk_limits,l.max_jerk); lim(l.has_effort_limits,l.max_effort);
  if(r.b(.8)){ SoftJointLimits s; if(r.b(.8)){ double lo=l.has_position_limits?l.min_position:-1, hi=l.has_position_limits?l.max_position:1; double w=hi-lo; s.min_position=lo+w*r.r(r.b(.2)?-.5:0,.5); s.max_position=hi-w*r.r(r.b(.2)?-.5:0,.5); } if(r.b(.8)) s.k_position=r.b(.1)?0:r.r(r.b(.1)?-5:0,20); if(r.b(.8)) s.k_velocity=r.b(.2)?0:r.r(r.b(.1)?-5:0,20); c.s.push_back(s);} 
  return c; }
static void input(Rng&r,Case&c){ auto&l=c.l; std::vector<double> pb{0}, vb{0}; if(l.has_position_limits) pb={l.min_position,l.max_position,(l.min_position+l.max_position)/2}; if(!c.s.empty()&&std::isfinite(c.s[0].min_position)){pb.push_back(c.s[0].min_position);pb.push_back(c.s[0].max_position);} if(l.has_velocity_limits) vb={l.max_velocity,-l.max_velocity,0}; std::vector<double> eb{0},ab{0}; if(l.has_effort_limits) eb={l.max_effort,-l.max_effort}; if(l.has_acceleration_limits) ab={l.max_acceleration,-l.max_acceleration};
  auto in=[&](double v){ return l.has_position_limits&&r.b(.7)? r.r(l.min_position,l.max_position):v; };
  D a,d; a.joint_name=d.joint_name="j"; a.position=opt(r,.7,in(pick(r,pb))); a.velocity=opt(r,.6,pick(r,vb)); a.effort=opt(r,.3,pick(r,eb)); a.acceleration=opt(r,.3,pick(r,ab)); a.jerk=opt(r,.1,pick(r,ab));
  d.position=opt(r,.6,pick(r,pb)); d.velocity=opt(r,.6,pick(r,vb)); d.effort=opt(r,.5,pick(r,eb)); d.acceleration=opt(r,.5,pick(r,ab)); d.jerk=opt(r,.4,pick(r,ab)); c.act=a; c.des=d; static const int64_t T[]={1000000,10000000,100000000,1000000000,1,0,-1000000,2000000000LL,1234567}; c.ns=T[r.i(0,8)]; if(r.b(.6)) c.ns=T[r.i(0,3)]; }
template<class T> static long sequence(Rng&r,bool soft){ Case c=gen(r); T lim; lim.prep(c.l,c.s); long n=0; int k=r.i(1,5); for(int i=0;i<k;i++){ input(r,c); if(i==0&&r.b(.4)){ Case z=c; input(r,z); lim.prev()=z.des; } run(c,soft,true,lim); n++; } return n; }
static double g(const Seed&s,std::initializer_list<const char*> ks,double d){ for(auto k:ks){ auto i=s.find(k); if(i!=s.end()) return i->second; } return d; }
template<class T> static void replay(const Seed&s,bool soft){ Case c; auto&l=c.l; auto B=[&](const char*a,bool d){ std::string k1=std::string("limits.")+a; return g(s,{k1.c_str()},d)!=0; }; auto V=[&](const char*a){ std::string k1=std::string("limits.")+a; return g(s,{k1.c_str()},NaN()); };
  l.has_position_limits=B("has_position_limits",false); l.has_velocity_limits=B("has_velocity_limits",false); l.has_acceleration_limits=B("has_acceleration_limits",false); l.has_deceleration_limits=B("has_deceleration_limits",false); l.has_jerk_limits=B("has_jerk_limits",false); l.has_effort_limits=B("has_effort_limits",false);
  l.min_position=V("min_position"); l.max_position=V("max_position"); l.max_velocity=V("max_velocity"); l.max_acceleration=V("max_acceleration"); l.max_deceleration=V("max_deceleration"); l.max_jerk=V("max_jerk"); l.max_effort=V("max_effort");
  auto fix=[](bool h,double&m){ if(h&&!(m>=0&&std::isfinite(m))) m=1; }; fix(l.has_velocity_limits,l.max_velocity); fix(l.has_acceleration_limits,l.max_acceleration); fix(l.has_deceleration_limits,l.max_deceleration); fix(l.has_jerk_limits,l.max_jerk); fix(l.has_effort_limits,l.max_effort); if(l.has_position_limits&&!(l.min_position<=l.max_position)){l.min_position=-1;l.max_position=1;}
  SoftJointLimits so; so.min_position=g(s,{"soft.min_position"},NaN()); so.max_position=g(s,{"soft.max_position"},NaN()); so.k_position=g(s,{"soft.k_position"},NaN()); so.k_velocity=g(s,{"soft.k_velocity"},NaN()); if(g(s,{"nsoft"},1)>0) c.s.push_back(so);
  auto load=[&](const std::string&n,D&d){ for(int i=0;i<5;i++){ std::string h=n+"."+FN[i]+".has", v=n+"."+FN[i]+".val"; if(g(s,{h.c_str()},0)!=0) d.*F[i]=g(s,{v.c_str()},0); } }; D prev; prev.joint_name="j"; load("self.prev_command_",prev); load("actual",c.act); load("desired",c.des);
  auto ho=[&](const char*n,O&o){ std::string h=std::string(n)+".has",v=std::string(n)+".val"; if(g(s,{h.c_str()},0)!=0) o=g(s,{v.c_str()},0); };
  ho("act_pos",c.act.position); ho("act_vel",c.act.velocity); ho("actual_velocity",c.act.velocity); ho("prev_command_pos",prev.position); ho("prev_command_vel",prev.velocity); if(s.count("desired_vel")) c.des.velocity=s.at("desired_vel"); if(s.count("desired_acceleration")) c.des.acceleration=s.at("desired_acceleration"); if(s.count("act_pos.has")&&!c.des.has_data()){ c.des.position=INF; c.des.velocity=INF; c.des.effort=INF; }
  for(double sg: {1.0,-1.0}) for(int64_t ns: {int64_t(g(s,{"dt.ns_"},0)), int64_t(1000000), int64_t(10000000), int64_t(1000000000)}) { Case k=c; k.ns=ns; if(sg<0){ if(k.des.position&&std::isinf(*k.des.position)) k.des.position=-*k.des.position; if(k.des.effort&&std::isinf(*k.des.effort)) k.des.effort=-*k.des.effort; } { T lim; lim.prep(k.l,k.s); lim.prev()=prev; run(k,soft,false,lim);} if(!k.des.position){ Case q=k; for(double p: {INF,-INF}){ q.des.position=p; T lim; lim.prep(q.l,q.s); lim.prev()=prev; run(q,soft,false,lim);} } } }
int main(int argc,char**argv){ P=argv[1]; double secs=std::atof(argv[2]); uint64_t seed=std::strtoull(argv[3],nullptr,10); bool soft=P=="J05"; long n=0;
  if(argc>4) for(auto&s:read_seeds(argv[4])){ if(soft) replay<Soft>(s,true); else replay<Range>(s,false); n++; }
  Clock t; Rng r(seed*7919+17); while(t.s()<secs) for(int i=0;i<200;i++) n+= soft?sequence<Soft>(r,true):sequence<Range>(r,false);
  std::printf("OK %ld\n",n); }

"""what decides each property"""
import jl
from harness import Harness
PROPS = {}
JA = ["one joint per limiter; JointLimits well formed: an enabled limit is a finite number (positions ordered, magnitudes non-negative), a disabled one is NaN or ordered",
      "IEEE rounding arithmetic (+ - * /) enters only through axioms that hold for every rounding result (engine.farith)",
      "logging macros and fmt have no effect on the values computed",
      "rclcpp::Duration::seconds() is finite and has the sign of the nanosecond count"]
LIM = Harness("limiter.cpp", ["joint_limits/src/joint_limits_helpers.cpp", "joint_limits/src/joint_range_limiter.cpp", "joint_limits/src/joint_soft_limiter.cpp"], ["-lfmt"])
PROPS["J01"] = dict(targets=jl.HT + [jl.RANGE], harness=LIM, assumes=JA)
PROPS["J02"] = dict(targets=jl.HT + [jl.RANGE], harness=LIM, assumes=JA)
PROPS["J03"] = dict(targets=jl.HT[:2] + [jl.UPD, jl.RANGE], harness=LIM, assumes=JA)
PROPS["J04"] = dict(targets=jl.HT[:3] + [jl.RANGE], harness=LIM, assumes=JA)
PROPS["J05"] = dict(targets=jl.HT + [jl.SOFT], harness=LIM, assumes=JA)
import urdf
URDFH = Harness("urdf_limits.cpp")
PROPS["J07"] = dict(targets=[urdf.HARD, urdf.SOFT], harness=URDFH, assumes=["doubles are only copied or passed through std::abs", "std::shared_ptr is a pointer (ownership is not modelled)"])
PARSERH = Harness("component_parser.cpp", ["hardware_interface/src/component_parser.cpp", "hardware_interface/src/lexical_casts.cpp"], ["-lfmt", "-ltinyxml2", "-lurdfdom_model", "-lurdfdom_world", "-lurdfdom_sensor"], ["-I/usr/include/urdfdom"])
PROPS["J08"] = dict(targets=[urdf.IFLIM], harness=PARSERH, assumes=["hardware_interface::stod either throws std::invalid_argument or returns a finite value depending on the text only (decided by L01)", "at most one command interface of each name per joint", "enabled URDF limits are finite and ordered"])
import trans
TRANSH = Harness("transmissions.cpp", libs=["-lfmt"])
TA = ["conversion arithmetic treated as exact real arithmetic (rounding is not covered)", "every configured handle refers to its own value"]
PROPS["T01"] = dict(targets=[trans.CONV[k] for k in trans.CONV], harness=TRANSH, assumes=TA)
PROPS["T02"] = dict(targets=[trans.CONV[k] for k in trans.CONV], harness=TRANSH, assumes=TA)
PROPS["T03"] = dict(targets=[trans.HELPERS, trans.SHELPERS] + [trans.CONF[k] for k in trans.CONF] + [trans.CONV[k] for k in trans.CONV], harness=TRANSH, assumes=TA)
import lexi
LEXH = Harness("lexical.cpp", ["hardware_interface/src/lexical_casts.cpp"])
PROPS["L01"] = dict(targets=[lexi.INTS, lexi.REALS], harness=LEXH, assumes=["std::stol, std::stoul and std::from_chars meet their library contracts (longest numeric prefix, value or range error); the \"C\" locale is in effect", "the std::istringstream branch (before C++20) is not compiled here"])
PROPS["L02"] = dict(targets=[lexi.BOOLS, lexi.ARRAYS], harness=LEXH, assumes=["std::regex implements ECMAScript matching; its recursion limits are ignored", "text is a sequence of bytes, the \"C\" locale is in effect"])
import lists
LISTH = Harness("lists.cpp", ["hardware_interface/src/lexical_casts.cpp"], ["-lfmt"])
PROPS["C01"] = dict(targets=[lists.LISTS], harness=LISTH, assumes=["std::find, std::sort, std::adjacent_find, std::any_of, std::all_of and the containers meet their library contracts; element order is a strict total order consistent with =="])
PROPS["C02"] = dict(targets=[lists.ORDERED], harness=LISTH, assumes=["the output list is empty and a name means at most one of the given interfaces (full names are unique)", "the accessors of a loaned interface return its constant names", "std::find meets its library contract"])
PROPS["C03"] = dict(targets=[lists.TEXT], harness=LISTH, assumes=["text shorter than 2^62 bytes", "std::string members meet their library contracts"])
import handle
HANDLEH = Harness("handle.cpp", ["hardware_interface/src/lexical_casts.cpp"], ["-lfmt", "-lpthread"], ["-Wno-deprecated"])
HA = ["std::shared_mutex and its locks meet their library contracts: a lock call takes the named mutex or reports failure; writes under it are ordered by the library",
      "copying and moving strings, variants and std::function meets the library contract (a moved-from std::function is empty, as in libstdc++)"]
PROPS["H01"] = dict(targets=[handle.ACCESS, handle.MAKE], harness=HANDLEH, assumes=HA + ["the conversion functions of initial values either throw std::invalid_argument (or std::out_of_range, integers) or return a value, depending on the text only (decided by L01, L02)"])
PROPS["H02"] = dict(targets=[handle.COPIES], harness=HANDLEH, assumes=HA + ["no other thread uses a handle while it is moved or destroyed"])
PROPS["H03"] = dict(targets=[handle.LOANS], harness=HANDLEH, assumes=HA + ["each attempt behaves as H01 requires of set_limited_value and get_optional", "the 32-bit statistics counters are mathematical integers"])
import component
COMPH = Harness("component.cpp", ["hardware_interface/src/hardware_component.cpp", "hardware_interface/src/hardware_component_interface.cpp", "hardware_interface/src/lexical_casts.cpp", "hardware_interface/src/component_parser.cpp"], PARSERH.libs + ["-lpthread"], PARSERH.flags)
CA = ["a driver callback returns one of its three results, does not throw and does not set the life cycle state itself",
      "requests on one component are made one at a time (each holds the component's mutex, which is checked)"]
PROPS["H04"] = dict(targets=[component.LIFE], harness=COMPH, assumes=CA + ["HardwareComponentInterface::init beyond the asynchronous cycle and the exported interfaces is not under contract here"])
PROPS["H05"] = dict(targets=[component.CYCLES], harness=COMPH, assumes=CA + ["realtime_tools::AsyncFunctionHandler meets its contract: a cycle runs only after trigger_async_callback accepted it and not while execution is paused", "all times come from one clock"])
import chain
CHAINH = Harness("chain.cpp", ["controller_interface/src/controller_interface_base.cpp", "controller_interface/src/chainable_controller_interface.cpp", "hardware_interface/src/lexical_casts.cpp"], ["-lfmt", "-lpthread"], ["-Wno-deprecated", "-Wno-deprecated-declarations"])
PROPS["C04"] = dict(targets=[chain.GATE, chain.EXPORTS, chain.TRACK], harness=CHAINH, assumes=["a controller's own callbacks return, do not throw and touch neither the mode nor the exported interfaces (on_export_* may set the values it exports)",
    "rclcpp_lifecycle::LifecycleNode meets its contract: a callback runs while the node is in the transition state it belongs to, and the node leaves that state only after the callback returned",
    "a new interface made from another carries on its names (decided by H02); ros2_control::add_item (decided by C01)", "a map that holds exactly n distinct names has size n", "each list has fewer than 2^40 interfaces"])
import rm
RMH = Harness("manager.cpp", ["hardware_interface/src/resource_manager.cpp"] + COMPH.repo_srcs + LIM.repo_srcs, PARSERH.libs + ["-lpthread"], PARSERH.flags)
MA = ["std::recursive_mutex and its locks meet their library contracts; std::vector, std::unordered_map, std::find and std::bind meet theirs",
      "the storage meets its invariant to begin with: the components' interfaces are known, each is listed by one component, once, and known command interfaces have a claim entry (established when components are imported; a controller's interfaces are removed only when unavailable and unclaimed)"]
PROPS["H06"] = dict(targets=[rm.CLAIMS], harness=RMH, assumes=MA + ["a loan runs its release exactly once (decided by H03)", "ros2_control::has_item (decided by C01)"])
PROPS["H09"] = dict(targets=[rm.AVAIL, rm.REQUESTS, rm.CHAINED], harness=RMH, assumes=MA + ["a component's requests behave as H04 decides; a driver that throws leaves the component in the state it was in", "ros2_control::add_items (decided by C01)", "available lists are changed by one thread at a time", "every component known by name is in the storage"])
PROPS["H07"] = dict(targets=[rm.COMMON, rm.SWITCH], harness=RMH, assumes=MA + ["components keep their name; asking for a mode switch does not change a component's life cycle state (HardwareComponent forwards to the driver; H04)", "every component in the storage has an entry in hardware_info_map_"])
CYA = MA + ["a driver's behaviour in the cycle is arbitrary (any result, any exception, the mutex held by someone else or not) but leaves the manager alone",
    "HardwareComponent::read, write and error behave as H04 and H05 decide; set_component_state and the withdrawal of interfaces as H09 decides", "every component in the storage has an entry in hardware_info_map_ and keeps its name; last cycle times come from the manager's clock"]
PROPS["H08"] = dict(targets=[rm.CYCLE], harness=RMH, assumes=CYA)
PROPS["H10"] = dict(targets=[rm.CYCLE], harness=RMH, assumes=CYA + ["times and rates treated as exact real numbers (rounding is not covered); the manager runs at 1 Hz to 100 MHz"])
import cm
CMH = Harness("cm.cpp", ["controller_manager/src/controller_manager.cpp"] + ["controller_interface/src/" + x + ".cpp" for x in ("controller_interface_base", "controller_interface", "chainable_controller_interface")] + RMH.repo_srcs, RMH.libs, RMH.flags)
PROPS["C05"] = dict(targets=[cm.UPDATE, cm.STOP, cm.GROUPS, chain.STEP], harness=CMH, assumes=[
    "the controllers in the list are there, distinct and have distinct names; their state, rate and asynchronous kind do not change during a cycle except through the calls specified",
    "a switch request is not changed by other threads while a cycle is under way (switch_params_ is handed over through its do_switch flag)",
    "a controller's own update returns any result or throws; AsyncFunctionHandler meets its contract (H05)",
    "times and rates treated as exact real numbers; controller and manager clocks are of one kind; the manager's rate is positive",
    "termination of the recursive search over chains is not shown; that the chain map holds the right groups after configure_controller is covered by the bounded harness only",
    "activation, hardware mode changes and the publication of activity do not change what the cycle computes"])

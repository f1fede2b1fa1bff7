#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

JL = "joint_limits/src/joint_limits_helpers.cpp"
JR = "joint_limits/src/joint_range_limiter.cpp"
JSOFT = "joint_limits/src/joint_soft_limiter.cpp"
JSAT = "joint_limits/src/joint_saturation_limiter.cpp"
JURDF = "joint_limits/include/joint_limits/joint_limits_urdf.hpp"

prop("J01", "Range limiter output always respects the configured hard limits",
 "After the saturation range limiter has processed a command with a positive time step, every non-NaN command value it hands on is inside the joint's enabled limits: position within [min, max], |velocity| <= max velocity, |effort| <= max effort, |acceleration| <= the applicable acceleration or deceleration limit, |jerk| <= max jerk. This holds for every measured state, every previous command and every requested command, including infinite ones.",
 ["inputs", "histories"], "all well-formed joint limits, all measured states (present or absent), all previous commands, all requested commands, all positive time steps",
 "The unit tests sample a handful of commands and states per limit; the guarantee is over all doubles and all limiter memories, including measured states outside the limits.",
 [JR, JL, "joint_limits/include/joint_limits/joint_limits_helpers.hpp", "joint_limits/include/joint_limits/data_structures.hpp"],
 [("JointSaturationLimiter<JointControlInterfacesData>::on_enforce", JR), ("compute_position_limits / compute_velocity_limits / compute_effort_limits / compute_acceleration_limits", JL)],
 [("prev_command_", "the last command handed on", "joint_limits/include/joint_limits/joint_saturation_limiter.hpp")])

prop("J02", "Range limiter is transparent where it must be and reports truthfully",
 "With a zero or negative time step the range limiter changes nothing and reports that nothing was limited. A command field that is absent or NaN is never created, changed or dropped, a velocity, effort or acceleration field whose limit is disabled passes through unchanged, and a field already inside the computed limits is not altered. The reported flag is true exactly when at least one command field was changed.",
 ["inputs", "histories"], "all combinations of present/absent/NaN command fields, enabled/disabled limits, limiter memories and time steps",
 "There are 2^5 presence patterns times 2^6 enabled flags times all values; tests exercise a few of them.",
 [JR, JL], [("on_enforce", JR), ("is_limited", JL)])

prop("J03", "Range limiter bounds the change of a command within one step",
 "When velocity limits are enabled and the reference position (the last command, else the measured position) is inside the position limits, the position handed on differs from it by at most one step at the maximum velocity (or, with acceleration limits, at the velocity reachable from the measured speed). When acceleration limits are enabled and neither the last velocity command is out of range nor a measured position restricts it, the velocity handed on differs from the last velocity command by at most the maximum acceleration times the time step. The limiter remembers, per quantity, the last non-NaN command it handed on; absent or NaN commands never erase that memory.",
 ["inputs", "histories"], "all limits, states, previous commands and requested commands; every sequence of enforcement calls",
 "A sequence property over the limiter memory; tests run short fixed sequences with round numbers.",
 [JR, JL], [("compute_position_limits, compute_velocity_limits", JL), ("update_prev_command", JL)],
 [("prev_command_", "last handed-on command per quantity", "joint_limits/include/joint_limits/joint_saturation_limiter.hpp")])

prop("J04", "A joint measured at or outside its limits is never driven further outward",
 "When the measured position is outside the enabled position limits by more than the documented exception tolerance, a position command is refused with an exception; when it is outside by less than the bounds tolerance and the requested velocity points outward (or is zero), or outside by more than that tolerance, the velocity interval computed from the measured position is exactly zero, so that a velocity command is stopped at once or, with acceleration limits, braked towards zero (exactly at the tolerance it may instead be steered inward); when it is at or beyond a limit with velocity pointing outward, no effort pointing outward is handed on. When the measured speed exceeds the maximum velocity, no effort increasing that speed is handed on.",
 ["inputs"], "all limits, all measured positions and velocities, all requested commands and time steps",
 "Depends on orderings of five real quantities around tolerances; tests try single points on each side.",
 [JL, JR], [("verify_actual_position_within_limits, compute_velocity_limits, compute_effort_limits", JL)])

prop("J05", "Soft limiter output always respects the hard limits",
 "With a positive time step every non-NaN command handed on by the soft limiter is inside the enabled hard limits (position within [min, max] whenever the soft position range lies inside it, |velocity| <= max velocity, |effort| <= max effort, |acceleration| and |jerk| within theirs), whatever the soft limits, gains, measured state and command history are. With a zero or negative time step nothing changes; absent or NaN fields stay as they are; the reported flag is true exactly when a field was changed.",
 ["inputs", "histories"], "all hard and soft limits, gains, states, memories, commands and time steps",
 "The soft limiter combines gains, soft and hard ranges arithmetically; tests sample a few gain settings.",
 [JSOFT, JL], [("JointSoftLimiter::on_enforce", JSOFT)])

prop("J06", "Trajectory-point limiter honours shape, limits and the all-joints brake rule",
 "With a non-positive time step, without measured positions for every joint, or without a full set of desired positions or velocities, a trajectory point passes the limiter unchanged and unlimited; otherwise exactly the fields supplied for every joint are rewritten, keeping one value per joint. Unless braking is triggered, a joint without acceleration and deceleration limits is handed a velocity within its maximum velocity, and every acceleration handed on is within the joint's applicable acceleration or deceleration limit. An unlimited report implies positions and velocities that did not need clamping.",
 ["inputs"], "any number of joints, all limits per joint, all current and desired values, all time steps",
 "Holds per joint for any number of joints; tests use one or three joints with a few values.",
 [JSAT], [("JointSaturationLimiter<JointTrajectoryPoint>::on_enforce", JSAT)])

prop("J07", "URDF joint limits are translated faithfully",
 "Reading limits from a URDF joint yields its lower/upper position bounds only for revolute and prismatic joints, enables the wrap-around flag exactly for continuous joints, and takes the magnitudes of the velocity and effort limits. A joint without a limit (or safety) element, or a missing joint, is reported as such and leaves the caller's limits untouched; limits that URDF cannot express are never invented.",
 ["inputs"], "all URDF joints: every joint type, present or missing limit/safety elements, all numeric values",
 "The unit tests use one positive value set per joint type.",
 [JURDF], [("getJointLimits, getSoftJointLimits", JURDF)])

prop("J08", "ros2_control interface limits only ever tighten the URDF limits",
 "Combining a joint's URDF limits with the min/max given on its command interfaces never yields a looser enabled limit than the URDF gave: position bounds become the intersection and the velocity and effort limits the minimum of the two magnitudes. Disabling limits for an interface or for the joint switches the corresponding enforcement off and leaves no finite bound active; text that is not a number is ignored rather than changing a limit.",
 ["inputs", "configurations"], "all URDF limits and all interface lists with arbitrary min/max texts and enable flags, in any order",
 "The tests parse a few fixed URDF documents.",
 ["hardware_interface/src/component_parser.cpp"], [("update_interface_limits, retrieve_min_max_interface_values, set_custom_interface_values", "hardware_interface/src/component_parser.cpp")])

TS = "transmission_interface/include/transmission_interface/simple_transmission.hpp"
TD = "transmission_interface/include/transmission_interface/differential_transmission.hpp"
TF = "transmission_interface/include/transmission_interface/four_bar_linkage_transmission.hpp"
prop("T01", "Transmission maps are mutually inverse",
 "For every accepted transmission configuration, converting joint values to actuator values and back (and the reverse order) returns the original value for every configured quantity: position, velocity, effort, torque, force and absolute position where supported. This holds for the simple, differential and four-bar-linkage transmissions with any non-zero reductions, any joint offsets and any handle set.",
 ["inputs", "configurations"], "all reductions accepted by the constructors, all offsets, all values (over the reals), every subset of configured quantities",
 "Tests compare a few random reductions per interface type; the identity is over all reals.",
 [TS, TD, TF], [("actuator_to_joint / joint_to_actuator", TS + ", " + TD + ", " + TF)])

prop("T02", "Transmissions conserve power and keep quantities separate",
 "For every accepted configuration the power delivered at the joints equals the power delivered at the actuators (sum of effort times velocity), and velocities transform as the derivative of positions. Each quantity depends only on the values of the same quantity, and converting one direction never writes to the side it reads from.",
 ["inputs", "configurations"], "all accepted reductions, offsets and values (over the reals)",
 "The tests check individual directions numerically with fixed reductions.",
 [TS, TD, TF], [("actuator_to_joint / joint_to_actuator", TS + ", " + TD + ", " + TF)])

prop("T03", "Transmissions reject configurations they cannot convert",
 "Constructing a transmission with a zero reduction (or, for two-joint transmissions, with other than two reductions or offsets) throws. Configuring it throws when no joint or no actuator handles are given, when the handles do not name exactly one joint and one actuator (two of each for the two-joint transmissions), and when the valid handles do not make it usable: for the simple transmission no valid handle on one side, for the two-joint ones no quantity with a valid pair of handles on a side (differential: no quantity complete on both sides, or a quantity with an odd set); other configurations are accepted. Whatever was configured, a conversion only touches values behind valid handles that were given, takes the joints and actuators of a two-joint transmission in the order of their names, and converts a quantity only when it is complete on both sides.",
 ["inputs", "configurations"], "all reduction/offset vectors of any length and all handle lists",
 "Tests list some bad configurations; the claim is that every other kind is rejected too.",
 [TS, TD, TF, "transmission_interface/include/transmission_interface/accessor.hpp"],
 [("constructors and configure", TS + ", " + TD + ", " + TF), ("get_names, get_ordered_handles", "transmission_interface/include/transmission_interface/accessor.hpp")])

LX = "hardware_interface/include/hardware_interface/lexical_casts.hpp"
LXC = "hardware_interface/src/lexical_casts.cpp"
prop("L01", "Numeric text is accepted only as a whole, in range and finite",
 "Converting text to a number either returns the value of the complete text or throws invalid-argument or out-of-range; text with trailing garbage, empty text, non-finite reals and values that do not fit the requested integer width are never accepted (the integer overloads allow leading white space, no conversion allows more than one sign). The integer overloads return exactly the parsed value, never a wrapped or truncated one.",
 ["inputs"], "all strings", "Tests try a list of strings; acceptance must be right for every string and every integer width.",
 [LXC, LX], [("stod, stof, stoi8..stoi32, stoui8..stoui32", LXC)])

prop("L02", "Boolean and array text is parsed strictly",
 "Boolean text is accepted exactly when it is 'true' or 'false' in any letter case and everything else throws. Array text yields the elements in order, and an array whose element is not convertible to the element type throws instead of yielding an approximate element.",
 ["inputs"], "all strings and element types", "Tests try a list of strings.",
 [LXC, LX], [("parse_bool, to_lower_case", LXC), ("parse_array", LX)])

HD = "hardware_interface/include/hardware_interface/handle.hpp"
prop("H01", "Interface handles give typed, all-or-nothing access",
 "Writing a value to an interface handle either stores exactly that value and reports success, or reports failure and leaves the stored value unchanged; reading returns the last stored value or nothing. A handle without a value, or accessed with a type other than its own, never yields or accepts a value (reading a non-double handle as double is possible only for boolean handles, as 0 or 1): such an access throws and changes nothing. A handle created from a description has the described names and type and holds the described initial value or, without one, NaN, false or the largest value of its type.",
 ["inputs", "schedules"], "all data types, all values, lock available or not at each access",
 "Contention outcomes and the type matrix are sampled, not exhausted, by the tests.",
 [HD], [("Handle::get_optional, Handle::set_value", HD)])

prop("H02", "Copying or moving an interface handle preserves its identity and value",
 "A copied or moved handle has the same prefix, interface name, full name and data type and yields the same value as the original did. A handle that owns its value keeps referring to its own storage afterwards: writing through one handle never changes another handle's value, and a moved-to handle stays valid after the source is destroyed, and the source after the target. Assigning a handle to itself changes nothing. Values are exchanged only under the locks of the handles.",
 ["inputs", "histories"], "all data types, all construction kinds, all sequences of copies and moves",
 "Aliasing between copies is only visible after specific sequences that the tests do not run.",
 [HD], [("Handle copy/move constructors and assignments, swap", HD)])

prop("H03", "Loaned interfaces are returned exactly once and retry boundedly",
 "A loaned command or state interface invokes its release action exactly once over its lifetime, also when it is moved, and forwards values only to and from the interface it loans. A write or read through it makes at least one attempt and at most the allowed number of tries (zero counts as one), succeeds exactly when one of the attempts succeeded, and counts failures and timeouts accordingly.",
 ["histories", "schedules"], "all move histories and all patterns of lock contention during retries",
 "Retry outcomes depend on contention patterns tests do not produce.",
 ["hardware_interface/include/hardware_interface/loaned_command_interface.hpp", "hardware_interface/include/hardware_interface/loaned_state_interface.hpp"],
 [("LoanedCommandInterface::set_value / ~LoanedCommandInterface", "hardware_interface/include/hardware_interface/loaned_command_interface.hpp")])

HC = "hardware_interface/src/hardware_component.cpp"
prop("H04", "Hardware components follow the managed life cycle exactly",
 "A lifecycle request on a hardware component runs the corresponding driver callback only from a primary state in which it is legal and otherwise leaves the state and the driver alone. After the callback the component is in exactly the state its result prescribes (success: target state; failure: documented fallback; error: error handling, which asks the driver except while unconfigured and ends unconfigured or finalized), state, its name and its cached number agree, and so only legal transitions ever occur.",
 ["histories", "fault_sequences"], "every current state, every request, every callback result including the error callback's, every sequence of requests",
 "The product of states, requests and callback results (and sequences of them) is only sampled by tests.",
 [HC], [("initialize, configure, cleanup, activate, deactivate, shutdown, error", HC)],
 [("lifecycle_state_", "current lifecycle state", "hardware_interface/include/hardware_interface/hardware_component_interface.hpp")])

prop("H05", "Hardware is read and written only in the states that allow it",
 "A component's read callback runs only while it is inactive or active and its write callback only while it is active, and never the write callback of a sensor; otherwise the call succeeds without touching the driver. A failing read or write drives the component through error handling and the failure is reported to the caller, while a requested deactivation is reported and leaves error handling alone. An asynchronous component runs the same cycle in its own thread (read, then write only when the read succeeded, while active and not a sensor) and reports its last results.",
 ["histories", "fault_sequences"], "every state, component kind, callback outcome (success, failure, deactivation, asynchronous busy)",
 "State and outcome combinations are sampled by tests.",
 [HC], [("HardwareComponent::read, HardwareComponent::write", HC)])

RM = "hardware_interface/src/resource_manager.cpp"
prop("H06", "A command interface is claimed by at most one holder at a time",
 "Claiming a command interface succeeds only when it is known, available and not already claimed, and marks it claimed until the loan ends; a refused claim throws and changes nothing. Releasing one interface never affects the claim of another.",
 ["histories"], "all sets of interfaces, all claim/release histories",
 "Tests claim and release a couple of interfaces; exclusivity is over all histories.",
 [RM], [("claim_command_interface, release_command_interface, command_interface_is_claimed", RM)],
 [("claimed_command_interface_map_", "which command interfaces are claimed", RM)])

prop("H07", "A command mode switch touches only existing, eligible components",
 "A command mode switch request naming an interface that does not exist or is not available is rejected before any component is asked. Only components that export a named interface are asked, only in the states that permit it; the overall answer is success exactly when every component that exports a named interface was in such a state and accepted, and a component that throws counts as a refusal instead of propagating.",
 ["inputs", "fault_sequences"], "all interface lists, component sets, component states and per-component answers including exceptions",
 "Tests use a few components with fixed answers.",
 [RM], [("prepare_command_mode_switch, perform_command_mode_switch", RM)])

prop("H08", "Failing hardware is isolated in the read and write cycles",
 "In one read or write cycle of the resource manager every component whose turn it is is processed regardless of the failures of others. A component fails when its own read or write does (a throw included) or its group is in a failed state; only the members of a group share its state. The cycle reports an error exactly when at least one component failed, names exactly the failed components in the order they are processed, and withdraws the interfaces of those and of no others. A request to deactivate takes an active component (in a group, the active members) to inactive and is an error only in a read.",
 ["fault_sequences", "schedules"], "all component sets, groups, read/write rates and failure patterns including exceptions",
 "Failure patterns over sets of components are sampled.",
 [RM], [("ResourceManager::read, ResourceManager::write", RM), ("ResourceStorage::update_hardware_component_group_state", RM), ("ResourceStorage::remove_all_hardware_interfaces_from_available_list", RM)])

prop("H09", "Interface availability follows the hardware life cycle",
 "A hardware component's state and command interfaces become available when it is configured and stop being available when it is cleaned up, shut down or otherwise leaves the inactive and active states; interfaces of other components keep their availability, and the interfaces of a chainable controller change theirs only with that controller. An interface name is listed at most once, and only known interfaces are available. Asking for a life cycle state acts on the named component only, through transitions that exist, and is reported as done exactly when the state was reached.",
 ["histories", "fault_sequences"], "all lifecycle request histories over all component sets",
 "Histories of lifecycle requests with failures are sampled by tests.",
 [RM], [("configure_hardware, cleanup_hardware, shutdown_hardware, activate_hardware, deactivate_hardware, remove_all_hardware_interfaces_from_available_list", RM), ("ResourceStorage::set_component_state, ResourceManager::set_component_state", RM), ("make_controller_exported_state_interfaces_available ... make_controller_reference_interfaces_unavailable", RM)],
 [("available_command_interfaces_, available_state_interfaces_", "names currently available", RM)])

prop("H10", "Hardware runs at its own rate",
 "A component with a read/write rate of its own is read (written) in the manager cycle nearest to its own period and is told the time since its last read (write); a component without one, or at the manager's rate, is read (written) in every cycle with the manager's period. The rates of components do not affect one another.",
 ["schedules", "histories"], "all rates, periods, clocks and last cycle times",
 "Timing combinations are sampled by tests.",
 [RM], [("ResourceManager::read, ResourceManager::write", RM)])

HH = "hardware_interface/include/hardware_interface/helpers.hpp"
prop("C01", "List and map helpers keep sets of names exact",
 "Adding an item to a list keeps every existing element and its order and makes the item present exactly once more only if it was absent; removing an item removes exactly one occurrence and reports whether it was present; membership, uniqueness and any/all/none queries agree with the mathematical definitions.",
 ["inputs"], "lists and maps of any length and content", "Tests use lists of two or three elements.",
 [HH], [("add_item, remove_item, has_item, has_any_item, has_all_items, is_unique ...", HH)])

prop("C02", "Ordered interfaces match the requested names and order",
 "Selecting a controller's interfaces by names and type (from interfaces with distinct full names, into an empty list) returns them in the order of the names, each the one whose full name is the given name, or is the name followed by a slash and the type when a type is given, and reports success exactly when one interface was found for every name; a list without enough capacity is refused with a range error, and the interfaces themselves are not modified.",
 ["inputs"], "all name lists and interface lists of any length", "Tests use a few names.",
 ["controller_interface/include/controller_interface/helpers.hpp"], [("get_ordered_interfaces", "controller_interface/include/controller_interface/helpers.hpp")])

prop("C03", "TF prefixes and stripped text are normalised consistently",
 "Resolving a TF frame prefix keeps an empty prefix empty; otherwise it replaces the first tilde, if any, by the node namespace, appends a slash unless the text ends with one, and then removes one leading slash if there is one; no other character changes, so the result is empty or ends with a slash. Stripping text removes exactly the leading and trailing white space.",
 ["inputs"], "all prefix and namespace strings", "Tests try a list of strings.",
 ["controller_interface/include/controller_interface/tf_prefix.hpp", HH], [("resolve_tf_prefix", "controller_interface/include/controller_interface/tf_prefix.hpp"), ("strip", HH)])

CC = "controller_interface/src/chainable_controller_interface.cpp"
prop("C04", "Chainable controllers obey the chained-mode protocol",
 "A chainable controller takes its references from subscribers exactly when it is not in chained mode, and its update step runs exactly when its references were obtained successfully. It enters or leaves chained mode only while not active and only if the controller agrees, and its exported interfaces carry its own name as prefix and are distinct.",
 ["inputs", "histories", "fault_sequences"], "all mode histories, callback answers and lifecycle states",
 "Combinations of state, mode and answers are sampled by tests.",
 [CC], [("ChainableControllerInterface::update, set_chained_mode", CC)])

CM = "controller_manager/src/controller_manager.cpp"
prop("C05", "Controllers run at their own rate and never when inactive",
 "In each manager cycle only active controllers are updated; one whose rate is at least the manager rate is updated every cycle, a slower one at the cycle nearest to its own period, and its reported period equals the time since its previous update. A controller failing or throwing causes its whole chain group to be deactivated, and other controllers are still updated in that cycle.",
 ["schedules", "histories", "fault_sequences"], "all controller sets, rates, clocks and failure patterns",
 "Timing and failure combinations are sampled by tests.",
 [CM], [("ControllerManager::update, deactivate_controllers, get_full_chain_spec, build_controller_full_chain_map_cache", CM), ("ControllerInterfaceBase::trigger_update", "controller_interface/src/controller_interface_base.cpp")])

prop("C06", "A controller switch is all-or-nothing in its checks",
 "A request to activate a controller whose following controllers are neither active nor being activated, or to deactivate one that active or to-be-activated controllers depend on, is refused under strict mode and trimmed under best effort before any controller or hardware changes.",
 ["inputs", "histories"], "all controller graphs and switch requests", "Graphs and requests are sampled by tests.",
 [CM], [("check_following_controllers_for_activate, check_preceding_controllers_for_deactivate, switch_controller_cb", CM)])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

From d5ccfbbe06ace881e1c9ce456b39fd03d7898fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 01/27] fix: keep the computed velocity interval inside the
 maximum velocity

---
 joint_limits/src/joint_limits_helpers.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/joint_limits/src/joint_limits_helpers.cpp b/joint_limits/src/joint_limits_helpers.cpp
index 5f41cfa..2c4980c 100644
--- a/joint_limits/src/joint_limits_helpers.cpp
+++ b/joint_limits/src/joint_limits_helpers.cpp
@@ -193,6 +193,12 @@ VelocityLimits compute_velocity_limits(
     vel_limits.upper_limit = std::min(prev_command_vel.value() + delta_vel, vel_limits.upper_limit);
   }
   internal::check_and_swap_limits(vel_limits.lower_limit, vel_limits.upper_limit);
+  // A previous command (or a position-based bound) far away from the velocity limits results in an
+  // interval that reaches beyond them, but they should never be exceeded
+  vel_limits.lower_limit =
+    std::clamp(vel_limits.lower_limit, -limits.max_velocity, limits.max_velocity);
+  vel_limits.upper_limit =
+    std::clamp(vel_limits.upper_limit, -limits.max_velocity, limits.max_velocity);
   return vel_limits;
 }
 
-- 
2.43.0


From b8da30112e5f063e6b4442f5261c6d8db33c315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 02/27] fix: ignore non-finite references when computing the
 joint position and velocity limits

---
 joint_limits/src/joint_limits_helpers.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/joint_limits/src/joint_limits_helpers.cpp b/joint_limits/src/joint_limits_helpers.cpp
index 2c4980c..da9c61e 100644
--- a/joint_limits/src/joint_limits_helpers.cpp
+++ b/joint_limits/src/joint_limits_helpers.cpp
@@ -38,6 +38,15 @@ void check_and_swap_limits(double & lower_limit, double & upper_limit)
   }
 }
 
+/**
+ * @brief Check if the given optional holds a finite value, NaN or infinite values cannot be used as
+ * a reference to compute the limits.
+ */
+bool has_finite_value(const std::optional<double> & value)
+{
+  return value.has_value() && std::isfinite(value.value());
+}
+
 /**
  * @brief Verify if the actual position is within the limits and if not, log an error and throw an
  * exception.
@@ -121,8 +130,8 @@ PositionLimits compute_position_limits(
     /// exists (e.g., first position command after operating in another mode). Skip
     /// velocity-constrained narrowing entirely when neither reference is available.
     const std::optional<double> & pos_ref =
-      prev_command_pos.has_value() ? prev_command_pos : act_pos;
-    if (pos_ref.has_value())
+      internal::has_finite_value(prev_command_pos) ? prev_command_pos : act_pos;
+    if (internal::has_finite_value(pos_ref))
     {
       const double position_reference = pos_ref.value();
       pos_limits.lower_limit = std::max(
@@ -146,7 +155,7 @@ VelocityLimits compute_velocity_limits(
       -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::infinity());
   }
   VelocityLimits vel_limits(-limits.max_velocity, limits.max_velocity);
-  if (limits.has_position_limits && act_pos.has_value())
+  if (limits.has_position_limits && act_pos.has_value() && !std::isnan(act_pos.value()))
   {
     const double actual_pos = act_pos.value();
     const double max_vel_with_pos_limits = (limits.max_position - actual_pos) / dt;
@@ -186,7 +195,7 @@ VelocityLimits compute_velocity_limits(
       }
     }
   }
-  if (limits.has_acceleration_limits && prev_command_vel.has_value())
+  if (limits.has_acceleration_limits && internal::has_finite_value(prev_command_vel))
   {
     const double delta_vel = limits.max_acceleration * dt;
     vel_limits.lower_limit = std::max(prev_command_vel.value() - delta_vel, vel_limits.lower_limit);
-- 
2.43.0


From 0c7e9ea6163e39ead0abaffdda3b8d9d61d16094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 03/27] fix: keep the soft limiter position fallback inside the
 hard position limits

---
 joint_limits/src/joint_soft_limiter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/joint_limits/src/joint_soft_limiter.cpp b/joint_limits/src/joint_soft_limiter.cpp
index 5fa3d92..c533258 100644
--- a/joint_limits/src/joint_soft_limiter.cpp
+++ b/joint_limits/src/joint_soft_limiter.cpp
@@ -198,6 +198,11 @@ bool JointSoftLimiter::on_enforce(
     {
       pos_low = vel_clamped_pos_low;
       pos_high = vel_clamped_pos_high;
+      if (hard_limits.has_position_limits)
+      {
+        pos_low = std::clamp(pos_low, hard_limits.min_position, hard_limits.max_position);
+        pos_high = std::clamp(pos_high, hard_limits.min_position, hard_limits.max_position);
+      }
     }
 
     limits_enforced = is_limited(desired.position.value(), pos_low, pos_high);
-- 
2.43.0


From 40a063717a12e9088c33a555811d55007a9ad860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 04/27] fix: keep the soft limiter velocity and effort bounds
 ordered and inside the hard limits

---
 joint_limits/src/joint_soft_limiter.cpp | 31 +++++++++++++++++++++----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/joint_limits/src/joint_soft_limiter.cpp b/joint_limits/src/joint_soft_limiter.cpp
index c533258..f87dc50 100644
--- a/joint_limits/src/joint_soft_limiter.cpp
+++ b/joint_limits/src/joint_soft_limiter.cpp
@@ -17,7 +17,9 @@
 #define _USE_MATH_DEFINES
 #endif
 #include "joint_limits/joint_soft_limiter.hpp"
+#include <algorithm>
 #include <cmath>
+#include <utility>
 
 namespace joint_limits
 {
@@ -217,7 +219,7 @@ bool JointSoftLimiter::on_enforce(
 
     if (
       hard_limits.has_velocity_limits && hard_limits.has_acceleration_limits &&
-      actual.has_velocity())
+      actual.has_velocity() && std::isfinite(actual.velocity.value()))
     {
       soft_min_vel =
         std::max(actual.velocity.value() - hard_limits.max_acceleration * dt_seconds, soft_min_vel);
@@ -225,8 +227,16 @@ bool JointSoftLimiter::on_enforce(
         std::min(actual.velocity.value() + hard_limits.max_acceleration * dt_seconds, soft_max_vel);
     }
 
-    soft_min_vel = std::max(soft_min_vel, velocity_limits.lower_limit);
-    soft_max_vel = std::min(soft_max_vel, velocity_limits.upper_limit);
+    // The soft bounds may lie outside of the hard ones or even cross each other (e.g., measured
+    // velocity beyond the limits), so keep them ordered and inside of the hard velocity limits
+    soft_min_vel =
+      std::clamp(soft_min_vel, velocity_limits.lower_limit, velocity_limits.upper_limit);
+    soft_max_vel =
+      std::clamp(soft_max_vel, velocity_limits.lower_limit, velocity_limits.upper_limit);
+    if (soft_min_vel > soft_max_vel)
+    {
+      std::swap(soft_min_vel, soft_max_vel);
+    }
 
     limits_enforced =
       is_limited(desired.velocity.value(), soft_min_vel, soft_max_vel) || limits_enforced;
@@ -253,8 +263,19 @@ bool JointSoftLimiter::on_enforce(
         -soft_joint_limits.k_velocity * (actual.velocity.value() - soft_max_vel),
         -hard_limits.max_effort, hard_limits.max_effort);
 
-      soft_min_eff = std::max(soft_min_eff, effort_limits.lower_limit);
-      soft_max_eff = std::min(soft_max_eff, effort_limits.upper_limit);
+      // The result is NaN when the velocity is unbounded or not measured, use the hard limits then
+      soft_min_eff = std::isnan(soft_min_eff) ? effort_limits.lower_limit
+                                              : std::clamp(
+                                                  soft_min_eff, effort_limits.lower_limit,
+                                                  effort_limits.upper_limit);
+      soft_max_eff = std::isnan(soft_max_eff) ? effort_limits.upper_limit
+                                              : std::clamp(
+                                                  soft_max_eff, effort_limits.lower_limit,
+                                                  effort_limits.upper_limit);
+      if (soft_min_eff > soft_max_eff)
+      {
+        std::swap(soft_min_eff, soft_max_eff);
+      }
     }
 
     limits_enforced =
-- 
2.43.0


From f05625abc64b9f4dd9be26b952f7c403d03b5a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 05/27] fix: take the magnitude of max velocity, effort and
 acceleration limits of a command interface

A negative text in the max tag gave a negative max_velocity, max_effort or
max_acceleration, while the min tag is already taken by magnitude.
---
 hardware_interface/src/component_parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hardware_interface/src/component_parser.cpp b/hardware_interface/src/component_parser.cpp
index 0dc752b..5bc01e9 100644
--- a/hardware_interface/src/component_parser.cpp
+++ b/hardware_interface/src/component_parser.cpp
@@ -860,7 +860,7 @@ void set_custom_interface_values(const InterfaceInfo & itr, joint_limits::JointL
       }
       if (std::isfinite(max_accel))
       {
-        limits.max_acceleration = max_accel;
+        limits.max_acceleration = std::fabs(max_accel);
 
         if (!std::isfinite(limits.max_deceleration))
         {
@@ -943,7 +943,7 @@ void update_interface_limits(const ComponentInfo & joint, joint_limits::JointLim
       double min_vel(-limits.max_velocity), max_vel(limits.max_velocity);
       if (itr.enable_limits && detail::retrieve_min_max_interface_values(itr, min_vel, max_vel))
       {
-        max_vel = std::min(std::abs(min_vel), max_vel);
+        max_vel = std::min(std::abs(min_vel), std::abs(max_vel));
         limits.max_velocity = std::min(max_vel, limits.max_velocity);
         limits.has_velocity_limits = true;
       }
@@ -957,7 +957,7 @@ void update_interface_limits(const ComponentInfo & joint, joint_limits::JointLim
       double min_eff(-limits.max_effort), max_eff(limits.max_effort);
       if (itr.enable_limits && detail::retrieve_min_max_interface_values(itr, min_eff, max_eff))
       {
-        max_eff = std::min(std::abs(min_eff), max_eff);
+        max_eff = std::min(std::abs(min_eff), std::abs(max_eff));
         limits.max_effort = std::min(max_eff, limits.max_effort);
         limits.has_effort_limits = true;
       }
-- 
2.43.0


From 63c18e6381bf95eee1b6df5f63064fa32fcfae10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 06/27] fix: do not accept negative text that wraps around to a
 small unsigned value

---
 .../include/hardware_interface/lexical_casts.hpp               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/include/hardware_interface/lexical_casts.hpp b/hardware_interface/include/hardware_interface/lexical_casts.hpp
index 9826f19..d08246c 100644
--- a/hardware_interface/include/hardware_interface/lexical_casts.hpp
+++ b/hardware_interface/include/hardware_interface/lexical_casts.hpp
@@ -83,7 +83,8 @@ T stoui_generic(const std::string & s)
   {
     throw std::invalid_argument("Invalid characters in string");
   }
-  if (v > std::numeric_limits<T>::max())
+  // stoul wraps negative values around, so they cannot be recognized by their value alone
+  if (v > std::numeric_limits<T>::max() || (v != 0 && s.find('-') != std::string::npos))
   {
     throw std::out_of_range("value not in range of target type");
   }
-- 
2.43.0


From 24c572d9dc3d73d238939f1bf2e0577b5225f52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 07/27] fix: reject array elements that the element type cannot
 represent

---
 .../hardware_interface/lexical_casts.hpp      | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/hardware_interface/include/hardware_interface/lexical_casts.hpp b/hardware_interface/include/hardware_interface/lexical_casts.hpp
index d08246c..6aa6c17 100644
--- a/hardware_interface/include/hardware_interface/lexical_casts.hpp
+++ b/hardware_interface/include/hardware_interface/lexical_casts.hpp
@@ -15,6 +15,7 @@
 #ifndef HARDWARE_INTERFACE__LEXICAL_CASTS_HPP_
 #define HARDWARE_INTERFACE__LEXICAL_CASTS_HPP_
 
+#include <cmath>
 #include <cstdint>
 #include <limits>
 #include <regex>
@@ -166,8 +167,23 @@ std::vector<T> parse_array(const std::string & array_string)
     {
       try
       {
-        const T value = static_cast<T>(hardware_interface::stod(value_str));
-        result.push_back(value);
+        const double value = hardware_interface::stod(value_str);
+        if constexpr (std::is_integral_v<T>)
+        {
+          // only whole numbers that fit the integer type are convertible
+          if (
+            std::trunc(value) != value ||
+            value < static_cast<double>(std::numeric_limits<T>::min()) ||
+            value >= std::ldexp(1.0, std::numeric_limits<T>::digits))
+          {
+            throw std::out_of_range("value not in range of target type");
+          }
+        }
+        else if (std::abs(value) > static_cast<double>(std::numeric_limits<T>::max()))
+        {
+          throw std::out_of_range("value not in range of target type");
+        }
+        result.push_back(static_cast<T>(value));
       }
       catch (const std::exception &)
       {
-- 
2.43.0


From 7057cf0576c303ce260d3709a33573fe2d8e9c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:43 +0000
Subject: [PATCH 08/27] fix: do not accept real numbers with two signs

---
 hardware_interface/src/lexical_casts.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/src/lexical_casts.cpp b/hardware_interface/src/lexical_casts.cpp
index 5afd197..cd88d33 100644
--- a/hardware_interface/src/lexical_casts.cpp
+++ b/hardware_interface/src/lexical_casts.cpp
@@ -44,7 +44,8 @@ std::optional<FloatingPointType> parse_floating_point_with_from_chars(const std:
   if (*begin == '+')
   {
     ++begin;
-    if (begin == end)
+    // a second sign would be accepted by std::from_chars
+    if (begin == end || *begin == '-')
     {
       return std::nullopt;
     }
-- 
2.43.0


From 095649a5b9f639294a60d1b7f4efbb0eed4fc9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:45 +0000
Subject: [PATCH 09/27] fix: do not access the last character of an empty TF
 prefix

---
 .../include/controller_interface/tf_prefix.hpp                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controller_interface/include/controller_interface/tf_prefix.hpp b/controller_interface/include/controller_interface/tf_prefix.hpp
index 3f769b1..aac573a 100644
--- a/controller_interface/include/controller_interface/tf_prefix.hpp
+++ b/controller_interface/include/controller_interface/tf_prefix.hpp
@@ -39,8 +39,8 @@ inline std::string resolve_tf_prefix(const std::string & prefix, const std::stri
     nprefix.replace(pos, 1, node_ns);
   }
 
-  // ensure trailing '/'
-  if (nprefix.back() != '/')
+  // ensure trailing '/' (the prefix is empty if a lone tilde stood for an empty namespace)
+  if (nprefix.empty() || nprefix.back() != '/')
   {
     nprefix.push_back('/');
   }
-- 
2.43.0


From 32cbd84ec2a7db7444205fa907c99f0362b95042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:39 +0000
Subject: [PATCH 10/27] fix: let a moved handle refer to its own value

---
 hardware_interface/include/hardware_interface/handle.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hardware_interface/include/hardware_interface/handle.hpp b/hardware_interface/include/hardware_interface/handle.hpp
index aef84b1..dc99ec1 100644
--- a/hardware_interface/include/hardware_interface/handle.hpp
+++ b/hardware_interface/include/hardware_interface/handle.hpp
@@ -616,6 +616,15 @@ private:
     std::swap(first.value_, second.value_);
     std::swap(first.data_type_, second.data_type_);
     std::swap(first.value_ptr_, second.value_ptr_);
+    // a handle that owns a double refers to its own storage
+    if (std::holds_alternative<double>(first.value_))
+    {
+      first.value_ptr_ = std::get_if<double>(&first.value_);
+    }
+    if (std::holds_alternative<double>(second.value_))
+    {
+      second.value_ptr_ = std::get_if<double>(&second.value_);
+    }
   }
 
 protected:
-- 
2.43.0


From ee32b3b55db8c3d59ab3c1ca7358497d68929781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:39 +0000
Subject: [PATCH 11/27] fix: do not lock a handle's mutex twice when it is
 moved to itself

---
 hardware_interface/include/hardware_interface/handle.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/include/hardware_interface/handle.hpp b/hardware_interface/include/hardware_interface/handle.hpp
index dc99ec1..a894e5a 100644
--- a/hardware_interface/include/hardware_interface/handle.hpp
+++ b/hardware_interface/include/hardware_interface/handle.hpp
@@ -278,7 +278,10 @@ public:
 
   Handle & operator=(Handle && other)
   {
-    swap(*this, other);
+    if (this != &other)
+    {
+      swap(*this, other);
+    }
     return *this;
   }
 
-- 
2.43.0


From fbe0bbbb4e0ee8dcd7852106f370443d4e201473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:39 +0000
Subject: [PATCH 12/27] fix: end the write attempts of a loaned command
 interface when no retry is allowed

---
 .../include/hardware_interface/loaned_command_interface.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hardware_interface/include/hardware_interface/loaned_command_interface.hpp b/hardware_interface/include/hardware_interface/loaned_command_interface.hpp
index 3decdb6..5ecc5e4 100644
--- a/hardware_interface/include/hardware_interface/loaned_command_interface.hpp
+++ b/hardware_interface/include/hardware_interface/loaned_command_interface.hpp
@@ -106,7 +106,7 @@ public:
     {
       ++set_value_statistics_.failed_counter;
       ++nr_tries;
-      if (nr_tries == max_tries)
+      if (nr_tries >= max_tries)
       {
         ++set_value_statistics_.timeout_counter;
         return false;
-- 
2.43.0


From e76aa2e3d3356ad4140538791a2c515adc209e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:26 +0000
Subject: [PATCH 13/27] fix: report a write cycle with a failed component as an
 error even if a later one asks to be deactivated

---
 hardware_interface/src/resource_manager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 6da74e5..244802d 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -2590,7 +2590,11 @@ HardwareReadWriteStatus ResourceManager::write(
         rclcpp_lifecycle::State inactive_state(
           lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE, lifecycle_state_names::INACTIVE);
         set_component_state(component_name, inactive_state);
-        read_write_status.result = ret_val;
+        // a failure reported by another component in this cycle must not be hidden
+        if (read_write_status.result == return_type::OK)
+        {
+          read_write_status.result = ret_val;
+        }
         if (return_failed_hardware_names_on_return_deactivate_write_cycle_)
         {
           read_write_status.failed_hardware_names.push_back(component_name);
-- 
2.43.0


From 3e1ec5fa061baec3380b31513e5d3cfad8497def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:27 +0000
Subject: [PATCH 14/27] fix: do not configure an unconfigured group member when
 its group asks to be deactivated

---
 hardware_interface/src/resource_manager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 244802d..1f133e4 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -2589,7 +2589,11 @@ HardwareReadWriteStatus ResourceManager::write(
       {
         rclcpp_lifecycle::State inactive_state(
           lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE, lifecycle_state_names::INACTIVE);
-        set_component_state(component_name, inactive_state);
+        // the request of a group must not configure a member that is not active
+        if (component.get_lifecycle_id() == lifecycle_msgs::msg::State::PRIMARY_STATE_ACTIVE)
+        {
+          set_component_state(component_name, inactive_state);
+        }
         // a failure reported by another component in this cycle must not be hidden
         if (read_write_status.result == return_type::OK)
         {
-- 
2.43.0


From d9037595802a145dc750921b8f83468b42db9238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:27 +0000
Subject: [PATCH 15/27] fix: fail the group of a hardware component that throws
 in its read or write cycle

---
 hardware_interface/src/resource_manager.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 1f133e4..158aec6 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -1360,9 +1360,9 @@ public:
     // to the respective return type
     if (value != return_type::OK)
     {
-      hw_group_state_.at(group_name) = value;
+      hw_group_state_[group_name] = value;
     }
-    return hw_group_state_.at(group_name);
+    return hw_group_state_[group_name];
   }
 
   /// Gets the logger for the resource storage
@@ -2456,9 +2456,6 @@ HardwareReadWriteStatus ResourceManager::read(
           hardware_component_info.read_statistics->periodicity.update_statistics(
             read_statistics_collector.periodicity);
         }
-        const auto component_group = component.get_group_name();
-        ret_val =
-          resource_storage_->update_hardware_component_group_state(component_group, ret_val);
       }
       catch (const std::exception & e)
       {
@@ -2476,6 +2473,9 @@ HardwareReadWriteStatus ResourceManager::read(
         handle_exceptions ? void() : throw;
         ret_val = return_type::ERROR;
       }
+      // a component that throws fails its group as well
+      ret_val = resource_storage_->update_hardware_component_group_state(
+        component.get_group_name(), ret_val);
       RCLCPP_WARN_EXPRESSION(
         get_logger(), ret_val == hardware_interface::return_type::DEACTIVATE,
         "DEACTIVATE returned from read cycle is treated the same as ERROR.");
@@ -2558,9 +2558,6 @@ HardwareReadWriteStatus ResourceManager::write(
           hardware_component_info.write_statistics->periodicity.update_statistics(
             write_statistics_collector.periodicity);
         }
-        const auto component_group = component.get_group_name();
-        ret_val =
-          resource_storage_->update_hardware_component_group_state(component_group, ret_val);
       }
       catch (const std::exception & e)
       {
@@ -2578,6 +2575,9 @@ HardwareReadWriteStatus ResourceManager::write(
         handle_exceptions ? void() : throw;
         ret_val = return_type::ERROR;
       }
+      // a component that throws fails its group as well
+      ret_val = resource_storage_->update_hardware_component_group_state(
+        component.get_group_name(), ret_val);
       if (ret_val == return_type::ERROR)
       {
         component.error();
-- 
2.43.0


From 3a20d67d4b3e2b4edb6a1f14fa2b52decf7be39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:56 +0000
Subject: [PATCH 16/27] fix: withdraw the interfaces of a hardware component
 that a failed transition leaves unconfigured or finalized

---
 hardware_interface/src/resource_manager.cpp | 30 +++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 158aec6..3d5c7c3 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -442,6 +442,20 @@ public:
     }
   }
 
+  // A failed transition may leave the component unconfigured or finalized: its interfaces are
+  // available only as long as it is inactive or active
+  template <class HardwareT>
+  void remove_interfaces_of_unconfigured_hardware(HardwareT & hardware)
+  {
+    const auto id = hardware.get_lifecycle_id();
+    if (
+      id != lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE &&
+      id != lifecycle_msgs::msg::State::PRIMARY_STATE_ACTIVE)
+    {
+      remove_all_hardware_interfaces_from_available_list(hardware.get_name());
+    }
+  }
+
   template <class HardwareT>
   bool cleanup_hardware(HardwareT & hardware)
   {
@@ -471,6 +485,10 @@ public:
     {
       remove_all_hardware_interfaces_from_available_list(hardware.get_name());
     }
+    else
+    {
+      remove_interfaces_of_unconfigured_hardware(hardware);
+    }
     if (!hardware.get_group_name().empty())
     {
       hw_group_state_[hardware.get_group_name()] = return_type::OK;
@@ -515,6 +533,10 @@ public:
         hw_group_state_[hardware.get_group_name()] = return_type::OK;
       }
     }
+    else
+    {
+      remove_interfaces_of_unconfigured_hardware(hardware);
+    }
     return result;
   }
 
@@ -542,6 +564,10 @@ public:
         hardware.get_name().c_str());
       handle_exception_ ? void() : throw;
     }
+    if (!result)
+    {
+      remove_interfaces_of_unconfigured_hardware(hardware);
+    }
     return result;
   }
 
@@ -575,6 +601,10 @@ public:
       // TODO(destogl): make all command interfaces unavailable that should be present only
       // when active (currently are all available) also at inactive
     }
+    else
+    {
+      remove_interfaces_of_unconfigured_hardware(hardware);
+    }
     return result;
   }
 
-- 
2.43.0


From 6df7e6a9d0843773f4cb3e7bf70f54364027d8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:14 +0000
Subject: [PATCH 17/27] fix: publishing the activity from the real-time loop
 waits for the controllers list's lock, whose owner may wait for the loop

---
 .../controller_manager/controller_manager.hpp   |  3 +++
 controller_manager/src/controller_manager.cpp   | 17 +++++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 2174ea0..a576f72 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -801,6 +801,9 @@ private:
     std::string concatenated_string;
   };
   RTBufferVariables rt_buffer_;
+
+  /// The activity could not be published without waiting for the lock of the controllers list
+  std::atomic_bool activity_publish_pending_{false};
 };
 
 }  // namespace controller_manager
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 32d3e5d..1c57df7 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3594,6 +3594,11 @@ controller_interface::return_type ControllerManager::update(
     }
   }
 
+  if (activity_publish_pending_)
+  {
+    publish_activity();
+  }
+
   PUBLISH_ROS2_CONTROL_INTROSPECTION_DATA_ASYNC(hardware_interface::DEFAULT_REGISTRY_KEY);
 
   execution_time_.update_time =
@@ -4287,12 +4292,20 @@ ControllerManager::check_fallback_controllers_state_pre_activation(
 
 void ControllerManager::publish_activity()
 {
+  // The real-time loop also publishes the activity. It must not wait for the lock, as its owner may
+  // itself be waiting for the real-time loop. In that case, publish at the end of the next update.
+  if (!rt_controllers_wrapper_.controllers_lock_.try_lock())
+  {
+    activity_publish_pending_ = true;
+    return;
+  }
+  activity_publish_pending_ = false;
   controller_manager_msgs::msg::ControllerManagerActivity status_msg;
   status_msg.header.stamp = get_clock()->now();
   {
-    // lock controllers
+    // controllers are already locked
     std::lock_guard<RTControllerListWrapper::controllers_lock_type> guard(
-      rt_controllers_wrapper_.controllers_lock_);
+      rt_controllers_wrapper_.controllers_lock_, std::adopt_lock);
     const std::vector<ControllerSpec> & controllers =
       rt_controllers_wrapper_.get_updated_list(guard);
     for (const auto & controller : controllers)
-- 
2.43.0


From 65c837bf7a610b0d1f79964df59a1352d788ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:50 +0000
Subject: [PATCH 18/27] fix: a following controller that cannot be activated
 lets an exception escape the switch request

---
 controller_manager/src/controller_manager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 1c57df7..71cef44 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3977,14 +3977,15 @@ controller_interface::return_type ControllerManager::check_following_controllers
     }
     // check if following controller will not be activated
     else if (
+      !is_controller_inactive(following_ctrl_it->c) ||
       std::find(
         switch_params_.activate_request.begin(), switch_params_.activate_request.end(),
         following_ctrl_it->info.name) == switch_params_.activate_request.end())
     {
       message = fmt::format(
         FMT_COMPILE(
-          "The following controller with name '{}' is currently inactive and it is not requested "
-          "to be activated."),
+          "The following controller with name '{}' is currently not active and it is not requested "
+          "to be activated, or it is not in inactive state and can not be activated."),
         following_ctrl_it->info.name);
       RCLCPP_WARN(get_logger(), "%s", message.c_str());
       return controller_interface::return_type::ERROR;
-- 
2.43.0


From 6f924bab1b030e8542632f74531c560bd6fa4fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:48 +0000
Subject: [PATCH 19/27] fix: a controller configured again keeps the update
 rate of its first configuration

---
 controller_interface/src/controller_interface_base.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index 43ee52e..a654ad2 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -204,7 +204,9 @@ const rclcpp_lifecycle::State & ControllerInterfaceBase::configure()
       RCLCPP_ERROR(get_node()->get_logger(), "Update rate cannot be a negative value!");
       return get_lifecycle_state();
     }
-    if (params.update_rate != 0u && update_rate > params.update_rate)
+    if (
+      params.controller_manager_update_rate != 0u &&
+      update_rate > params.controller_manager_update_rate)
     {
       RCLCPP_WARN(
         get_node()->get_logger(), "%s",
@@ -212,8 +214,9 @@ const rclcpp_lifecycle::State & ControllerInterfaceBase::configure()
           "The update rate of the controller : '{} Hz' cannot be higher than the update rate of "
           "the controller manager : '{} Hz'. Setting it to the update rate of the controller "
           "manager.",
-          update_rate, params.update_rate)
+          update_rate, params.controller_manager_update_rate)
           .c_str());
+      params.update_rate = params.controller_manager_update_rate;
     }
     else
     {
-- 
2.43.0


From d55baf6e63464b572bffa4fdbde5bcf2b5e85376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:15 +0000
Subject: [PATCH 20/27] fix: an inactive controller in the deactivate request
 keeps the others' followers in chained mode

---
 controller_manager/src/controller_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 71cef44..01293d3 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3861,7 +3861,7 @@ void ControllerManager::propagate_deactivation_of_chained_mode(
           "The controller will be removed from the list later."
           "Skipping adding following controllers to 'from' chained mode request.",
           controller.info.name.c_str());
-        break;
+        continue;
       }
 
       const auto ctrl_cmd_itf_names = get_command_interfaces_names(controller.c, resource_manager_);
-- 
2.43.0


From d28c16c4a4b1bccec0ba84efdd87f99577fb5090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:15 +0000
Subject: [PATCH 21/27] fix: the interfaces of a restarted controller are given
 to another controller of the same request

---
 controller_manager/src/controller_manager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 01293d3..f17f983 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -4351,6 +4351,11 @@ controller_interface::return_type ControllerManager::check_for_interfaces_availa
       RCLCPP_ERROR(get_logger(), "%s", message.c_str());
       return controller_interface::return_type::ERROR;
     }
+    if (ros2_control::has_item(activation_list, controller_name))
+    {
+      // a restarted controller needs its interfaces again
+      continue;
+    }
     const auto cmd_itf_cfg = controller_it->c->command_interface_configuration();
     const auto controller_cmd_interfaces =
       (cmd_itf_cfg.type == controller_interface::interface_configuration_type::INDIVIDUAL)
-- 
2.43.0


From 473f2f4437d984c394d0c55676eaea78e2cc4f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:15 +0000
Subject: [PATCH 22/27] fix: restarting a controller does not check whether its
 following controllers stay active

---
 controller_manager/src/controller_manager.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index f17f983..d7c6314 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2075,6 +2075,12 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         RCLCPP_WARN(get_logger(), "%s", message.c_str());
         status = controller_interface::return_type::ERROR;
       }
+      else
+      {
+        // it is restarted, therefore its following controllers have to be active afterwards
+        status =
+          check_following_controllers_for_activate(controllers, strictness, controller_it, message);
+      }
     }
     else if (!is_controller_inactive(controller_it->c))
     {
@@ -3948,11 +3954,11 @@ controller_interface::return_type ControllerManager::check_following_controllers
 
     if (is_controller_active(following_ctrl_it->c))
     {
-      // will following controller be deactivated?
+      // will following controller be deactivated (and not activated again)?
       if (
-        std::find(
-          switch_params_.deactivate_request.begin(), switch_params_.deactivate_request.end(),
-          following_ctrl_it->info.name) != switch_params_.deactivate_request.end())
+        ros2_control::has_item(
+          switch_params_.deactivate_request, following_ctrl_it->info.name) &&
+        !ros2_control::has_item(switch_params_.activate_request, following_ctrl_it->info.name))
       {
         if (
           (ros2_control::has_item(controller_state_interfaces, ctrl_itf_name) &&
-- 
2.43.0


From 98a1a8827c479a4a96ce4707fcf00c86673d64f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:03 +0000
Subject: [PATCH 23/27] fix: a best-effort switch accepts requests that rely on
 requests it removes

---
 controller_manager/src/controller_manager.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index d7c6314..530bd9a 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2042,6 +2042,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
   // chained mode
   propagate_deactivation_of_chained_mode(controllers);
 
+  bool request_trimmed = false;
   // check if controllers should be switched 'to' chained mode when controllers are activated
   for (auto ctrl_it = switch_params_.activate_request.begin();
        ctrl_it != switch_params_.activate_request.end(); ++ctrl_it)
@@ -2121,6 +2122,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         switch_params_.activate_request.erase(ctrl_it);
         message.clear();
         --ctrl_it;
+        request_trimmed = true;
       }
       if (strictness == controller_manager_msgs::srv::SwitchController::Request::STRICT)
       {
@@ -2171,6 +2173,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         switch_params_.deactivate_request.erase(ctrl_it);
         message.clear();
         --ctrl_it;
+        request_trimmed = true;
       }
       if (strictness == controller_manager_msgs::srv::SwitchController::Request::STRICT)
       {
@@ -2182,6 +2185,17 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
     }
   }
 
+  // the remaining requests were checked together with the removed ones, check them on their own
+  if (request_trimmed)
+  {
+    const auto remaining_activate_request = switch_params_.activate_request;
+    const auto remaining_deactivate_request = switch_params_.deactivate_request;
+    clear_requests();
+    return switch_controller_cb(
+      remaining_activate_request, remaining_deactivate_request, strictness, activate_asap, timeout,
+      message);
+  }
+
   // Check after the check if the activate and deactivate list is empty or not
   if (switch_params_.activate_request.empty() && switch_params_.deactivate_request.empty())
   {
-- 
2.43.0


From 0f5056fad23f660d5b038a3aafee7f7405056928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:22 +0000
Subject: [PATCH 24/27] fix: reading a controller's state can overwrite the
 state of its next transition

---
 controller_interface/src/controller_interface_base.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index a654ad2..bd25187 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -312,7 +312,7 @@ const rclcpp_lifecycle::State & ControllerInterfaceBase::get_lifecycle_state() c
 
 uint8_t ControllerInterfaceBase::get_lifecycle_id() const
 {
-  const auto id = impl_->lifecycle_id_.load(std::memory_order_acquire);
+  auto id = impl_->lifecycle_id_.load(std::memory_order_acquire);
   if (
     id == lifecycle_msgs::msg::State::TRANSITION_STATE_ACTIVATING ||
     id == lifecycle_msgs::msg::State::TRANSITION_STATE_DEACTIVATING ||
@@ -322,7 +322,8 @@ uint8_t ControllerInterfaceBase::get_lifecycle_id() const
     id == lifecycle_msgs::msg::State::TRANSITION_STATE_ERRORPROCESSING)
   {
     const auto new_id = this->get_lifecycle_state().id();
-    impl_->lifecycle_id_.store(new_id, std::memory_order_release);
+    // another thread may have started the next transition since then, keep what it has stored
+    impl_->lifecycle_id_.compare_exchange_strong(id, new_id, std::memory_order_acq_rel);
     return new_id;
   }
   return id;
-- 
2.43.0


From 3771a97171ab8b4e55f0b3434f9633a3c714a75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:10 +0000
Subject: [PATCH 25/27] fix: preparing and performing a mode switch at the same
 time share buffers without a lock

---
 hardware_interface/src/resource_manager.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 3d5c7c3..7eb8b56 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -2188,12 +2188,13 @@ bool ResourceManager::prepare_command_mode_switch(
     return ret;
   };
 
+  // not the buffers of the storage, the real-time loop may use them at the same time
+  std::vector<std::string> start_interfaces_buffer;
+  std::vector<std::string> stop_interfaces_buffer;
   const bool actuators_result = call_prepare_mode_switch(
-    resource_storage_->actuators_, resource_storage_->start_interfaces_buffer_,
-    resource_storage_->stop_interfaces_buffer_);
+    resource_storage_->actuators_, start_interfaces_buffer, stop_interfaces_buffer);
   const bool systems_result = call_prepare_mode_switch(
-    resource_storage_->systems_, resource_storage_->start_interfaces_buffer_,
-    resource_storage_->stop_interfaces_buffer_);
+    resource_storage_->systems_, start_interfaces_buffer, stop_interfaces_buffer);
 
   return actuators_result && systems_result;
 }
-- 
2.43.0


From f7073c7d5f6ff22775dfb391359595abfa61c2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:18 +0000
Subject: [PATCH 26/27] fix: an asynchronous controller whose deactivation is
 rejected is never updated again

---
 .../controller_interface_base.hpp              |  6 ++++++
 .../src/controller_interface_base.cpp          |  5 +++++
 controller_manager/src/controller_manager.cpp  | 18 ++++++++++++++++++
 3 files changed, 29 insertions(+)

diff --git a/controller_interface/include/controller_interface/controller_interface_base.hpp b/controller_interface/include/controller_interface/controller_interface_base.hpp
index 7b3dc04..9a596ec 100644
--- a/controller_interface/include/controller_interface/controller_interface_base.hpp
+++ b/controller_interface/include/controller_interface/controller_interface_base.hpp
@@ -376,6 +376,12 @@ public:
    */
   void prepare_for_deactivation();
 
+  /**
+   * @brief Method to resume the update cycles of a controller that was prepared for deactivation,
+   * but stays active, e.g., as the switch was rejected by the hardware.
+   */
+  void cancel_deactivation();
+
   std::string get_name() const;
 
   /**
diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index bd25187..30d17f9 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -433,6 +433,11 @@ void ControllerInterfaceBase::prepare_for_deactivation()
   this->wait_for_trigger_update_to_finish();
 }
 
+void ControllerInterfaceBase::cancel_deactivation()
+{
+  impl_->skip_async_triggers_.store(false, std::memory_order_release);
+}
+
 void ControllerInterfaceBase::stop_async_handler_thread()
 {
   if (is_async() && impl_->async_handler_ && impl_->async_handler_->is_running())
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 530bd9a..2c93dbb 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2376,6 +2376,20 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
       controller_it->c->prepare_for_deactivation();
     }
   }
+  // the controllers that stay active after all have to be updated again
+  const auto resume_active_controllers = [this, &controllers]()
+  {
+    for (const auto & controller : switch_params_.deactivate_request)
+    {
+      auto controller_it = std::find_if(
+        controllers.begin(), controllers.end(),
+        std::bind(controller_name_compare, std::placeholders::_1, controller));
+      if (controller_it != controllers.end() && is_controller_active(controller_it->c))
+      {
+        controller_it->c->cancel_deactivation();
+      }
+    }
+  };
 
   if (
     !switch_params_.activate_command_interface_request.empty() ||
@@ -2387,6 +2401,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
     {
       message = "Could not switch controllers since prepare command mode switch was rejected.";
       RCLCPP_ERROR(get_logger(), "%s", message.c_str());
+      resume_active_controllers();
       clear_requests();
       return controller_interface::return_type::ERROR;
     }
@@ -2419,6 +2434,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         FMT_COMPILE("Switch controller timed out after {} seconds!"),
         static_cast<double>(switch_params_.timeout.count()) / 1e9);
       RCLCPP_ERROR(get_logger(), "%s", message.c_str());
+      resume_active_controllers();
       clear_requests();
       return controller_interface::return_type::ERROR;
     }
@@ -2434,6 +2450,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
           FMT_COMPILE("Switch controller timed out after {} seconds!"),
           static_cast<double>(switch_params_.timeout.count()) / 1e9);
         RCLCPP_ERROR(get_logger(), "%s", message.c_str());
+        resume_active_controllers();
         clear_requests();
         return controller_interface::return_type::ERROR;
       }
@@ -2459,6 +2476,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
   // clear unused list
   rt_controllers_wrapper_.get_unused_list(guard).clear();
 
+  resume_active_controllers();
   clear_requests();
 
   return switch_result;
-- 
2.43.0


From 7c83d68edc807c96661daae90f871c60af2be0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:04 +0000
Subject: [PATCH 27/27] fix: an update that an asynchronous controller misses
 counts as its last update

---
 controller_manager/src/controller_manager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 2c93dbb..e8a342e 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3544,7 +3544,10 @@ controller_interface::return_type ControllerManager::update(
           controller_ret = controller_interface::return_type::ERROR;
         }
 
-        *loaded_controller.last_update_cycle_time = current_time;
+        if (trigger_status)
+        {
+          *loaded_controller.last_update_cycle_time = current_time;
+        }
 
         if (controller_ret != controller_interface::return_type::OK)
         {
-- 
2.43.0


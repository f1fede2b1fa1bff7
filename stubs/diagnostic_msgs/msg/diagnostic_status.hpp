#pragma once
namespace diagnostic_msgs { namespace msg { struct DiagnosticStatus { static constexpr unsigned char OK=0, WARN=1, ERROR=2, STALE=3; unsigned char level=0; }; } }

#include "nv.hpp"
#include <utils/utils.hpp>
namespace nv {
// a failure surfaces as an exception, whatever the message
int impl_failure(const std::string& m) { nexit(m); return 1; }
int spec_failure(const std::string& m) { throw std::runtime_error(m); return 1; }
int impl_assertion(bool ok, const std::string& m) { nassert(ok, m); return 1; }
int spec_assertion(bool ok, const std::string& m) { if (!ok) throw std::runtime_error(m); return 1; }
}

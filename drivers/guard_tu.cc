// Not run: makes the extractor see scope_guard.h with one instance of its constructor template.
#include "scope_guard.h"
void verif_use_guard(std::function<void ()> f) { dcp::ScopeGuard a(f); dcp::ScopeGuard b(std::move(a)); b.cancel(); }

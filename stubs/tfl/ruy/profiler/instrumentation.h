#pragma once
namespace ruy { namespace profiler { class ScopeLabel { public: template <typename... Args> explicit ScopeLabel(Args... args) {} }; } }

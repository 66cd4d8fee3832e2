// Rules of a file, and the rules PDAAAL stored, in comparable form.
#pragma once
#include "adapt.hpp"
#include "jsonpa.hpp"
namespace jp {
using Ex = std::set<std::tuple<std::string, std::string, std::string, int, std::string, Wt>>; // rules per label, no-operation as swap
inline Ex expand(const Sys& y, const std::vector<std::string>& labels) {
    Ex e; for (auto& r : y.rules) { std::vector<std::string> pre{r.pre}; if (r.pre == "*") pre = labels; for (auto& p : pre) e.insert({r.from, p, r.to, r.op == NOOP ? model::SWAP : r.op, r.op == NOOP ? p : r.lab, r.w}); }
    return e;
}
template <class WT, class P> Ex stored(const P& p) {
    Ex e; auto nm = [&](size_t q) { if constexpr (std::is_same_v<typename P::expose_state_t, std::string>) return std::string(p.get_state(q)); else return std::to_string(q); };
    for (auto& r : p.all_rules()) {
        Wt w; if constexpr (!std::is_void_v<WT>) w = adapt::wconv<WT>::from(r._weight);
        int op = r._op == pdaaal::PUSH ? model::PUSH : r._op == pdaaal::POP ? model::POP : model::SWAP;
        e.insert({nm(r._from), r._pre, nm(r._to), op, op == model::POP ? "" : r._op == pdaaal::NOOP ? r._pre : r._op_label, w});
    }
    return e;
}
} // namespace jp

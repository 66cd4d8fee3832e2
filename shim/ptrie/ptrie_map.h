// Stand-in for the (not installed) ptrie library: same observable contract as ptrie::set_stable / ptrie::map
// for what PDAAAL uses: a set/map of byte strings with consecutive, stable ids.
// Implemented on std containers; written from PDAAAL's use of the API only.
#ifndef VERIF_SHIM_PTRIE_MAP_H
#define VERIF_SHIM_PTRIE_MAP_H
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <iterator>
#include <limits>
#include <numeric>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <deque>
#include <memory>
#include <functional>
#include <algorithm>

namespace ptrie {
    using uchar = unsigned char;
    template <typename KEY>
    struct byte_iterator {
        static constexpr uchar& access(KEY* data, size_t id) {
            return reinterpret_cast<uchar*>(data)[id];
        }
        static constexpr const uchar& const_access(const KEY* data, size_t id) {
            return reinterpret_cast<const uchar*>(data)[id];
        }
        static constexpr size_t element_size() { return sizeof(KEY); }
        static constexpr bool continious() { return true; }
    };

    namespace shim {
        template <typename KEY>
        class base {
            using bi = byte_iterator<KEY>;
            std::unordered_map<std::string, size_t> _ids;
            std::deque<std::string> _keys;
            static std::string pack(const KEY* data, size_t n) {
                std::string s;
                s.reserve(n * bi::element_size());
                for (size_t e = 0; e < n; ++e)
                    for (size_t i = 0; i < bi::element_size(); ++i)
                        s.push_back(static_cast<char>(bi::const_access(data + e, i)));
                return s;
            }
        protected:
            std::pair<bool, size_t> do_insert(const KEY* data, size_t n) {
                auto [it, fresh] = _ids.try_emplace(pack(data, n), _keys.size());
                if (fresh) _keys.push_back(it->first);
                return {fresh, it->second};
            }
            std::pair<bool, size_t> do_exists(const KEY* data, size_t n) const {
                auto it = _ids.find(pack(data, n));
                if (it == _ids.end()) return {false, std::numeric_limits<size_t>::max()};
                return {true, it->second};
            }
            bool do_erase(const KEY* data, size_t n) { return _ids.erase(pack(data, n)) > 0; }
        public:
            using elem_type_internal = KEY;
            size_t size() const { return _keys.size(); }
            size_t unpack(size_t id, KEY* dst) const {
                const auto& s = _keys.at(id);
                const size_t n = s.size() / bi::element_size();
                for (size_t e = 0; e < n; ++e)
                    for (size_t i = 0; i < bi::element_size(); ++i)
                        bi::access(dst + e, i) = static_cast<uchar>(s[e * bi::element_size() + i]);
                return n;
            }
            std::vector<KEY> unpack(size_t id) const {
                std::vector<KEY> res(_keys.at(id).size() / bi::element_size());
                if (!res.empty()) unpack(id, res.data());
                return res;
            }
            std::pair<bool, size_t> exists(const KEY& key) const { return do_exists(&key, 1); }
            std::pair<bool, size_t> exists(const std::vector<KEY>& key) const { return do_exists(key.data(), key.size()); }
            std::pair<bool, size_t> exists(const std::pair<const KEY*, size_t>& key) const { return do_exists(key.first, key.second); }
            std::pair<bool, size_t> exists(const KEY* data, size_t n) const { return do_exists(data, n); }
            bool erase(const KEY& key) { return do_erase(&key, 1); }
            bool erase(const std::vector<KEY>& key) { return do_erase(key.data(), key.size()); }
            bool erase(const std::pair<const KEY*, size_t>& key) { return do_erase(key.first, key.second); }
            bool erase(const KEY* data, size_t n) { return do_erase(data, n); }
        };
    }

    template <typename KEY, typename... Ignored>
    class set_stable : public shim::base<KEY> {
    public:
        set_stable() = default;
        std::pair<bool, size_t> insert(const KEY& key) { return this->do_insert(&key, 1); }
        std::pair<bool, size_t> insert(const std::vector<KEY>& key) { return this->do_insert(key.data(), key.size()); }
        std::pair<bool, size_t> insert(const std::pair<const KEY*, size_t>& key) { return this->do_insert(key.first, key.second); }
        std::pair<bool, size_t> insert(const KEY* data, size_t n) { return this->do_insert(data, n); }
    };
    template <typename KEY, typename... Ignored> using set = set_stable<KEY>;

    template <typename KEY, typename T, typename... Ignored>
    class map : public shim::base<KEY> {
        std::deque<T> _data;
        std::pair<bool, size_t> ins(const KEY* data, size_t n) {
            auto res = this->do_insert(data, n);
            if (res.first) _data.emplace_back();
            return res;
        }
    public:
        map() = default;
        map(map&&) = default;
        map(const map&) = default;
        map& operator=(map&&) = default;
        map& operator=(const map&) = default;
        std::pair<bool, size_t> insert(const KEY& key) { return ins(&key, 1); }
        std::pair<bool, size_t> insert(const std::vector<KEY>& key) { return ins(key.data(), key.size()); }
        std::pair<bool, size_t> insert(const std::pair<const KEY*, size_t>& key) { return ins(key.first, key.second); }
        std::pair<bool, size_t> insert(const KEY* data, size_t n) { return ins(data, n); }
        T& get_data(size_t id) { return _data.at(id); }
        const T& get_data(size_t id) const { return _data.at(id); }
        T& operator[](const KEY& key) { return _data[ins(&key, 1).second]; }
        T& operator[](const std::vector<KEY>& key) { return _data[ins(key.data(), key.size()).second]; }
        T& operator[](const std::pair<const KEY*, size_t>& key) { return _data[ins(key.first, key.second).second]; }
    };
}
#endif

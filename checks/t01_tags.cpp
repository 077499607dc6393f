// T01: the attribute store keeps every attribute exactly and shares equal ones.
#include <filesystem>
#include <map>
#include <set>
#include <osmium/builder/osm_object_builder.hpp>
#include <osmium/osm/node.hpp>
#include "types/io/helper/tag_helper.hpp"
#include "pbt.hpp"
namespace mm = map_matching_2;
using namespace pbt;
using Tag = std::pair<std::string, std::string>;
namespace st = mm::io::memory_mapped::storage;

struct Folder {
    std::string path = scratch() + "/tags";
    Folder() { std::filesystem::remove_all(path); }
    ~Folder() { std::filesystem::remove_all(path); }
};

template<typename H>
struct Store {
    static constexpr bool mmap = mm::io::helper::is_mmap_tag_helper<H>;
    std::string folder, file;
    std::unique_ptr<H> h;
    // what must be there
    std::map<Tag, std::uint64_t> ids;
    std::map<std::uint64_t, Tag> pairs;
    std::map<std::uint64_t, std::vector<Tag>> tags[2];
    bool finalized{false};

    Store(std::string folder, std::string file, std::size_t size) : folder{std::move(folder)}, file{std::move(file)} {
        if constexpr (mmap) h = std::make_unique<H>(typename H::tag_storage_type{this->folder, this->file, st::DESTROY_AND_CREATE, size, st::DO_NOT_DESTROY_ON_CLOSE, st::SHRINK_ON_CLOSE});
        else h = std::make_unique<H>();
    }
    void learn(const Tag &t, std::uint64_t id) {
        auto [it, fresh] = ids.emplace(t, id);
        require_eq(it->second, id, "identifier of ", t.first.substr(0, 20), "=", t.second.substr(0, 20));
        auto [jt, other] = pairs.emplace(id, t);
        require(jt->second == t, "two attributes share the identifier ", id);
    }
    void give(int road, std::uint64_t id, const std::vector<Tag> &ts) {
        if (not ts.empty()) tags[road].emplace(id, ts);
    }
    // reads everything back
    void verify() {
        for (int road = 0; road < 2; ++road) {
            for (std::uint64_t id : known[road]) {
                const auto &got = road ? h->edge_tags(id) : h->node_tags(id);
                const auto want = tags[road].contains(id) ? tags[road].at(id) : std::vector<Tag>{};
                require_eq(got.size(), want.size(), "number of attributes of ", road ? "road " : "node ", id);
                std::multiset<Tag> a, b(want.begin(), want.end());
                for (auto t : got) { const auto tag = h->tag(t); a.insert(tag); learn(tag, t); }
                require(a == b, "attributes of ", road ? "road " : "node ", id);
            }
        }
        for (auto &[id, t] : pairs) require(h->tag(id) == t, "attribute ", id, " changed");
        bool thrown = false;
        try { static_cast<void>(h->tag(1u << 30)); } catch (const std::invalid_argument &) { thrown = true; }
        require(thrown, "an unknown attribute is read");
    }
    std::set<std::uint64_t> known[2];
};

static std::vector<Tag> some(Src &s, const std::vector<Tag> &pool) {
    std::vector<Tag> r;
    for (std::size_t k = s.chance(10) ? 0 : s.size(1, 6); k > 0; --k) {
        const auto &t = s.pick(pool);
        if (std::find(r.begin(), r.end(), t) == r.end()) r.push_back(t);
    }
    return r;
}

template<typename A, typename B>
static void histories(Ctx &c) {
    auto &s = c.s;
    Folder folder;
    // the installed hash maps (Boost 1.83) keep plain pointers, so that files must not be mapped anew here
    const std::size_t size = 2 * 1024 * 1024;
    Store<A> a{folder.path, "a.bin", size};
    Store<B> b{folder.path, "b.bin", size};
    // texts, also such whose ends coincide
    std::vector<Tag> pool;
    const bool same_length = s.chance(20);
    const std::size_t prefix = same_length ? s.pick({0, 10, 30, 230}) : 0;
    for (std::size_t k = s.size(1, 40); k > 0; --k) {
        const auto word = [&] {
            std::string w;
            switch (same_length ? 4 : s.weighted({10, 50, 25, 15, 0})) {
                case 4: return std::string(prefix, 'x') + std::to_string(10000 + s.below(50000));
                case 0: return w;
                case 1: return "k" + std::to_string(s.below(12));
                case 2: for (std::size_t q = s.size(1, 20); q > 0; --q) w += static_cast<char>(s.range(1, 255)); return w;
                default: w = std::string(s.size(1, 250), 'x') + std::to_string(s.below(4)); return w;
            }
        };
        pool.push_back({word(), word()});
        if (s.chance(20)) pool.push_back({pool.back().second, pool.back().first});
    }
    std::size_t merges = 0, given = 0, repeated = 0;
    const auto unit = [&] { return s.chance(70) ? s.below(8) : s.below(200); };
    const auto act = [&](auto &x, auto &other) {
        auto &h = *x.h;
        const int road = s.flip();
        const std::uint64_t id = unit();
        x.known[road].insert(id);
        const bool had = x.tags[road].contains(id);
        switch (s.weighted({15, 25, 25, 20, 15})) {
            case 0: {
                const auto &t = s.pick(pool);
                c.note(" id(", t.first.substr(0, 10), ",", t.second.substr(0, 10), ")");
                x.learn(t, h.id(t.first, t.second));
                return;
            }
            case 1: { // by identifiers
                const auto ts = some(s, pool);
                std::vector<std::uint64_t> ids;
                for (auto &t : ts) ids.push_back(h.id(t.first, t.second)), x.learn(t, ids.back());
                c.note(road ? " copy road " : " copy node ", id, " ", ts.size());
                if (road) h.copy_edge_tags(id, ids); else h.copy_node_tags(id, ids);
                x.give(road, id, ts);
                break;
            }
            case 2: { // as in an extract
                const auto ts = some(s, pool);
                osmium::memory::Buffer buffer{1024, osmium::memory::Buffer::auto_grow::yes};
                {
                    osmium::builder::NodeBuilder nb{buffer};
                    osmium::builder::TagListBuilder tb{nb};
                    for (auto &[k, v] : ts) tb.add_tag(k, v);
                }
                buffer.commit();
                const auto &list = buffer.get<osmium::Node>(0).tags();
                c.note(road ? " set road " : " set node ", id, " ", ts.size());
                if (road) h.set_edge_tags(id, list); else h.set_node_tags(id, list);
                x.give(road, id, ts);
                break;
            }
            case 3: { // from the other store
                c.note(road ? " clone road " : " clone node ", id);
                other.known[road].insert(id);
                if (road) h.clone_edge_tags(id, *other.h); else h.clone_node_tags(id, *other.h);
                if (other.tags[road].contains(id)) x.give(road, id, other.tags[road].at(id));
                break;
            }
            default: { // of another road
                const std::uint64_t from = unit();
                x.known[1].insert(id), x.known[1].insert(from);
                c.note(" merge ", id, " ", from);
                h.merge_edge_tags(id, from);
                if (id != from and x.tags[1].contains(from)) {
                    auto &mine = x.tags[1][id];
                    merges += not mine.empty();
                    for (auto &t : x.tags[1].at(from)) if (std::find(mine.begin(), mine.end(), t) == mine.end()) mine.push_back(t);
                }
                return;
            }
        }
        had ? ++repeated : ++given;
    };
    for (std::size_t k = s.size(1, 60); k > 0; --k) {
        if (s.flip()) { c.note(" a"); act(a, b); } else { c.note(" b"); act(b, a); }
        if (s.chance(5)) a.verify(), b.verify();
    }
    a.verify(), b.verify();
    const auto end = [&](auto &x) {
        using H = std::remove_cvref_t<decltype(*x.h)>;
        const bool final = s.flip();
        const auto closed = [&] {
            bool thrown = false;
            try { static_cast<void>(x.h->id("one", "more")); } catch (const std::runtime_error &) { thrown = true; }
            require_eq(thrown, final, "a finalized store refuses attributes");
            x.verify();
        };
        if (final) x.h->finalize();
        closed();
        if (s.flip()) {
            auto moved = std::make_unique<H>(std::move(*x.h));
            x.h = std::move(moved);
            closed();
            for (auto &t : pool) if (not final) x.learn(t, x.h->id(t.first, t.second));
        }
    };
    end(a), end(b);
    if (merges) c.count("merges into existing attributes");
    if (repeated) c.count("attributes given twice");
    c.nontrivial(given >= 4);
}

using Memory = MM2_TAG_HELPER(MM2_MEMORY_TYPES);
using MemoryImport = MM2_IMPORT_TAG_HELPER(MM2_MEMORY_TYPES);
using File = MM2_TAG_HELPER(MM2_MMAP_TYPES);
using FileImport = MM2_IMPORT_TAG_HELPER(MM2_MMAP_TYPES);

void pbt::define(Suite &s) {
    s.property = "T01";
    const std::string rule = "up to 60 operations on two stores that clone from each other, up to 80 attributes with texts of 0 to 251 bytes; non-trivial: four objects got attributes";
    s.add("memory", rule, 80000, 2000000, histories<MemoryImport, Memory>);
    s.add("files", rule, 15000, 250000, histories<FileImport, File>);
    s.add("mixed", rule, 15000, 250000, histories<MemoryImport, File>);
}

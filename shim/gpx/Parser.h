// Stand-in for gpxlib (https://github.com/irdvo/gpxlib), which is not available offline: a small well-formedness
// checking XML reader that offers the handful of accessors map-matching-2 uses (tracks, segments, points, names).
#ifndef VERIF_SHIM_GPX_PARSER_H
#define VERIF_SHIM_GPX_PARSER_H
#include <istream>
#include <iterator>
#include <list>
#include <memory>
#include <string>
#include <cctype>

namespace gpx {
    class Node {
    public:
        [[nodiscard]] const std::string &getValue() const { return _v; }
        std::string _v;
    };
    template<typename T>
    class List {
    public:
        std::list<T *> &list() { return _l; }
        T *add() { _own.push_back(std::make_unique<T>()); _l.push_back(_own.back().get()); return _l.back(); }
    private:
        std::list<T *> _l;
        std::list<std::unique_ptr<T>> _own;
    };
    class WPT {
    public:
        Node &lon() { return _lon; }
        Node &lat() { return _lat; }
        Node &time() { return _time; }
        Node _lon, _lat, _time;
    };
    class TRKSeg {
    public:
        List<WPT> &trkpts() { return _p; }
        List<WPT> _p;
    };
    class TRK {
    public:
        Node &name() { return _name; }
        List<TRKSeg> &trksegs() { return _s; }
        Node _name;
        List<TRKSeg> _s;
    };
    class Metadata {
    public:
        Node &name() { return _name; }
        Node _name;
    };
    class GPX {
    public:
        List<TRK> &trks() { return _t; }
        Metadata &metadata() { return _m; }
        List<TRK> _t;
        Metadata _m;
    };
    class Parser {
    public:
        explicit Parser(void *) {}
        ~Parser() = default;
        [[nodiscard]] std::string errorText() const { return _err; }
        [[nodiscard]] int errorLineNumber() const { return _line; }
        [[nodiscard]] int errorColumnNumber() const { return 0; }

        GPX *parse(std::istream &in) {
            std::string d((std::istreambuf_iterator<char>(in)), {});
            _root = std::make_unique<GPX>();
            std::list<std::string> stack;
            std::string text;
            TRK *trk = nullptr; TRKSeg *seg = nullptr; WPT *pt = nullptr;
            auto path = [&] { std::string p; for (auto &s : stack) p += "/" + s; return p; };
            auto close = [&] {
                const auto p = path();
                const auto t = trim(unescape(text));
                if (p == "/gpx/metadata/name") _root->_m._name._v = t;
                else if (p == "/gpx/trk/name" && trk) trk->_name._v = t;
                else if (p == "/gpx/trk/trkseg/trkpt/time" && pt) pt->_time._v = t;
                stack.pop_back();
                text.clear();
            };
            std::size_t i = 0;
            bool seen_root = false;
            while (i < d.size()) {
                if (d[i] != '<') { text += d[i]; if (d[i] == '\n') ++_line; ++i; continue; }
                if (d.compare(i, 4, "<!--") == 0) {
                    auto e = d.find("-->", i); if (e == std::string::npos) return fail("unterminated comment");
                    i = e + 3; continue;
                }
                if (d.compare(i, 2, "<?") == 0) {
                    auto e = d.find("?>", i); if (e == std::string::npos) return fail("unterminated declaration");
                    i = e + 2; continue;
                }
                auto e = d.find('>', i);
                if (e == std::string::npos) return fail("unterminated tag");
                std::string tag = d.substr(i + 1, e - i - 1);
                i = e + 1;
                if (!tag.empty() && tag[0] == '/') {
                    if (stack.empty() || stack.back() != trim(tag.substr(1))) return fail("mismatched tag");
                    close();
                    continue;
                }
                bool self = !tag.empty() && tag.back() == '/';
                if (self) tag.pop_back();
                std::size_t n = 0;
                while (n < tag.size() && !std::isspace(static_cast<unsigned char>(tag[n]))) ++n;
                if (n == 0) return fail("empty tag");
                if (stack.empty() && seen_root) return fail("junk after document element");
                seen_root = true;
                stack.push_back(tag.substr(0, n));
                text.clear();
                const auto p = path();
                if (p == "/gpx/trk") trk = _root->_t.add();
                else if (p == "/gpx/trk/trkseg" && trk) seg = trk->_s.add();
                else if (p == "/gpx/trk/trkseg/trkpt" && seg) {
                    pt = seg->_p.add();
                    pt->_lon._v = attr(tag, "lon");
                    pt->_lat._v = attr(tag, "lat");
                }
                if (self) close();
            }
            if (!stack.empty() || !seen_root) return fail("no element found");
            return _root.get();
        }
    private:
        std::unique_ptr<GPX> _root;
        std::string _err;
        int _line{1};
        GPX *fail(const char *m) { _err = m; _root.reset(); return nullptr; }
        static std::string trim(const std::string &s) {
            auto b = s.find_first_not_of(" \t\r\n"); if (b == std::string::npos) return "";
            return s.substr(b, s.find_last_not_of(" \t\r\n") - b + 1);
        }
        static std::string unescape(std::string s) {
            static const char *m[][2] = {{"&lt;", "<"}, {"&gt;", ">"}, {"&quot;", "\""}, {"&apos;", "'"}, {"&amp;", "&"}};
            for (auto &x : m)
                for (std::size_t p = 0; (p = s.find(x[0], p)) != std::string::npos; p += 1)
                    s.replace(p, std::string(x[0]).size(), x[1]);
            return s;
        }
        static std::string attr(const std::string &tag, const std::string &name) {
            for (char q : {'"', '\''}) {
                auto p = tag.find(" " + name + "=" + q);
                if (p != std::string::npos) {
                    auto b = p + name.size() + 3;
                    auto e = tag.find(q, b);
                    if (e != std::string::npos) return unescape(tag.substr(b, e - b));
                }
            }
            return "";
        }
    };
}
#endif

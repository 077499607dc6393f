// Stand-in for the csv-parser library (https://github.com/vincentlaucsb/csv-parser), which is not available offline.
// It implements the small part of its interface that map-matching-2 uses, with the same semantics:
//  * the first row is the header unless no_header() was called,
//  * with a header, rows with a different number of columns are ignored; without one they are kept,
//  * quoted fields with doubled quotes, CRLF and LF line ends, blank lines are skipped,
//  * access to an unknown column throws, access beyond the last field throws,
//  * DelimWriter quotes a field when it contains the delimiter, the quote or a line break.
#ifndef VERIF_SHIM_CSV_HPP
#define VERIF_SHIM_CSV_HPP
#include <iostream>
#include <algorithm>
#include <charconv>
#include <cstdint>
#include <fstream>
#include <iterator>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

namespace csv {

    class CSVFormat {
    public:
        CSVFormat() = default;
        CSVFormat &delimiter(char c) { _delims = {c}; return *this; }
        CSVFormat &delimiter(const std::vector<char> &d) { _delims = d; return *this; }
        CSVFormat &quote(char q) { _quote = q; return *this; }
        CSVFormat &no_header() { _no_header = true; return *this; }
        [[nodiscard]] const std::vector<char> &delims() const { return _delims; }
        [[nodiscard]] bool has_header() const { return !_no_header; }
        [[nodiscard]] char quote_char() const { return _quote; }
    private:
        std::vector<char> _delims{','};
        char _quote{'"'};
        bool _no_header{false};
    };

    class CSVField {
    public:
        explicit CSVField(std::string_view s) : _s{s} {}
        template<typename T = std::string>
        T get() const {
            if constexpr (std::is_same_v<T, std::string>) {
                return std::string(_s);
            } else if constexpr (std::is_same_v<T, std::string_view>) {
                return _s;
            } else {
                static_assert(std::is_arithmetic_v<T>);
                std::string s(_s);
                std::size_t b = s.find_first_not_of(" \t"), e = s.find_last_not_of(" \t");
                if (b == std::string::npos) throw std::runtime_error("Not a number.");
                s = s.substr(b, e - b + 1);
                if constexpr (std::is_floating_point_v<T>) {
                    std::size_t pos = 0;
                    T v;
                    try { if constexpr (std::is_same_v<T, double>) v = std::stod(s, &pos); else v = static_cast<T>(std::stold(s, &pos)); } catch (const std::exception &) {
                        throw std::runtime_error("Not a number.");
                    }
                    if (pos != s.size()) throw std::runtime_error("Not a number.");
                    return v;
                } else {
                    T v{};
                    auto r = std::from_chars(s.data(), s.data() + s.size(), v);
                    if (r.ec == std::errc::result_out_of_range)
                        throw std::runtime_error("Overflow error.");
                    if (r.ec != std::errc{} || r.ptr != s.data() + s.size())
                        throw std::runtime_error("Not a number.");
                    return v;
                }
            }
        }
        [[nodiscard]] bool is_null() const { return _s.find_first_not_of(" \t") == std::string_view::npos; }
    private:
        std::string_view _s;
    };

    class CSVRow {
    public:
        CSVRow() = default;
        CSVRow(std::vector<std::string> f, std::shared_ptr<std::vector<std::string>> c)
            : _fields{std::move(f)}, _cols{std::move(c)} {}
        CSVField operator[](std::size_t n) const {
            if (n >= _fields.size()) throw std::runtime_error("Index out of bounds.");
            return CSVField{_fields[n]};
        }
        CSVField operator[](const std::string &name) const {
            auto it = std::find(_cols->begin(), _cols->end(), name);
            if (it == _cols->end()) throw std::runtime_error("Can't find a column named " + name);
            return (*this)[static_cast<std::size_t>(it - _cols->begin())];
        }
        [[nodiscard]] std::size_t size() const { return _fields.size(); }
        [[nodiscard]] std::vector<std::string> get_col_names() const { return *_cols; }
    private:
        std::vector<std::string> _fields;
        std::shared_ptr<std::vector<std::string>> _cols;
    };

    class CSVReader {
    public:
        CSVReader(const std::string &filename, const CSVFormat &format) {
            std::ifstream in(filename, std::ios::binary);
            if (!in) throw std::runtime_error("Cannot open file " + filename);
            std::string data((std::istreambuf_iterator<char>(in)), {});
            if (data.starts_with("\xEF\xBB\xBF")) data.erase(0, 3);
            char delim = format.delims().empty() ? ',' : format.delims().front();
            std::vector<std::vector<std::string>> rows;
            if (format.delims().size() > 1) {
                std::size_t best = 0;
                for (char d : format.delims()) {
                    auto r = parse(data, d, format.quote_char());
                    std::size_t score = 0;
                    for (auto &x : r) if (x.size() > 1) score += x.size();
                    if (score > best) { best = score; delim = d; }
                }
            }
            rows = parse(data, delim, format.quote_char());
            auto it = rows.begin();
            if (format.has_header() && it != rows.end()) *_cols = *it++;
            for (; it != rows.end(); ++it) {
                if (format.has_header() && it->size() != _cols->size()) continue;
                _rows.emplace_back(std::move(*it), _cols);
            }
        }
        [[nodiscard]] std::vector<std::string> get_col_names() const { return *_cols; }
        auto begin() { return _rows.begin(); }
        auto end() { return _rows.end(); }
    private:
        std::shared_ptr<std::vector<std::string>> _cols = std::make_shared<std::vector<std::string>>();
        std::vector<CSVRow> _rows;

        static std::vector<std::vector<std::string>> parse(const std::string &d, char delim, char quote) {
            std::vector<std::vector<std::string>> rows;
            std::vector<std::string> row;
            std::string f;
            bool in_q = false, any = false, was_q = false;
            auto end_field = [&] { row.push_back(f); f.clear(); was_q = false; };
            auto end_row = [&] {
                if (any) { end_field(); rows.push_back(row); }
                row.clear(); f.clear(); any = false; was_q = false;
            };
            for (std::size_t i = 0; i < d.size(); ++i) {
                char c = d[i];
                if (in_q) {
                    if (c == quote) {
                        if (i + 1 < d.size() && d[i + 1] == quote) { f += quote; ++i; }
                        else in_q = false;
                    } else f += c;
                } else if (c == quote && f.empty() && !was_q) { in_q = true; was_q = true; any = true; }
                else if (c == delim) { any = true; end_field(); }
                else if (c == '\n' || c == '\r') end_row();
                else { f += c; any = true; }
            }
            end_row();
            return rows;
        }
    };

    template<class OutputStream, char Delim, char Quote, bool Flush>
    class DelimWriter {
    public:
        explicit DelimWriter(OutputStream &o) : _out{o} {}
        template<typename Range>
        DelimWriter &operator<<(const Range &record) {
            bool first = true;
            for (const auto &raw : record) {
                if (!first) _out << Delim;
                first = false;
                std::string s(raw);
                if (s.find(Quote) != std::string::npos || s.find(Delim) != std::string::npos ||
                    s.find('\n') != std::string::npos || s.find('\r') != std::string::npos) {
                    _out << Quote;
                    for (char c : s) { if (c == Quote) _out << Quote; _out << c; }
                    _out << Quote;
                } else _out << s;
            }
            _out << "\n";
            if constexpr (Flush) _out.flush();
            return *this;
        }
    private:
        OutputStream &_out;
    };
}
#endif

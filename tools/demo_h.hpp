// Helpers of the demonstrations: in-memory readers and rendering of everything a parser yields.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include <log_surgeon/BufferParser.hpp>
#include <log_surgeon/LogEvent.hpp>
#include <log_surgeon/ReaderParser.hpp>
#include <log_surgeon/SchemaParser.hpp>
using namespace log_surgeon;

struct Src {
    std::string in;
    size_t p{0};
    size_t chunk{0};
};

inline Reader mem(Src& s) {
    return Reader{[&s](char* b, size_t n, size_t& got) -> ErrorCode {
        got = std::min(s.chunk ? std::min(n, s.chunk) : n, s.in.size() - s.p);
        std::memcpy(b, s.in.data() + s.p, got);
        s.p += got;
        return got ? ErrorCode::Success : ErrorCode::EndOfFile;
    }};
}

inline std::string const ts_schema
        = "delimiters: \\n\\r\\t :,\ntimestamp:\\d{4}\\-\\d{2}\nint:\\d+\nkv:k=(?<v>[a-z]+)\n";

inline std::string dump(LogEventView const& e, bool lines = true) {
    std::ostringstream o;
    auto& b = *e.m_log_output_buffer;
    o << "[ts=" << b.has_timestamp() << " ml=" << e.is_multiline() << "]";
    for (uint32_t i = b.has_timestamp() ? 0 : 1; i < b.pos(); i++) {
        auto& t = const_cast<Token&>(b.get_token(i));
        o << " <" << t.to_string() << "|" << t.m_type_ids_ptr->at(0);
        if (lines) {
            o << "|" << t.m_line;
        }
        o << ">";
    }
    return o.str();
}

// everything a ReaderParser yields for an input
inline std::vector<std::string> all(ReaderParser& rp, Src& s, bool lines = true, std::string* text = nullptr) {
    std::vector<std::string> out;
    s.p = 0;
    auto r = mem(s);
    rp.reset_and_set_reader(r);
    for (int n = 0; false == rp.done() && n < 200000; n++) {
        auto e = rp.parse_next_event();
        if (ErrorCode::Success != e) {
            out.push_back("error " + std::to_string((int)e));
            break;
        }
        auto const& v = rp.get_log_parser().get_log_event_view();
        out.push_back(dump(v, lines));
        if (text) {
            *text += v.to_string();
        }
    }
    return out;
}

inline std::vector<std::string> all(std::string const& schema, std::string const& in, bool lines = true, std::string* text = nullptr) {
    ReaderParser rp{SchemaParser::try_schema_string(schema)};
    Src s{in};
    return all(rp, s, lines, text);
}

inline bool eq(std::vector<std::string> const& a, std::vector<std::string> const& b) {
    if (a == b) {
        return true;
    }
    for (size_t i = 0; i < std::max(a.size(), b.size()); i++) {
        std::string x = i < a.size() ? a[i] : "-", y = i < b.size() ? b[i] : "-";
        if (x != y) {
            std::cout << "event " << i << ": " << x.substr(0, 300) << "  !=  " << y.substr(0, 300) << "\n";
            break;
        }
    }
    return false;
}

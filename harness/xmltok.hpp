// A plain XML tokenizer, independent of the one under test.
#ifndef VERIF_XMLTOK_HPP
#define VERIF_XMLTOK_HPP

#include <cstdlib>
#include <string>
#include <vector>

namespace xmltok {

struct Token {
    std::string element, attribute, value;   // attribute "": the start of the element, "#": text; element "/": an end

    bool operator==(const Token& o) const { return element == o.element && attribute == o.attribute && value == o.value; }
};

inline std::string decodeEntities(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '&') { r += s[i]; continue; }
        size_t e = s.find(';', i);
        std::string n = s.substr(i + 1, e - i - 1);
        if (n == "lt") r += '<'; else if (n == "gt") r += '>'; else if (n == "amp") r += '&'; else if (n == "quot") r += '"'; else if (n == "apos") r += '\'';
        else if (n.substr(0, 2) == "#x") r += static_cast<char>(std::strtol(n.c_str() + 2, nullptr, 16)); else r += static_cast<char>(std::atoi(n.c_str() + 1));
        i = e;
    }
    return r;
}

inline std::vector<Token> tokens(const std::string& xml) {
    std::vector<Token> r;
    std::vector<std::string> open;
    size_t p = 0;
    while (p < xml.size()) {
        size_t q = xml.find('<', p);
        std::string text = xml.substr(p, q == std::string::npos ? q : q - p);
        if (!open.empty() && !text.empty() && (open.back() == "iidm:alias" || text.find_first_not_of(" \n") != std::string::npos)) r.push_back({open.back(), "#", decodeEntities(text)});
        if (q == std::string::npos) break;
        size_t e = q + 1;
        if (xml[e] == '?') { p = xml.find("?>", e) + 2; continue; }
        if (xml[e] == '/') { p = xml.find('>', e) + 1; if (!open.empty()) open.pop_back(); r.push_back({"/", "", ""}); continue; }
        size_t n = xml.find_first_of(" />\n", e);
        std::string name = xml.substr(e, n - e);
        open.push_back(name);
        r.push_back({name, "", ""});
        while (true) {
            n = xml.find_first_not_of(" \n", n);
            if (xml[n] == '>') { p = n + 1; break; }
            if (xml[n] == '/') { p = n + 2; open.pop_back(); r.push_back({"/", "", ""}); break; }
            size_t eq = xml.find('=', n);
            size_t end = xml.find('"', eq + 2);
            r.push_back({name, xml.substr(n, eq - n), decodeEntities(xml.substr(eq + 2, end - eq - 2))});
            n = end + 1;
        }
    }
    return r;
}

}  // namespace xmltok

#endif

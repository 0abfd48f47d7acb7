// S04: the path helpers split every path at its last separator.
#include "elem.h"
#include <rpp/base.h>
using namespace rpp;
using namespace el;
// one path: the three helpers against the definition
static void one(mc::Ctx& c, const std::string& p) {
    size_t n = p.size();
    u8* e = (u8*)malloc(n ? n : 1);
    memcpy(e, p.data(), n);
    String_View v = n ? String_View{e, n} : String_View{};
    size_t sep = p.find_last_of("/\\"), dot = p.find_last_of("./\\");
    std::string suffix = sep == std::string::npos ? p : p.substr(sep + 1);
    std::string dir = sep == std::string::npos ? "" : p.substr(0, sep + 1);
    std::string ext = dot == std::string::npos ? p : p.substr(dot + 1);
    auto str = [](String_View s) { return std::string((const char*)s.data(), s.length()); };
    auto brief = [](const std::string& s) { return s.size() <= 40 ? s : s.substr(0, 18) + "..." + s.substr(s.size() - 18) + " (" + std::to_string(s.size()) + ")"; };
    auto is = [&](const char* what, String_View got, const std::string& want) {
        if(str(got) != want) mc::fail("%s of \"%s\" is \"%s\"", what, brief(p).c_str(), brief(str(got)).c_str());
        if(want.size() && (got.data() < e || got.data() + got.length() > e + n)) mc::fail("%s of \"%s\" is not part of it", what, brief(p).c_str());
    };
    is("file_suffix", v.file_suffix(), suffix);
    is("remove_file_suffix", v.remove_file_suffix(), dir);
    is("file_extension", v.file_extension(), ext);
    // the parts of parts
    is("file_extension of the file_suffix", v.file_suffix().file_extension(), ext);
    is("remove_file_suffix of the directory", v.remove_file_suffix().remove_file_suffix(), dir);
    is("file_suffix of the directory", v.remove_file_suffix().file_suffix(), "");
    c.op("%s", brief(p).c_str());
    c.state(mc::hash_bytes(p.data(), p.size()));
    free(e);
}
static void paths(mc::Ctx& c) {
    static const char kA[] = {'a', '.', '/', '\\', 0, (char)0xff};
    int na = 4;
    u32 maxlen = (u32)c.tier(7, 9);
    std::string p;
    u32 n = c.choose(maxlen + 1, "length");
    for(u32 i = 0; i < n; i++) p += kA[c.choose(n <= 4 ? 6 : na, "char")];
    one(c, p);
}
// every byte value around the separators: only these three characters mean anything
static void bytes(mc::Ctx& c) {
    static const char* kForms[] = {"?", "a?b", "/?", "?/", "a/?", "?.b", "a.?", "a/b?c.d", "a/b.c?d", "\\?.", "??", "a?/b?"};
    std::string p = kForms[c.choose(12, "form")];
    u32 b = c.choose(256, "byte");
    for(char& x : p)
        if(x == '?') x = (char)b;
    one(c, p);
}
// long paths, with marks at every place that a narrow counter or a fixed window could miss
static void longs(mc::Ctx& c) {
    static const u32 kLen[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70001, 131075};
    u32 n = kLen[c.choose(34, "length")];
    u32 m = c.choose(4, "fill");
    std::string p(n, m == 0 ? 'a' : m == 1 ? '/' : m == 2 ? '.' : '\\');
    auto place = [&](const char* w) -> u32 {
        static const int kAt[] = {0, 1, 127, 128, 255, 256, 257, 4095, 4096, 32768, 65535, 65536, 65537};
        u32 k = c.choose(20, w);
        if(k == 0) return n; // none
        if(k <= 13) return kAt[k - 1];
        static const int kBack[] = {1, 2, 3, 255, 256, 257};
        return n < (u32)kBack[k - 14] ? n : n - kBack[k - 14];
    };
    static const char kMark[] = {'/', '.', 'a', '\\'};
    for(int i = 0; i < 2; i++) {
        u32 at = place(i ? "second" : "first");
        char x = kMark[c.choose(i || n > 5000 ? 3 : 4, "mark")];
        if(at < n) p[at] = x;
    }
    one(c, p);
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "S04";
    m.bounds = "every path of up to 7 (thorough 9) characters over {a . / \\}, up to 4 over those and bytes 0 and 0xff; every byte in 12 surroundings; 34 lengths up to 131075 filled with each kind of character with two other characters at up to 19 places each";
    m.add("paths", paths, 3);
    m.add("bytes", bytes, 1);
    m.add("longs", longs, 3);
    return m.run(argc, argv);
}

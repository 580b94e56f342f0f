// any bytes as an ini file
#include "common.h"
#include "fisx_simpleini.h"

using namespace fisx;
static const char GOOD[] = "[a]\nx = 1\ny = 2, 3\n[a.b]\nz = \"q # r\"\n";

static void walk(SimpleIni & ini, size_t size)
{
    std::vector<std::string> sections = ini.getSections(), sub;
    EXPECT(sections.size() <= size, "number of sections");
    ini.getSubsections("", sub);
    EXPECT(sub == sections, "subsections of nothing");
    for (size_t i = 0; i < sections.size() && i < 60; i++)
    {
        const std::string & name = sections[i];
        EXPECT(name.size() > 0, "section without name");
        std::map<std::string, std::string> a = ini.readSection(name, true), b = ini.readSection(name, false);
        // (with sections that only differ by case there is no saying which one is meant when case does not matter)
        size_t same = 0;
        for (size_t j = 0; j < sections.size(); j++)
        {
            std::string u1 = name, u2 = sections[j];
            SimpleIni::toUpper(u1);
            SimpleIni::toUpper(u2);
            same += (u1 == u2);
        }
        EXPECT(same > 1 || a == b, "section read with and without case");
        std::map<std::string, std::string>::const_iterator it;
        size_t total = 0;
        for (it = a.begin(); it != a.end(); ++it)
        {
            EXPECT(it->first.size() > 0, "key without name");
            total += it->first.size() + it->second.size();
            std::vector<double> d; std::vector<int> k; std::vector<std::string> s; double v; int w;
            SimpleIni::parseStringAsMultipleValues(it->second, d, -1.0);
            SimpleIni::parseStringAsMultipleValues(it->second, k, -1);
            SimpleIni::parseStringAsMultipleValues(it->second, s, std::string());
            EXPECT(d.size() == k.size() && d.size() == s.size(), "number of items");
            SimpleIni::parseStringAsSingleValue(it->second, v, -1.0);
            SimpleIni::parseStringAsSingleValue(it->second, w, -1);
        }
        EXPECT(total <= size, "a section larger than the file");
        std::string up = name;
        SimpleIni::toUpper(up);
        CLEAN(ini.readSection(up, false));
        CLEAN(ini.getSubsections(name, sub, true));
        CLEAN(ini.getSubsections(up, sub, false));
        for (size_t j = 0; j < sub.size(); j++)
        {
            EXPECT(sub[j].size() > name.size() && sub[j][name.size()] == '.', "name of a subsection");
        }
    }
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t * data, size_t size)
{
    static ScratchFile f, g;
    static const std::string good = g.set(GOOD, sizeof(GOOD) - 1);
    SimpleIni ini;
    bool ok = true;
    try { ini.readFileName(f.set(data, size)); } catch (const std::exception &) { ok = false; }
    // also after a rejected file
    walk(ini, size + 1);
    if (ok)
    {
        SimpleIni other(f.path);
        EXPECT(other.getSections() == ini.getSections(), "file read twice");
        for (size_t i = 0; i < other.getSections().size(); i++)
            EXPECT(other.readSection(other.getSections()[i], true) == ini.readSection(other.getSections()[i], true), "file read twice");
    }
    ini.readFileName(good);
    EXPECT(ini.getSections().size() == 2, "sections of the good file");
    EXPECT(ini.readSection("a").size() == 2 && ini.readSection("A", false).size() == 2 && ini.readSection("A", true).size() == 0, "keys of the good file");
    EXPECT(ini.readSection("a.b").at("z").find("q # r") != std::string::npos, "value of the good file");
    return 0;
}

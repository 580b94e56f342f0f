// any bytes as one of the data files of the library (first byte: which)
#include "common.h"
#include <sys/stat.h>
#include <cmath>
#include "fisx_elements.h"
#include "fisx_epdl97.h"
#include "fisx_xrf.h"

using namespace fisx;
typedef std::map<std::string, double> Map;

// a directory with the given cross sections and the binding energies of the data directory
struct Directory
{
    std::string path;
    Directory(const std::string & data, const std::string & cross)
    {
        const char * t = getenv("TMPDIR");
        path = std::string(t ? t : "/tmp") + "/vfxdir." + std::to_string(getpid());
        mkdir(path.c_str(), 0700);
        if (symlink(cross.c_str(), (path + "/EPDL97_CrossSections.dat").c_str()) && errno != EEXIST) _exit(99);
        if (symlink((data + "/EADL97_BindingEnergies.dat").c_str(), (path + "/EADL97_BindingEnergies.dat").c_str()) && errno != EEXIST) _exit(99);
    }
    ~Directory()
    {
        unlink((path + "/EPDL97_CrossSections.dat").c_str());
        unlink((path + "/EADL97_BindingEnergies.dat").c_str());
        rmdir(path.c_str());
    }
};

static void ask(EPDL97 & e)
{
    static const int zs[5] = {0, 1, 26, 99, 120};
    static const double energies[4] = {0.0005, 1.3, 30.0, 1000.0};
    for (int i = 0; i < 5; i++)
    {
        CLEAN(e.getBindingEnergies(zs[i]));
        CLEAN(e.getMassAttenuationCoefficients(zs[i]));
        for (int j = 0; j < 4; j++)
        {
            CLEAN(e.getPhotoelectricWeights(zs[i], energies[j]));
            CLEAN(Map m = e.getMassAttenuationCoefficients(zs[i], energies[j]); EXPECT(m.count("total") == 1, "no total"));
        }
    }
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t * data, size_t size)
{
    static ScratchFile f;
    static const std::string dir(getenv("FISX_FUZZ_DATA") ? getenv("FISX_FUZZ_DATA") : "");
    static const Elements base(dir);
    static const EPDL97 tables(dir);
    static const std::map<std::string, std::map<std::string, double> > reference = base.getExcitationFactors("Pb", 30.0);
    static const Map mu = tables.getMassAttenuationCoefficients(26, 30.0);
    if (size < 1) return 0;
    int kind = data[0] % 12;
    f.set(data + 1, size - 1);
    if (kind == 10)
    {
        EPDL97 e(tables);
        CLEAN(e.loadBindingEnergies(f.path));
        ask(e);
        EPDL97 n;
        CLEAN(n.loadBindingEnergies(f.path));
        ask(n);
        if (!one_of(32, data, size)) return 0;
    }
    if (kind == 11)
    {
        // at least 99 scans are needed: what precedes the first \1 is repeated, what follows comes once
        static Directory helper(dir, f.path);
        std::string text((const char *) data + 1, size - 1), rest;
        size_t p = text.find('\1');
        if (p != std::string::npos) { rest = text.substr(p + 1); text.resize(p); }
        std::string all;
        for (int i = 0; i < 100 && all.size() < 400000; i++) all += text + "\n";
        all += rest;
        f.set(all.data(), all.size());
        EPDL97 e(tables), n;
        bool ok = false;
        CLEAN(e.setDataDirectory(helper.path); ok = true);
        if (ok) ask(e);
        else EXPECT(e.getMassAttenuationCoefficients(26, 30.0) == mu, "a rejected directory changes the table");
        CLEAN(n.setDataDirectory(helper.path));
        ask(n);
        return 0;
    }
    Elements lib(base);
    static const char * shells[3] = {"K", "L", "M"};
    if (kind < 3)
        CLEAN(lib.setShellConstantsFile(shells[kind], f.path));
    else if (kind < 6)
        CLEAN(lib.setShellRadiativeTransitionsFile(shells[kind - 3], f.path));
    else if (kind < 9)
        CLEAN(lib.setShellNonradiativeTransitionsFile(shells[kind - 6], f.path));
    else if (kind == 9)
        CLEAN(lib.setMassAttenuationCoefficientsFile(f.path));
    else
        CLEAN(Elements other(dir, f.path, ""); other.getExcitationFactors("Pb", 30.0));
    // whatever was loaded, calculations answer
    static const char * names[4] = {"H", "Fe", "Pb", "U"};
    for (int i = 0; i < 4; i++)
    {
        CLEAN(lib.getExcitationFactors(names[i], i % 2 ? 30.0 : 5.0));
        CLEAN(lib.getMassAttenuationCoefficients(names[i], 12.0));
        CLEAN(lib.getMassAttenuationCoefficients(names[i]));
        CLEAN(lib.getEmittedXRayLines(names[i], 100.));
        CLEAN(lib.getShellConstants(names[i], "L1"));
    }
    CLEAN(lib.getEscape(lib.getComposition(names[one_of(2, data, size)]), 10.0));
    if (!one_of(4, data, size)) return 0;
    EXPECT(base.getExcitationFactors("Pb", 30.0) == reference, "another library changed");
    // the good file again (shell constants are documented as only overwritten)
    if (kind >= 3 && kind < 9)
    {
        const std::string path = dir + "/EADL97_" + shells[kind % 3] + (kind < 6 ? "ShellRadiativeRates.dat" : "ShellNonradiativeRates.dat");
        if (kind < 6) lib.setShellRadiativeTransitionsFile(shells[kind % 3], path);
        else lib.setShellNonradiativeTransitionsFile(shells[kind % 3], path);
        EXPECT(lib.getExcitationFactors("Pb", 30.0) == reference, "the good file does not restore the library");
    }
    return 0;
}

// any text as formula, element, material, shell or transition name, in sequences of calls on one library
#include "common.h"
#include "fisx_elements.h"
#include "fisx_layer.h"
#include "fisx_xrf.h"
#include "fisx_math.h"

using namespace fisx;
typedef std::map<std::string, double> Map;

static std::vector<std::string> split(const std::string & s, char sep)
{
    std::vector<std::string> out(1);
    for (size_t i = 0; i < s.size(); i++)
    {
        if (s[i] == sep) out.push_back("");
        else out.back() += s[i];
    }
    return out;
}

static bool normal(const Map & m)
{
    double total = 0;
    for (Map::const_iterator it = m.begin(); it != m.end(); ++it)
    {
        if (!(it->second >= 0.0)) return false;
        total += it->second;
    }
    return m.size() == 0 || (total > 0.999999 && total < 1.000001);
}

static void setup(XRF & xrf)
{
    std::vector<Layer> sample;
    sample.push_back(Layer("FeS2", 5.0, 0.01));
    sample.push_back(Layer("Pb", 11.0, 0.01));
    xrf.setSingleEnergyBeam(20.0);
    xrf.setSample(sample);
    xrf.setGeometry(45., 45.);
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t * data, size_t size)
{
    static const Elements base(getenv("FISX_FUZZ_DATA") ? getenv("FISX_FUZZ_DATA") : "");
    static const std::map<std::string, double> water = base.getComposition("H2O");
    static const std::map<std::string, std::map<std::string, double> > escape = base.getEscape(base.getComposition("CdTe"), 35.0);
    static std::map<std::string, std::map<int, std::map<std::string, std::map<std::string, double> > > > reference;
    if (reference.empty())
    {
        XRF xrf;
        setup(xrf);
        reference = xrf.getMultilayerFluorescence(split("Fe K|S K|Pb L", '|'), base, 0, 0, 1);
    }
    Elements lib(base);
    Element element(base.getElement("Pb"));
    Shell shell("L1");
    XRF xrf;
    setup(xrf);
    std::vector<std::string> lines = split(std::string((const char *) data, size), '\n');
    for (size_t n = 0; n < lines.size() && n < 12; n++)
    {
        if (lines[n].empty()) continue;
        char op = lines[n][0];
        std::vector<std::string> a = split(lines[n].substr(1), '\t');
        const std::string t = a[0], u = a.size() > 1 ? a[1] : std::string("K");
        Map m;
        for (size_t i = 0; i < a.size(); i++)
        {
            double value = 1.0;
            size_t p = a[i].find('=');
            if (p != std::string::npos) value = atof(a[i].c_str() + p + 1);
            if (Math::isFiniteNumber(value)) m[a[i].substr(0, p)] = value;
        }
        switch (op)
        {
        case 'f':
            CLEAN(Map c = lib.parseFormula(t); for (Map::iterator it = c.begin(); it != c.end(); ++it) EXPECT(it->second > 0.0, "amount of a formula"));
            CLEAN(EXPECT(normal(lib.getCompositionFromFormula(t)), "composition of a formula"));
            CLEAN(EXPECT(normal(lib.getComposition(t)), "composition of a name"));
            break;
        case 'e':
            CLEAN(lib.isElementNameDefined(t));
            CLEAN(lib.getElement(t).getName());
            CLEAN(lib.getAtomicMass(t)); CLEAN(lib.getAtomicNumber(t)); CLEAN(lib.getDensity(t)); CLEAN(lib.getLongName(t));
            CLEAN(lib.getColumn(t)); CLEAN(lib.getRow(t)); CLEAN(lib.getBindingEnergies(t)); CLEAN(lib.getEmittedXRayLines(t, 30.));
            CLEAN(lib.setElementCascadeCacheEnabled(t, 1)); CLEAN(lib.fillCache(t, std::vector<double>(2, 12.0)));
            CLEAN(lib.updateCache(t, std::vector<double>(1, 13.0))); CLEAN(lib.setCacheEnabled(t, 1)); CLEAN(lib.clearCache(t));
            CLEAN(lib.isCacheEnabled(t)); CLEAN(lib.getCacheSize(t)); CLEAN(lib.emptyElementCascadeCache(t)); CLEAN(lib.isElementCascadeCacheFilled(t));
            break;
        case 'm':
        {
            std::string name = t;
            Map rest = m;
            if (a.size() > 1) { rest.erase(a[0]); rest.erase(a[0].substr(0, a[0].find('='))); }
            CLEAN(lib.addMaterial(name, 1.0, 1.0, "", 0));
            CLEAN(lib.setMaterialComposition(name, rest));
            CLEAN(Material x = lib.createMaterial(u, 2.0, 3.0, t); x.setComposition(rest); lib.addMaterial(x));
            CLEAN(lib.getMaterial(name).getName());
            break;
        }
        case 'r': CLEAN(lib.removeMaterial(t)); break;
        case 'u':
            CLEAN(lib.getMassAttenuationCoefficients(t, 12.0));
            CLEAN(lib.getMassAttenuationCoefficients(t, std::vector<double>(2, 20.0)));
            CLEAN(lib.getMassAttenuationCoefficients(t));
            CLEAN(lib.getMassAttenuationCoefficients(m, 20.0));
            CLEAN(lib.getComposition(m));
            break;
        case 'p':
            CLEAN(lib.getPeakFamilies(t, 120.0));
            CLEAN(lib.getPeakFamilies(a, 20.0));
            break;
        case 'x':
            CLEAN(lib.getExcitationFactors(t, 20.0));
            CLEAN(lib.getExcitationFactors(t, std::vector<double>(2, 30.0), std::vector<double>(2, 0.5)));
            CLEAN(lib.getInitialPhotoelectricVacancyDistribution(t, 25.0));
            break;
        case 's':
            CLEAN(lib.getShellConstants(t, u)); CLEAN(lib.getRadiativeTransitions(t, u)); CLEAN(lib.getNonradiativeTransitions(t, u));
            CLEAN(element.getShell(t).getFluorescenceYield()); CLEAN(element.getFluorescenceRatios(t)); CLEAN(element.getAugerRatios(t));
            CLEAN(element.getCosterKronigRatios(t)); CLEAN(element.getShellConstants(t)); CLEAN(element.getRadiativeTransitions(t));
            CLEAN(element.getXRayLines(t));
            break;
        case 'c':
            CLEAN(lib.getCascadeModifiedVacancyDistribution("Pb", m));
            CLEAN(lib.getXRayLinesFromVacancyDistribution("Pb", m, 1, 1));
            CLEAN(lib.getXRayLinesFromVacancyDistribution(u, m, 0, 0));
            break;
        case 't': CLEAN(element.getTransitionEnergy(t)); break;
        case 'S': CLEAN(Shell other(t); other.getFluorescenceYield()); break;
        case 'T': CLEAN(shell.setRadiativeTransitions(m)); CLEAN(element.setRadiativeTransitions("L1", m)); break;
        case 'N': CLEAN(shell.setNonradiativeTransitions(m)); CLEAN(element.setNonradiativeTransitions("L1", m)); break;
        case 'C': CLEAN(shell.setShellConstants(m)); CLEAN(element.setShellConstants("L1", m)); break;
        case 'D': CLEAN(shell.getDirectVacancyTransferRatios(t)); CLEAN(shell.getFluorescenceRatios()); CLEAN(shell.getAugerRatios()); CLEAN(shell.getCosterKronigRatios()); break;
        case 'B':
            CLEAN(element.setBindingEnergies(m));
            CLEAN(element.getExcitedShells(20.0)); CLEAN(element.getXRayLines("")); CLEAN(element.getEmittedXRayLines(50.));
            break;
        case 'q':
            CLEAN(xrf.getMultilayerFluorescence(a, lib, 0, 1, 1));
            CLEAN(xrf.getMultilayerFluorescence(t, lib, -1, u, 0, 0, 0));
            CLEAN(xrf.getEnergyThreshold(t, u, lib));
            CLEAN(xrf.getMultilayerFluorescence(a, lib, std::vector<int>(1, 0), std::vector<std::string>(1, u), 0, 0, 0));
            break;
        case 'Q': if (one_of(8, data, size)) CLEAN(xrf.getMultilayerFluorescence(a, lib, 1, 0, 0)); break;
        case 'l':
        {
            Layer layer(t, 1.0, 0.1);
            CLEAN(layer.getComposition(lib)); CLEAN(layer.getTransmission(20.0, lib)); CLEAN(layer.getMassAttenuationCoefficients(20.0, lib));
            CLEAN(layer.getPeakFamilies(30.0, lib)); CLEAN(xrf.setSample(layer));
            break;
        }
        case 'E': CLEAN(lib.getEscape(m, 30.0)); CLEAN(lib.updateEscapeCache(m, std::vector<double>(1, 30.0))); break;
        case 'd':
            CLEAN(lib.setShellConstantsFile(t, u)); CLEAN(lib.setShellRadiativeTransitionsFile(t, u)); CLEAN(lib.setShellNonradiativeTransitionsFile(t, u));
            CLEAN(lib.getShellConstantsFile(t)); CLEAN(lib.getShellRadiativeTransitionsFile(t)); CLEAN(lib.getShellNonradiativeTransitionsFile(t));
            break;
        default: break;
        }
    }
    // the element data cannot have changed: everything is as with a fresh library
    EXPECT(lib.getCompositionFromFormula("H2O") == water, "composition of water");
    EXPECT(lib.getEscape(lib.getCompositionFromFormula("CdTe"), 35.0) == escape, "escape ratios");
    if (!one_of(4, data, size)) return 0;
    XRF after;
    setup(after);
    EXPECT(after.getMultilayerFluorescence(split("Fe K|S K|Pb L", '|'), lib, 0, 0, 1) == reference, "fluorescence");
    return 0;
}

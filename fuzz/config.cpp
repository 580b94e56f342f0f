// any bytes as a PyMca configuration; what is accepted is also calculated
#include "common.h"
#include <sstream>
#include "fisx_elements.h"
#include "fisx_xrf.h"

using namespace fisx;
static const char GOOD[] =
    "[fit]\nenergy = 20.0, 15.0\nenergyweight = 1.0, 0.5\nenergyflag = 1, 1\nenergyscatter = 1, 0\n"
    "[attenuators]\nMatrix = 1, Mat, 5.0, 0.01, 45.0, 30.0, 0, 90.0\nDetector = 1, Si, 2.33, 0.05, 1.0\nair = 1, C, 0.001, 1.0, 1.0\n"
    "[Materials.Mat]\nComment = x\nCompoundList = Fe, S\nCompoundFraction = 0.7, 0.3\nDensity = 1.0\nThickness = 1.0\n"
    "[concentrations]\ndistance = 5.0\narea = 0.3\n";

typedef std::map<std::string, std::map<int, std::map<std::string, std::map<std::string, double> > > > Result;

static std::string config(const XRF & xrf)
{
    std::ostringstream o;
    o.precision(17);
    o << xrf.getConfiguration() << xrf.getScatteringAngle() << " " << xrf.getMaterials().size() << " " << xrf.getUserBeamFilters().size() << " " << xrf.getUserAttenuators().size();
    return o.str();
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t * data, size_t size)
{
    static ScratchFile f, g;
    static const std::string good = g.set(GOOD, sizeof(GOOD) - 1);
    static const Elements base(getenv("FISX_FUZZ_DATA") ? getenv("FISX_FUZZ_DATA") : "");
    static Result reference;
    static std::string text;
    static std::vector<std::string> wanted;
    if (reference.empty())
    {
        wanted.push_back("Fe K");
        wanted.push_back("S K");
        XRF xrf(good);
        reference = xrf.getMultilayerFluorescence(wanted, base, 0, 1, 1);
        text = config(xrf);
    }
    XRF xrf;
    bool ok = true;
    try { xrf.readConfigurationFromFile(f.set(data, size)); }
    catch (const std::bad_alloc &) { EXPECT(false, "bad_alloc"); }
    catch (const std::exception &) { ok = false; }
    if (ok)
    {
        // the same from an object that held something else
        XRF other(good);
        other.readConfigurationFromFile(f.path);
        EXPECT(config(other) == config(xrf), "configuration depends on the previous one");
        EXPECT(xrf.getReferenceLayer() == 0, "reference layer");
        if (one_of(4, data, size) && xrf.getSample().size() <= 3 && xrf.getBeamFilters().size() <= 4 && xrf.getAttenuators().size() <= 4 && xrf.getBeam().getBeamAsDoubleVectors()[0].size() <= 6)
        {
            CLEAN(xrf.getMultilayerFluorescence(wanted, base, 0, 1, 1));
            if (one_of(64, data, size)) CLEAN(xrf.getMultilayerFluorescence(wanted, base, 1, 0, 0));
            for (size_t i = 0; i < xrf.getSample().size(); i++)
            {
                CLEAN(xrf.getLayerComposition(xrf.getSample()[i], base));
                CLEAN(xrf.getLayerPeakFamilies(xrf.getSample()[i], 20.0, base));
                CLEAN(xrf.getGeometricEfficiency(i));
            }
        }
    }
    // a rejected or odd configuration leaves nothing behind
    xrf.readConfigurationFromFile(good);
    EXPECT(config(xrf) == text, "the good configuration");
    if (one_of(4, data, size)) EXPECT(xrf.getMultilayerFluorescence(wanted, base, 0, 1, 1) == reference, "intensities of the good configuration");
    return 0;
}

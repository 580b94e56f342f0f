# distutils: language = c++
# cython: language_level=3, c_string_type=unicode, c_string_encoding=utf8
"""Direct bindings of the fisx C++ API (own declarations), so that the checks reach what the
distributed Python bindings do not expose and can compare both routes."""
from libcpp.string cimport string
from libcpp.vector cimport vector
from libcpp.map cimport map as cmap
from libcpp.pair cimport pair
from libcpp cimport bool as cbool
from cython.operator cimport dereference as deref

ctypedef cmap[string, double] MSD
ctypedef cmap[string, vector[double]] MSV
ctypedef cmap[string, MSD] MSMSD
ctypedef cmap[string, MSMSD] MSMSD_3
ctypedef cmap[string, cmap[int, MSMSD]] EMIS

cdef extern from "fisx_shell.h" namespace "fisx":
    cdef cppclass Shell:
        Shell(string) except +
        void setRadiativeTransitions(MSD) except +
        void setRadiativeTransitions(vector[string], vector[double]) except +
        void setNonradiativeTransitions(vector[string], vector[double]) except +
        void setNonradiativeTransitions(MSD) except +
        void setRadiativeTransitions(const char **, const double *, int) except +
        void setNonradiativeTransitions(const char **, const double *, int) except +
        MSD getAugerRatios() except +
        MSMSD getCosterKronigRatios() except +
        MSD getFluorescenceRatios() except +
        MSD getRadiativeTransitions() except +
        MSD getNonradiativeTransitions() except +
        MSD getDirectVacancyTransferRatios(string) except +
        void setShellConstants(MSD) except +
        MSD getShellConstants() except +
        double getFluorescenceYield() except +

cdef extern from "fisx_element.h" namespace "fisx":
    cdef cppclass Element:
        Element() except +
        Element(string, int) except +
        Element(Element) except +
        void setName(string) except +
        string getName() except +
        void setAtomicNumber(int) except +
        int getAtomicNumber() except +
        void setAtomicMass(double) except +
        double getAtomicMass() except +
        void setDensity(double) except +
        double getDensity() except +
        void setLongName(string) except +
        string getLongName() except +
        void setColumn(int) except +
        int getColumn() except +
        void setRow(int) except +
        int getRow() except +
        void setBindingEnergies(MSD) except +
        void setBindingEnergies(vector[string], vector[double]) except +
        MSD getBindingEnergies() except +
        vector[string] getExcitedShells(double) except +
        void setMassAttenuationCoefficients(vector[double], vector[double], vector[double], vector[double], vector[double]) except +
        void setMassAttenuationCoefficients(vector[double], vector[double], vector[double], vector[double]) except +
        void setTotalMassAttenuationCoefficient(vector[double], vector[double]) except +
        MSV getMassAttenuationCoefficients() except +
        MSV getMassAttenuationCoefficients(vector[double]) except +
        MSD getMassAttenuationCoefficients(double) except +
        void setPartialPhotoelectricMassAttenuationCoefficients(string, vector[double], vector[double]) except +
        MSD getPartialPhotoelectricMassAttenuationCoefficients(double) except +
        cmap[string, pair[double, int]] extractEdgeEnergiesFromMassAttenuationCoefficients() except +
        void setRadiativeTransitions(string, MSD) except +
        void setRadiativeTransitions(string, vector[string], vector[double]) except +
        MSD getRadiativeTransitions(string) except +
        void setNonradiativeTransitions(string, vector[string], vector[double]) except +
        void setNonradiativeTransitions(string, MSD) except +
        MSD getNonradiativeTransitions(string) except +
        void setShellConstants(string, MSD) except +
        MSD getShellConstants(string) except +
        double getTransitionEnergy(string) except +
        MSD getXRayLines(string) except +
        MSD getEmittedXRayLines(double) except +
        MSV getInitialPhotoelectricVacancyDistribution(vector[double]) except +
        MSD getInitialPhotoelectricVacancyDistribution(double) except +
        MSD getCascadeModifiedVacancyDistribution(MSD) except +
        MSMSD getXRayLinesFromVacancyDistribution(MSD, int, int) except +
        vector[MSMSD] getPhotoelectricExcitationFactors(vector[double], vector[double]) except +
        MSMSD getPhotoelectricExcitationFactors(double, double) except +
        MSD getFluorescenceRatios(string) except +
        void setCascadeCacheEnabled(int) except +
        int isCascadeCacheFilled() except +
        void fillCascadeCache() except +
        void emptyCascadeCache() except +
        void fillCache(vector[double]) except +
        void setCacheEnabled(int) except +
        void updateCache(vector[double]) except +
        void clearCache() except +
        int isCacheEnabled() except +
        int getCacheSize() except +

cdef extern from "fisx_material.h" namespace "fisx":
    cdef cppclass Material:
        Material() except +
        Material(string, double, double, string) except +
        Material(Material) except +
        void setName(string) except +
        void initialize(string, double, double, string) except +
        void setComposition(MSD) except +
        void setComposition(vector[string], vector[double]) except +
        MSD getComposition() except +
        string getName() except +
        string getComment() except +
        double getDefaultDensity() except +
        double getDefaultThickness() except +

cdef extern from "fisx_elements.h" namespace "fisx":
    cdef cppclass Elements:
        Elements(string) except +
        Elements(string, short) except +
        Elements(string, string, string) except +
        cbool isElementNameDefined(string) except +
        Element getElement(string) except +
        Element getElementCopy(string) except +
        void addElement(Element) except +
        vector[string] getElementNames() except +
        MSD getEmittedXRayLines(string, double) except +
        MSD getNonradiativeTransitions(string, string) except +
        MSD getRadiativeTransitions(string, string) except +
        MSV getInitialPhotoelectricVacancyDistribution(string, vector[double]) except +
        MSD getInitialPhotoelectricVacancyDistribution(string, double) except +
        MSD getCascadeModifiedVacancyDistribution(string, MSD) except +
        MSMSD getXRayLinesFromVacancyDistribution(string, MSD, int, int) except +
        MSD getShellConstants(string, string) except +
        void setShellConstantsFile(string, string) except +
        void setShellRadiativeTransitionsFile(string, string) except +
        void setShellNonradiativeTransitionsFile(string, string) except +
        string getShellConstantsFile(string) except +
        string getShellRadiativeTransitionsFile(string) except +
        string getShellNonradiativeTransitionsFile(string) except +
        void setMassAttenuationCoefficientsFile(string) except +
        void setMassAttenuationCoefficients(string, vector[double], vector[double], vector[double], vector[double], vector[double]) except +
        MSV getMassAttenuationCoefficients(string) except +
        MSV getMassAttenuationCoefficients(string, vector[double]) except +
        MSV getMassAttenuationCoefficients(MSD, vector[double], int) except +
        MSD getMassAttenuationCoefficients(string, double) except +
        MSD getMassAttenuationCoefficients(MSD, double, int) except +
        Material createMaterial(string, double, double, string) except +
        void setMaterialComposition(string, MSD) except +
        void setMaterialComposition(string, vector[string], vector[double]) except +
        Material getMaterial(string) except +
        vector[string] getMaterialNames() except +
        Material getMaterialCopy(string) except +
        void addMaterial(Material, int) except +
        void addMaterial(string, double, double, string, int) except +
        void removeMaterial(string) except +
        void removeMaterials() except +
        MSD getCompositionFromFormula(string) except +
        MSD getComposition(string) except +
        MSD getComposition(string, vector[Material]) except +
        MSD getComposition(MSD, vector[Material]) except +
        MSD parseFormula(string) except +
        vector[MSMSD] getExcitationFactors(string, vector[double], vector[double]) except +
        MSMSD getExcitationFactors(string, double, double) except +
        vector[pair[string, double]] getPeakFamilies(string, double) except +
        vector[pair[string, double]] getPeakFamilies(vector[string], double) except +
        double getAtomicMass(string) except +
        int getAtomicNumber(string) except +
        MSD getBindingEnergies(string) except +
        double getDensity(string) except +
        string getLongName(string) except +
        int getColumn(string) except +
        int getRow(string) except +
        MSMSD getEscape(MSD, double, double, double, int, double, double) except +
        void updateEscapeCache(MSD, vector[double], double, double, int, double, double) except +
        void setElementCascadeCacheEnabled(string, int) except +
        int isElementCascadeCacheFilled(string) except +
        void fillElementCascadeCache(string) except +
        void emptyElementCascadeCache(string) except +
        void setEscapeCacheEnabled(int) except +
        int isEscapeCacheEnabled() except +
        void fillCache(string, vector[double]) except +
        void setCacheEnabled(string, int) except +
        void updateCache(string, vector[double]) except +
        void clearCache(string) except +
        void clearEscapeCache() except +
        int isCacheEnabled(string) except +
        int getCacheSize(string) except +

cdef extern from "fisx_layer.h" namespace "fisx":
    cdef cppclass Layer:
        Layer(string, double, double, double) except +
        Layer(Layer) except +
        void setMaterial(string) except +
        void setMaterial(Material) except +
        string getName() except +
        MSD getComposition(Elements) except +
        Material getMaterial() except +
        double getTransmission(double, Elements, double) except +
        vector[double] getTransmission(vector[double], Elements, double) except +
        MSD getMassAttenuationCoefficients(double, Elements) except +
        MSV getMassAttenuationCoefficients(vector[double], Elements) except +
        cbool hasMaterialComposition() except +
        vector[pair[string, double]] getPeakFamilies(double, Elements) except +
        string getMaterialName() except +
        void setDensity(double) except +
        void setThickness(double) except +
        double getDensity() except +
        double getThickness() except +
        double getFunnyFactor() except +

cdef extern from "fisx_detector.h" namespace "fisx":
    cdef cppclass Detector:
        Detector(string, double, double, double) except +
        Detector(Detector) except +
        void setMaterial(string) except +
        void setMaterial(Material) except +
        void setActiveArea(double) except +
        void setDiameter(double) except +
        double getActiveArea() except +
        double getDiameter() except +
        void setDistance(double) except +
        double getDistance() except +
        void clearEscapePeakCache() except +
        double getEscapePeakEnergyThreshold() except +
        double getEscapePeakIntensityThreshold() except +
        int getEscapePeakNThreshold() except +
        double getEscapePeakAlphaIn() except +
        MSMSD getEscape(double, Elements, string, int) except +
        void setMinimumEscapePeakEnergy(double) except +
        void setMinimumEscapePeakIntensity(double) except +
        void setMaximumNumberOfEscapePeaks(int) except +
        string getName() except +
        MSD getComposition(Elements) except +
        double getTransmission(double, Elements, double) except +
        vector[double] getTransmission(vector[double], Elements, double) except +
        cbool hasMaterialComposition() except +
        Material getMaterial() except +
        string getMaterialName() except +
        void setDensity(double) except +
        void setThickness(double) except +
        double getDensity() except +
        double getThickness() except +
        double getFunnyFactor() except +

cdef extern from "fisx_beam.h" namespace "fisx":
    cdef cppclass Beam:
        Beam() except +
        void setBeam(vector[double], vector[double], vector[int], vector[double]) except +
        void setBeamC "setBeam"(int, double *, double *, int *, double *) except +
        void setBeamCD "setBeam"(int, double *, double *, double *, double *) except +
        void setSingleEnergyBeam(double, double) except +
        vector[vector[double]] getBeamAsDoubleVectors() except +

cdef extern from "fisx_transmissiontable.h" namespace "fisx":
    cdef cppclass TransmissionTable:
        TransmissionTable() except +
        TransmissionTable(string, string) except +
        void setName(string) except +
        void setComment(string) except +
        void setTransmissionTable(cmap[double, double], string, string) except +
        void setTransmissionTable(vector[double], vector[double], string, string) except +
        cmap[double, double] getTransmissionTable() except +
        double getTransmission(double) except +
        vector[double] getTransmission(vector[double]) except +
        string getName() except +
        string getComment() except +

cdef extern from "fisx_simpleini.h" namespace "fisx":
    cdef cppclass SimpleIni:
        SimpleIni() except +
        SimpleIni(string) except +
        void readFileName(string) except +
        vector[string] getSections() except +
        void getSubsections(string, vector[string] &, cbool) except +
        cmap[string, string] readSection(string, cbool) except +

cdef extern from * namespace "fisx":
    """
    #include "fisx_simpleini.h"
    namespace fisx {
    static double vfx_single_d(const std::string & s, double def)
    { double d; SimpleIni::parseStringAsSingleValue(s, d, def); return d; }
    static int vfx_single_i(const std::string & s, int def)
    { int d; SimpleIni::parseStringAsSingleValue(s, d, def); return d; }
    static std::vector<double> vfx_multi_d(const std::string & s, double def, char sep)
    { std::vector<double> d; SimpleIni::parseStringAsMultipleValues(s, d, def, sep); return d; }
    static std::vector<int> vfx_multi_i(const std::string & s, int def, char sep)
    { std::vector<int> d; SimpleIni::parseStringAsMultipleValues(s, d, def, sep); return d; }
    static std::vector<std::string> vfx_multi_s(const std::string & s, const std::string & def, char sep)
    { std::vector<std::string> d; SimpleIni::parseStringAsMultipleValues(s, d, def, sep); return d; }
    }
    """
    double vfx_single_d(string, double) except +
    int vfx_single_i(string, int) except +
    vector[double] vfx_multi_d(string, double, char) except +
    vector[int] vfx_multi_i(string, int, char) except +
    vector[string] vfx_multi_s(string, string, char) except +

cdef extern from "fisx_simplespecfile.h" namespace "fisx":
    cdef cppclass SimpleSpecfile:
        SimpleSpecfile() except +
        SimpleSpecfile(string) except +
        void setFileName(string) except +
        int getNumberOfScans() except +
        vector[string] getScanLabels(int) except +
        vector[vector[double]] getScanData(int) except +

cdef extern from "fisx_epdl97.h" namespace "fisx":
    cdef cppclass EPDL97:
        EPDL97(string) except +
        void setDataDirectory(string) except +
        void loadBindingEnergies(string) except +
        void setBindingEnergies(int, MSD) except +
        MSD getBindingEnergies(int) except +
        MSD getMassAttenuationCoefficients(int, double) except +
        MSV getMassAttenuationCoefficients(int, vector[double]) except +
        MSV getMassAttenuationCoefficients(int) except +
        MSD getPhotoelectricWeights(int, double) except +
        MSV getPhotoelectricWeights(int, vector[double]) except +
        pair[long, long] getInterpolationIndices(vector[double], double) except +

cdef extern from "fisx_math.h" namespace "fisx":
    cdef cppclass Math:
        @staticmethod
        double E1(double) except +
        @staticmethod
        double En(int, double) except +
        @staticmethod
        double deBoerD(double) except +
        @staticmethod
        double deBoerL0(double, double, double, double, double) except +
        @staticmethod
        double deBoerX(double, double, double, double, double, double, double) except +
        @staticmethod
        double deBoerV(double, double, double, double, double, double, double) except +
        @staticmethod
        double AS_5_1_53(double) except +
        @staticmethod
        double AS_5_1_56(double) except +
        @staticmethod
        double getFWHM(double, double, double, double) except +
        @staticmethod
        double erf(double) except +
        @staticmethod
        double erfc(double) except +
        @staticmethod
        cbool isNumber(double) except +
        @staticmethod
        cbool isFiniteNumber(double) except +

cdef extern from "fisx_xrf.h" namespace "fisx":
    cdef cppclass XRF:
        XRF() except +
        XRF(string) except +
        void readConfigurationFromFile(string) except +
        void setBeam(Beam) except +
        void setBeam(vector[double], vector[double], vector[int], vector[double]) except +
        void setSingleEnergyBeam(double, double) except +
        void setBeamFilters(vector[Layer]) except +
        void setUserBeamFilters(vector[TransmissionTable]) except +
        void setSample(vector[Layer], int) except +
        void setSampleN "setSample"(string, double, double) except +
        void setSampleL "setSample"(Layer) except +
        void setAttenuators(vector[Layer]) except +
        void setUserAttenuators(vector[TransmissionTable]) except +
        void setDetector(Detector) except +
        void setGeometry(double, double, double) except +
        double getGeometricEfficiency(int) except +
        EMIS getMultilayerFluorescence(string, Elements, int, string, int, int, int, double, Beam) except +
        EMIS getMultilayerFluorescence(vector[string], Elements, int, int, int, double, Beam) except +
        EMIS getMultilayerFluorescence(vector[string], Elements, vector[int], vector[string], int, int, int, double, Beam) except +
        double getEnergyThreshold(string, string, Elements) except +
        Beam getBeam() except +
        vector[Layer] getBeamFilters() except +
        vector[TransmissionTable] getUserBeamFilters() except +
        vector[Layer] getSample() except +
        vector[Layer] getAttenuators() except +
        vector[TransmissionTable] getUserAttenuators() except +
        Detector getDetector() except +
        double getAlphaIn() except +
        double getAlphaOut() except +
        double getScatteringAngle() except +
        int getReferenceLayer() except +
        vector[Material] getMaterials() except +
        MSD getLayerComposition(Layer, Elements) except +
        MSD getLayerMassAttenuationCoefficients(Layer, double, Elements, MSD) except +
        MSV getLayerMassAttenuationCoefficients(Layer, vector[double], Elements, MSD) except +
        double getLayerTransmission(Layer, double, Elements, double, MSD) except +
        vector[double] getLayerTransmission(Layer, vector[double], Elements, double, MSD) except +
        vector[pair[string, double]] getLayerPeakFamilies(Layer, double, Elements, MSD) except +

cdef extern from * namespace "fisx":
    """
    #include "fisx_xrf.h"
    #include "fisx_math.h"
    #include "fisx_simpleini.h"
    namespace fisx {
    typedef std::vector<std::string> VFX_T;
    struct VfxFlat {
        std::vector<std::string> keys; std::vector<double> v;
        void add(double x) { v.push_back(x); }
        void add(int x) { v.push_back(x); }
        void add(const std::string & s) { keys.push_back(s); }
        template<class A, class B> void add(const std::pair<A, B> & x) { add(x.first); add(x.second); }
        template<class A> void add(const std::vector<A> & x) { add((int) x.size()); for (size_t i = 0; i < x.size(); i++) add(x[i]); }
        template<class A, class B> void add(const std::map<A, B> & x) { add((int) x.size()); for (typename std::map<A, B>::const_iterator i = x.begin(); i != x.end(); ++i) add(*i); }
    };
    // what the two calls give, exceptions included
    #define VFX_BOTH(name, a, b) { \
        VfxFlat f1, f2; std::string e1, e2; \
        try { f1.add(a); } catch (const std::exception & e) { e1 = std::string("error ") + e.what(); f1 = VfxFlat(); } \
        try { f2.add(b); } catch (const std::exception & e) { e2 = std::string("error ") + e.what(); f2 = VfxFlat(); } \
        f1.add(e1); f2.add(e2); \
        out.push_back(std::make_pair(std::string(name), std::make_pair(std::make_pair(f1.keys, f1.v), std::make_pair(f2.keys, f2.v)))); }
    typedef std::vector<std::pair<std::string, std::pair<std::pair<VFX_T, std::vector<double> >, std::pair<VFX_T, std::vector<double> > > > > VFX_OUT;
    static std::vector<double> vfx_m(Material m) { std::vector<double> r; r.push_back(m.getDefaultDensity()); r.push_back(m.getDefaultThickness()); r.push_back((double) m.getComment().size()); return r; }
    static std::vector<double> vfx_l(Layer m) { std::vector<double> r; r.push_back(m.getDensity()); r.push_back(m.getThickness()); r.push_back(m.getFunnyFactor()); return r; }
    static std::vector<double> vfx_s(const XRF & x) { std::vector<double> r; r.push_back(x.getReferenceLayer()); r.push_back(x.getScatteringAngle()); for (size_t i = 0; i < x.getSample().size(); i++) { std::vector<double> l = vfx_l(x.getSample()[i]); r.insert(r.end(), l.begin(), l.end()); } return r; }
    static VFX_OUT vfx_defaults(const Elements & lib, XRF xrf, Layer layer, Detector det, const Element & el, const std::string & name, const std::string & family,
                                const std::string & request, double e, const std::vector<double> & es, const std::map<std::string, double> & comp, const std::map<std::string, double> & dist, int li)
    {
        VFX_OUT out;
        typedef std::map<std::string, double> MSD;
        MSD none;
        VFX_BOTH("Layer.getTransmission", layer.getTransmission(e, lib), layer.getTransmission(e, lib, 90.0))
        VFX_BOTH("Layer.getTransmission of several", layer.getTransmission(es, lib), layer.getTransmission(es, lib, 90.0))
        VFX_BOTH("Layer(name)", vfx_l(Layer(name)), vfx_l(Layer(name, 0.0, 0.0, 1.0)))
        VFX_BOTH("Layer(name, d)", vfx_l(Layer(name, 2.5)), vfx_l(Layer(name, 2.5, 0.0, 1.0)))
        VFX_BOTH("Layer(name, d, t)", vfx_l(Layer(name, 2.5, 0.3)), vfx_l(Layer(name, 2.5, 0.3, 1.0)))
        VFX_BOTH("Detector(name)", vfx_l(Detector(name)), vfx_l(Detector(name, 0.0, 0.0, 1.0)))
        VFX_BOTH("Detector(name, d, t)", vfx_l(Detector(name, 2.5, 0.3)), vfx_l(Detector(name, 2.5, 0.3, 1.0)))
        VFX_BOTH("Detector.getEscape", det.getEscape(e, lib), det.getEscape(e, lib, "", 1))
        VFX_BOTH("Material(name)", vfx_m(Material(name)), vfx_m(Material(name, 1.0, 1.0, "")))
        VFX_BOTH("Material(name, d)", vfx_m(Material(name, 2.5)), vfx_m(Material(name, 2.5, 1.0, "")))
        { Material a, b; a.initialize("vfx"); b.initialize("vfx", 1.0, 1.0, ""); VFX_BOTH("Material.initialize", vfx_m(a), vfx_m(b)) }
        { Elements l2(lib); VFX_BOTH("createMaterial", vfx_m(l2.createMaterial("vfx")), vfx_m(l2.createMaterial("vfx", 1.0, 1.0, ""))) }
        { Elements l2(lib); l2.addMaterial("vfx"); VFX_BOTH("addMaterial", vfx_m(l2.getMaterial("vfx")), vfx_m(Material("vfx", 1.0, 1.0, "")))
          int r = 0; try { l2.addMaterial("vfx"); } catch (const std::exception &) { r = 1; } VFX_BOTH("addMaterial twice", r, 1)
          Material m("vfx"); r = 0; try { l2.addMaterial(m); } catch (const std::exception &) { r = 1; } VFX_BOTH("addMaterial(object) twice", r, 1) }
        VFX_BOTH("getComposition", lib.getComposition(comp), lib.getComposition(comp, std::vector<Material>()))
        VFX_BOTH("getMassAttenuationCoefficients", lib.getMassAttenuationCoefficients(comp, e), lib.getMassAttenuationCoefficients(comp, e, 0))
        VFX_BOTH("getMassAttenuationCoefficients of several", lib.getMassAttenuationCoefficients(comp, es), lib.getMassAttenuationCoefficients(comp, es, 0))
        VFX_BOTH("Elements.getEmittedXRayLines", lib.getEmittedXRayLines(name), lib.getEmittedXRayLines(name, 1000.))
        VFX_BOTH("Elements.getXRayLinesFromVacancyDistribution", lib.getXRayLinesFromVacancyDistribution(name, dist), lib.getXRayLinesFromVacancyDistribution(name, dist, 1, 1))
        VFX_BOTH("Elements.getXRayLinesFromVacancyDistribution with cascade", lib.getXRayLinesFromVacancyDistribution(name, dist, 0), lib.getXRayLinesFromVacancyDistribution(name, dist, 0, 1))
        VFX_BOTH("getExcitationFactors", lib.getExcitationFactors(name, e), lib.getExcitationFactors(name, e, 1.0))
        VFX_BOTH("getExcitationFactors of several", lib.getExcitationFactors(name, es), lib.getExcitationFactors(name, es, std::vector<double>(es.size(), 1.0 / es.size())))
        VFX_BOTH("getEscape", lib.getEscape(comp, e), lib.getEscape(comp, e, 0.010, 1.0e-7, 4, 90., 0.0))
        VFX_BOTH("getEscape with threshold", lib.getEscape(comp, e, 0.05), lib.getEscape(comp, e, 0.05, 1.0e-7, 4, 90., 0.0))
        VFX_BOTH("getEscape with angle", lib.getEscape(comp, e, 0.01, 1.0e-6, 10, 45.), lib.getEscape(comp, e, 0.01, 1.0e-6, 10, 45., 0.0))
        VFX_BOTH("Element.getEmittedXRayLines", el.getEmittedXRayLines(), el.getEmittedXRayLines(1000.))
        VFX_BOTH("Element.getXRayLinesFromVacancyDistribution", el.getXRayLinesFromVacancyDistribution(dist), el.getXRayLinesFromVacancyDistribution(dist, 1, 1))
        VFX_BOTH("Element.getPhotoelectricExcitationFactors", el.getPhotoelectricExcitationFactors(e), el.getPhotoelectricExcitationFactors(e, 1.0))
        VFX_BOTH("Element.getPhotoelectricExcitationFactors of several", el.getPhotoelectricExcitationFactors(es), el.getPhotoelectricExcitationFactors(es, std::vector<double>(es.size(), 1.0 / es.size())))
        { Beam a, b; a.setBeam(es); b.setBeam(es, std::vector<double>(es.size(), 1.0), std::vector<int>(es.size(), 1), std::vector<double>(es.size(), 0.0)); VFX_BOTH("Beam.setBeam", a.getBeamAsDoubleVectors(), b.getBeamAsDoubleVectors()) }
        { Beam a, b; a.setSingleEnergyBeam(e); b.setSingleEnergyBeam(e, 0.0); VFX_BOTH("Beam.setSingleEnergyBeam", a.getBeamAsDoubleVectors(), b.getBeamAsDoubleVectors()) }
        { XRF a(xrf), b(xrf); a.setSingleEnergyBeam(e); b.setSingleEnergyBeam(e, 0.0); VFX_BOTH("XRF.setSingleEnergyBeam", a.getBeam().getBeamAsDoubleVectors(), b.getBeam().getBeamAsDoubleVectors()) }
        { XRF a(xrf), b(xrf); std::vector<double> w(es.size(), 2.0); a.setBeam(es, w); b.setBeam(es, w, std::vector<int>(es.size(), 1), std::vector<double>(es.size(), 0.0)); VFX_BOTH("XRF.setBeam", a.getBeam().getBeamAsDoubleVectors(), b.getBeam().getBeamAsDoubleVectors()) }
        { XRF a(xrf), b(xrf); a.setSample(xrf.getSample()); b.setSample(xrf.getSample(), 0); VFX_BOTH("XRF.setSample", vfx_s(a), vfx_s(b)) }
        { XRF a(xrf), b(xrf); a.setSample(name); b.setSample(name, 1.0, 1.0); VFX_BOTH("XRF.setSample(name)", vfx_s(a), vfx_s(b)) }
        { XRF a(xrf), b(xrf); a.setGeometry(30., 40.); b.setGeometry(30., 40., -90.); VFX_BOTH("XRF.setGeometry", vfx_s(a), vfx_s(b)) }
        VFX_BOTH("getGeometricEfficiency", xrf.getGeometricEfficiency(), xrf.getGeometricEfficiency(0))
        VFX_BOTH("getMultilayerFluorescence(element)", xrf.getMultilayerFluorescence(name, lib), xrf.getMultilayerFluorescence(name, lib, 0, "", 0, 1, 0, 0.0, Beam()))
        VFX_BOTH("getMultilayerFluorescence(element, layer, family)", xrf.getMultilayerFluorescence(name, lib, li, family), xrf.getMultilayerFluorescence(name, lib, li, family, 0, 1, 0, 0.0, Beam()))
        { VFX_T r(1, request), n(1, name), f(1, family); std::vector<int> l(1, li);
          VFX_BOTH("getMultilayerFluorescence(requests)", xrf.getMultilayerFluorescence(r, lib), xrf.getMultilayerFluorescence(r, lib, 0, 1, 0, 0.0, Beam()))
          VFX_BOTH("getMultilayerFluorescence(lists)", xrf.getMultilayerFluorescence(n, lib, l, f), xrf.getMultilayerFluorescence(n, lib, l, f, 0, 1, 0, 0.0, Beam()))
          VFX_BOTH("getMultilayerFluorescence(lists, secondary)", xrf.getMultilayerFluorescence(n, lib, l, f, 1), xrf.getMultilayerFluorescence(n, lib, l, f, 1, 1, 0, 0.0, Beam())) }
        VFX_BOTH("getLayerMassAttenuationCoefficients", xrf.getLayerMassAttenuationCoefficients(layer, e, lib), xrf.getLayerMassAttenuationCoefficients(layer, e, lib, none))
        VFX_BOTH("getLayerMassAttenuationCoefficients of several", xrf.getLayerMassAttenuationCoefficients(layer, es, lib), xrf.getLayerMassAttenuationCoefficients(layer, es, lib, none))
        VFX_BOTH("getLayerTransmission", xrf.getLayerTransmission(layer, e, lib), xrf.getLayerTransmission(layer, e, lib, 90., none))
        VFX_BOTH("getLayerTransmission of several", xrf.getLayerTransmission(layer, es, lib), xrf.getLayerTransmission(layer, es, lib, 90., none))
        VFX_BOTH("getLayerTransmission at an angle", xrf.getLayerTransmission(layer, e, lib, 30.), xrf.getLayerTransmission(layer, e, lib, 30., none))
        VFX_BOTH("getLayerPeakFamilies", xrf.getLayerPeakFamilies(layer, e, lib), xrf.getLayerPeakFamilies(layer, e, lib, none))
        VFX_BOTH("deBoerX", Math::deBoerX(2., 3., 0.1, 0.2, e, es[0]), Math::deBoerX(2., 3., 0.1, 0.2, e, es[0], 0., 0.))
        VFX_BOTH("deBoerV", Math::deBoerV(2., 3., 0.1, 0.2, e, es[0], 0.3), Math::deBoerV(2., 3., 0.1, 0.2, e, es[0], 0.3, 0.))
        VFX_BOTH("getFWHM", Math::getFWHM(e, 0.1, 0.12), Math::getFWHM(e, 0.1, 0.12, 0.00385))
        { TransmissionTable a(name), b(name, ""); VFX_BOTH("TransmissionTable(name)", a.getComment(), b.getComment()) }
        return out;
    }
    }
    """
    vector[pair[string, pair[pair[vector[string], vector[double]], pair[vector[string], vector[double]]]]] vfx_defaults(Elements, XRF, Layer, Detector, Element, string, string, string, double, vector[double], MSD, MSD, int) except +


cdef class CShell:
    cdef Shell *p
    def __cinit__(self, string name):
        self.p = new Shell(name)
    def __dealloc__(self):
        del self.p
    def setRadiativeTransitions(self, MSD m): self.p.setRadiativeTransitions(m)
    def setRadiativeTransitionsV(self, vector[string] l, vector[double] v): self.p.setRadiativeTransitions(l, v)
    def setNonradiativeTransitions(self, MSD m): self.p.setNonradiativeTransitions(m)
    def setNonradiativeTransitionsV(self, vector[string] l, vector[double] v): self.p.setNonradiativeTransitions(l, v)
    def setRadiativeTransitionsC(self, vector[string] l, vector[double] v):
        cdef vector[const char *] c
        for i in range(l.size()):
            c.push_back(l[i].c_str())
        self.p.setRadiativeTransitions(c.data(), v.data(), <int> l.size())
    def setNonradiativeTransitionsC(self, vector[string] l, vector[double] v):
        cdef vector[const char *] c
        for i in range(l.size()):
            c.push_back(l[i].c_str())
        self.p.setNonradiativeTransitions(c.data(), v.data(), <int> l.size())
    def getAugerRatios(self): return self.p.getAugerRatios()
    def getCosterKronigRatios(self): return self.p.getCosterKronigRatios()
    def getFluorescenceRatios(self): return self.p.getFluorescenceRatios()
    def getRadiativeTransitions(self): return self.p.getRadiativeTransitions()
    def getNonradiativeTransitions(self): return self.p.getNonradiativeTransitions()
    def getDirectVacancyTransferRatios(self, string d): return self.p.getDirectVacancyTransferRatios(d)
    def setShellConstants(self, MSD m): self.p.setShellConstants(m)
    def getShellConstants(self): return self.p.getShellConstants()
    def getFluorescenceYield(self): return self.p.getFluorescenceYield()


cdef class CElement:
    cdef Element *p
    def __cinit__(self, string name="", int z=0):
        self.p = new Element(name, z)
    def __dealloc__(self):
        del self.p
    def copy(self):
        cdef CElement e = CElement("X", 1)
        del e.p
        e.p = new Element(deref(self.p))
        return e
    def setName(self, string n): self.p.setName(n)
    def getName(self): return self.p.getName()
    def setAtomicNumber(self, int z): self.p.setAtomicNumber(z)
    def getAtomicNumber(self): return self.p.getAtomicNumber()
    def setAtomicMass(self, double v): self.p.setAtomicMass(v)
    def getAtomicMass(self): return self.p.getAtomicMass()
    def setDensity(self, double v): self.p.setDensity(v)
    def getDensity(self): return self.p.getDensity()
    def setBindingEnergies(self, MSD m): self.p.setBindingEnergies(m)
    def setBindingEnergiesV(self, vector[string] l, vector[double] v): self.p.setBindingEnergies(l, v)
    def getBindingEnergies(self): return self.p.getBindingEnergies()
    def getExcitedShells(self, double e): return self.p.getExcitedShells(e)
    def setMu(self, vector[double] e, vector[double] ph, vector[double] co, vector[double] inc, vector[double] pa):
        self.p.setMassAttenuationCoefficients(e, ph, co, inc, pa)
    def setMu4(self, vector[double] e, vector[double] ph, vector[double] co, vector[double] inc):
        self.p.setMassAttenuationCoefficients(e, ph, co, inc)
    def setTotalMu(self, vector[double] e, vector[double] t): self.p.setTotalMassAttenuationCoefficient(e, t)
    def getMuTable(self): return self.p.getMassAttenuationCoefficients()
    def getMuV(self, vector[double] e): return self.p.getMassAttenuationCoefficients(e)
    def getMu(self, double e): return self.p.getMassAttenuationCoefficients(e)
    def setPartial(self, string s, vector[double] e, vector[double] v):
        self.p.setPartialPhotoelectricMassAttenuationCoefficients(s, e, v)
    def getPartial(self, double e): return self.p.getPartialPhotoelectricMassAttenuationCoefficients(e)
    def extractEdges(self):
        return {k: tuple(v) for k, v in dict(self.p.extractEdgeEnergiesFromMassAttenuationCoefficients()).items()}
    def setRadiativeTransitions(self, string s, MSD m): self.p.setRadiativeTransitions(s, m)
    def setRadiativeTransitionsV(self, string s, vector[string] l, vector[double] v): self.p.setRadiativeTransitions(s, l, v)
    def getRadiativeTransitions(self, string s): return self.p.getRadiativeTransitions(s)
    def setNonradiativeTransitions(self, string s, MSD m): self.p.setNonradiativeTransitions(s, m)
    def setNonradiativeTransitionsV(self, string s, vector[string] l, vector[double] v): self.p.setNonradiativeTransitions(s, l, v)
    def getNonradiativeTransitions(self, string s): return self.p.getNonradiativeTransitions(s)
    def setShellConstants(self, string s, MSD m): self.p.setShellConstants(s, m)
    def getShellConstants(self, string s): return self.p.getShellConstants(s)
    def getTransitionEnergy(self, string t): return self.p.getTransitionEnergy(t)
    def getXRayLines(self, string f): return self.p.getXRayLines(f)
    def getEmittedXRayLines(self, double e): return self.p.getEmittedXRayLines(e)
    def getInitialV(self, vector[double] e): return self.p.getInitialPhotoelectricVacancyDistribution(e)
    def getInitial(self, double e): return self.p.getInitialPhotoelectricVacancyDistribution(e)
    def getCascade(self, MSD d): return self.p.getCascadeModifiedVacancyDistribution(d)
    def getLines(self, MSD d, int c=1, int y=1): return self.p.getXRayLinesFromVacancyDistribution(d, c, y)
    def getFactorsV(self, vector[double] e, vector[double] w): return self.p.getPhotoelectricExcitationFactors(e, w)
    def getFactors(self, double e, double w=1.0): return self.p.getPhotoelectricExcitationFactors(e, w)
    def getFluorescenceRatios(self, string s): return self.p.getFluorescenceRatios(s)
    def setCascadeCacheEnabled(self, int f): self.p.setCascadeCacheEnabled(f)
    def isCascadeCacheFilled(self): return self.p.isCascadeCacheFilled()
    def fillCascadeCache(self): self.p.fillCascadeCache()
    def emptyCascadeCache(self): self.p.emptyCascadeCache()
    def fillCache(self, vector[double] e): self.p.fillCache(e)
    def setCacheEnabled(self, int f): self.p.setCacheEnabled(f)
    def updateCache(self, vector[double] e): self.p.updateCache(e)
    def clearCache(self): self.p.clearCache()
    def isCacheEnabled(self): return self.p.isCacheEnabled()
    def getCacheSize(self): return self.p.getCacheSize()


cdef class CMaterial:
    cdef Material *p
    def __cinit__(self, name=None, double density=1.0, double thickness=1.0, string comment=""):
        cdef string n
        if name is None:
            self.p = new Material()
        else:
            n = name
            self.p = new Material(n, density, thickness, comment)
    def __dealloc__(self):
        del self.p
    def setName(self, string n): self.p.setName(n)
    def initialize(self, string n, double d, double t, string c): self.p.initialize(n, d, t, c)
    def setComposition(self, MSD m): self.p.setComposition(m)
    def setCompositionV(self, vector[string] l, vector[double] v): self.p.setComposition(l, v)
    def getComposition(self): return self.p.getComposition()
    def getName(self): return self.p.getName()
    def getComment(self): return self.p.getComment()
    def getDefaultDensity(self): return self.p.getDefaultDensity()
    def getDefaultThickness(self): return self.p.getDefaultThickness()

cdef _mat(Material m):
    cdef CMaterial r = CMaterial()
    del r.p
    r.p = new Material(m)
    return r

cdef vector[Material] _mats(list ms) except *:
    cdef vector[Material] v
    cdef CMaterial c
    for m in ms:
        c = m
        v.push_back(deref(c.p))
    return v


cdef class CElements:
    cdef Elements *p
    def __cinit__(self, string d, bindings=None, string cross="", pymca=None):
        cdef string b
        if pymca is not None:
            self.p = new Elements(d, <short> pymca)
        elif bindings is not None:
            b = bindings
            self.p = new Elements(d, b, cross)
        else:
            self.p = new Elements(d)
    def __dealloc__(self):
        del self.p
    def isElementNameDefined(self, string n): return self.p.isElementNameDefined(n)
    def getElementCopy(self, string n):
        cdef CElement e = CElement("X", 1)
        del e.p
        e.p = new Element(self.p.getElementCopy(n))
        return e
    def addElement(self, CElement e): self.p.addElement(deref(e.p))
    def getElementNames(self): return self.p.getElementNames()
    def getEmittedXRayLines(self, string n, double e): return self.p.getEmittedXRayLines(n, e)
    def getNonradiativeTransitions(self, string n, string s): return self.p.getNonradiativeTransitions(n, s)
    def getRadiativeTransitions(self, string n, string s): return self.p.getRadiativeTransitions(n, s)
    def getInitialV(self, string n, vector[double] e): return self.p.getInitialPhotoelectricVacancyDistribution(n, e)
    def getInitial(self, string n, double e): return self.p.getInitialPhotoelectricVacancyDistribution(n, e)
    def getCascade(self, string n, MSD d): return self.p.getCascadeModifiedVacancyDistribution(n, d)
    def getLines(self, string n, MSD d, int c=1, int y=1): return self.p.getXRayLinesFromVacancyDistribution(n, d, c, y)
    def getShellConstants(self, string n, string s): return self.p.getShellConstants(n, s)
    def setShellConstantsFile(self, string s, string f): self.p.setShellConstantsFile(s, f)
    def setShellRadiativeTransitionsFile(self, string s, string f): self.p.setShellRadiativeTransitionsFile(s, f)
    def setShellNonradiativeTransitionsFile(self, string s, string f): self.p.setShellNonradiativeTransitionsFile(s, f)
    def getShellConstantsFile(self, string s): return self.p.getShellConstantsFile(s)
    def getShellRadiativeTransitionsFile(self, string s): return self.p.getShellRadiativeTransitionsFile(s)
    def getShellNonradiativeTransitionsFile(self, string s): return self.p.getShellNonradiativeTransitionsFile(s)
    def setMassAttenuationCoefficientsFile(self, string f): self.p.setMassAttenuationCoefficientsFile(f)
    def setMu(self, string n, vector[double] e, vector[double] ph, vector[double] co, vector[double] inc, vector[double] pa):
        self.p.setMassAttenuationCoefficients(n, e, ph, co, inc, pa)
    def getMuTable(self, string n): return self.p.getMassAttenuationCoefficients(n)
    def getMuV(self, string n, vector[double] e): return self.p.getMassAttenuationCoefficients(n, e)
    def getMu(self, string n, double e): return self.p.getMassAttenuationCoefficients(n, e)
    def getMuDictV(self, MSD m, vector[double] e, int isComp=0): return self.p.getMassAttenuationCoefficients(m, e, isComp)
    def getMuDict(self, MSD m, double e, int isComp=0): return self.p.getMassAttenuationCoefficients(m, e, isComp)
    def createMaterial(self, string n, double d, double t, string c): return _mat(self.p.createMaterial(n, d, t, c))
    def setMaterialComposition(self, string n, MSD m): self.p.setMaterialComposition(n, m)
    def setMaterialCompositionV(self, string n, vector[string] l, vector[double] v): self.p.setMaterialComposition(n, l, v)
    def getMaterial(self, string n): return _mat(self.p.getMaterial(n))
    def getMaterialCopy(self, string n): return _mat(self.p.getMaterialCopy(n))
    def getMaterialNames(self): return self.p.getMaterialNames()
    def addMaterial(self, CMaterial m, int e=1): self.p.addMaterial(deref(m.p), e)
    def addMaterialS(self, string n, double d=1.0, double t=1.0, string c="", int e=1): self.p.addMaterial(n, d, t, c, e)
    def removeMaterial(self, string n): self.p.removeMaterial(n)
    def removeMaterials(self): self.p.removeMaterials()
    def getCompositionFromFormula(self, string f): return self.p.getCompositionFromFormula(f)
    def getComposition(self, string n): return self.p.getComposition(n)
    def getCompositionExtra(self, string n, list mats): return self.p.getComposition(n, _mats(mats))
    def getCompositionDict(self, MSD m, list mats): return self.p.getComposition(m, _mats(mats))
    def parseFormula(self, string f): return self.p.parseFormula(f)
    def getFactorsV(self, string n, vector[double] e, vector[double] w): return self.p.getExcitationFactors(n, e, w)
    def getFactors(self, string n, double e, double w=1.0): return self.p.getExcitationFactors(n, e, w)
    def getPeakFamilies(self, string n, double e): return [tuple(x) for x in self.p.getPeakFamilies(n, e)]
    def getPeakFamiliesV(self, vector[string] n, double e): return [tuple(x) for x in self.p.getPeakFamilies(n, e)]
    def getAtomicMass(self, string n): return self.p.getAtomicMass(n)
    def getAtomicNumber(self, string n): return self.p.getAtomicNumber(n)
    def getBindingEnergies(self, string n): return self.p.getBindingEnergies(n)
    def getDensity(self, string n): return self.p.getDensity(n)
    def getLongName(self, string n): return self.p.getLongName(n)
    def getColumn(self, string n): return self.p.getColumn(n)
    def getRow(self, string n): return self.p.getRow(n)
    def getEscape(self, MSD c, double e, double et=0.010, double it=1e-7, int nt=4, double a=90., double t=0.0):
        return self.p.getEscape(c, e, et, it, nt, a, t)
    def updateEscapeCache(self, MSD c, vector[double] e, double et=0.010, double it=1e-7, int nt=4, double a=90., double t=0.0):
        self.p.updateEscapeCache(c, e, et, it, nt, a, t)
    def setElementCascadeCacheEnabled(self, string n, int f): self.p.setElementCascadeCacheEnabled(n, f)
    def isElementCascadeCacheFilled(self, string n): return self.p.isElementCascadeCacheFilled(n)
    def fillElementCascadeCache(self, string n): self.p.fillElementCascadeCache(n)
    def emptyElementCascadeCache(self, string n): self.p.emptyElementCascadeCache(n)
    def setEscapeCacheEnabled(self, int f): self.p.setEscapeCacheEnabled(f)
    def isEscapeCacheEnabled(self): return self.p.isEscapeCacheEnabled()
    def fillCache(self, string n, vector[double] e): self.p.fillCache(n, e)
    def setCacheEnabled(self, string n, int f): self.p.setCacheEnabled(n, f)
    def updateCache(self, string n, vector[double] e): self.p.updateCache(n, e)
    def clearCache(self, string n): self.p.clearCache(n)
    def clearEscapeCache(self): self.p.clearEscapeCache()
    def isCacheEnabled(self, string n): return self.p.isCacheEnabled(n)
    def getCacheSize(self, string n): return self.p.getCacheSize(n)


cdef class CLayer:
    cdef Layer *p
    def __cinit__(self, string name="", double density=0.0, double thickness=0.0, double funny=1.0):
        self.p = new Layer(name, density, thickness, funny)
    def __dealloc__(self):
        del self.p
    def setMaterialS(self, string n): self.p.setMaterial(n)
    def setMaterial(self, CMaterial m): self.p.setMaterial(deref(m.p))
    def getName(self): return self.p.getName()
    def getComposition(self, CElements e): return self.p.getComposition(deref(e.p))
    def getMaterial(self): return _mat(self.p.getMaterial())
    def getTransmission(self, double e, CElements el, double a=90.): return self.p.getTransmission(e, deref(el.p), a)
    def getTransmissionV(self, vector[double] e, CElements el, double a=90.): return self.p.getTransmission(e, deref(el.p), a)
    def getMu(self, double e, CElements el): return self.p.getMassAttenuationCoefficients(e, deref(el.p))
    def getMuV(self, vector[double] e, CElements el): return self.p.getMassAttenuationCoefficients(e, deref(el.p))
    def hasMaterialComposition(self): return self.p.hasMaterialComposition()
    def getPeakFamilies(self, double e, CElements el): return [tuple(x) for x in self.p.getPeakFamilies(e, deref(el.p))]
    def getMaterialName(self): return self.p.getMaterialName()
    def setDensity(self, double d): self.p.setDensity(d)
    def setThickness(self, double d): self.p.setThickness(d)
    def getDensity(self): return self.p.getDensity()
    def getThickness(self): return self.p.getThickness()
    def getFunnyFactor(self): return self.p.getFunnyFactor()

cdef _layer(Layer l):
    cdef CLayer r = CLayer()
    del r.p
    r.p = new Layer(l)
    return r

cdef vector[Layer] _layers(list ls) except *:
    cdef vector[Layer] v
    cdef CLayer c
    for m in ls:
        c = m
        v.push_back(deref(c.p))
    return v


cdef class CDetector:
    cdef Detector *p
    def __cinit__(self, string name="", double density=0.0, double thickness=0.0, double funny=1.0):
        self.p = new Detector(name, density, thickness, funny)
    def __dealloc__(self):
        del self.p
    def setMaterialS(self, string n): self.p.setMaterial(n)
    def setMaterial(self, CMaterial m): self.p.setMaterial(deref(m.p))
    def setActiveArea(self, double v): self.p.setActiveArea(v)
    def setDiameter(self, double v): self.p.setDiameter(v)
    def getActiveArea(self): return self.p.getActiveArea()
    def getDiameter(self): return self.p.getDiameter()
    def setDistance(self, double v): self.p.setDistance(v)
    def getDistance(self): return self.p.getDistance()
    def clearEscapePeakCache(self): self.p.clearEscapePeakCache()
    def getEscapePeakEnergyThreshold(self): return self.p.getEscapePeakEnergyThreshold()
    def getEscapePeakIntensityThreshold(self): return self.p.getEscapePeakIntensityThreshold()
    def getEscapePeakNThreshold(self): return self.p.getEscapePeakNThreshold()
    def getEscapePeakAlphaIn(self): return self.p.getEscapePeakAlphaIn()
    def getEscape(self, double e, CElements el, string label="", int update=1):
        return self.p.getEscape(e, deref(el.p), label, update)
    def setMinimumEscapePeakEnergy(self, double v): self.p.setMinimumEscapePeakEnergy(v)
    def setMinimumEscapePeakIntensity(self, double v): self.p.setMinimumEscapePeakIntensity(v)
    def setMaximumNumberOfEscapePeaks(self, int v): self.p.setMaximumNumberOfEscapePeaks(v)
    def getName(self): return self.p.getName()
    def getComposition(self, CElements e): return self.p.getComposition(deref(e.p))
    def getTransmission(self, double e, CElements el, double a=90.): return self.p.getTransmission(e, deref(el.p), a)
    def getTransmissionV(self, vector[double] e, CElements el, double a=90.): return self.p.getTransmission(e, deref(el.p), a)
    def hasMaterialComposition(self): return self.p.hasMaterialComposition()
    def getMaterial(self): return _mat(self.p.getMaterial())
    def getMaterialName(self): return self.p.getMaterialName()
    def setDensity(self, double d): self.p.setDensity(d)
    def setThickness(self, double d): self.p.setThickness(d)
    def getDensity(self): return self.p.getDensity()
    def getThickness(self): return self.p.getThickness()
    def getFunnyFactor(self): return self.p.getFunnyFactor()


cdef class CBeam:
    cdef Beam *p
    def __cinit__(self):
        self.p = new Beam()
    def __dealloc__(self):
        del self.p
    def setBeam(self, vector[double] e, vector[double] w=(), vector[int] c=(), vector[double] d=()):
        self.p.setBeam(e, w, c, d)
    def setBeamArrays(self, vector[double] e, w=None, c=None, d=None):
        cdef vector[double] ww, dd
        cdef vector[int] cc
        cdef double *pw = NULL
        cdef double *pd = NULL
        cdef int *pc = NULL
        if w is not None:
            ww = w; pw = ww.data()
        if c is not None:
            cc = c; pc = cc.data()
        if d is not None:
            dd = d; pd = dd.data()
        self.p.setBeamC(<int> e.size(), e.data(), pw, pc, pd)
    def setBeamArraysD(self, vector[double] e, w=None, c=None, d=None):
        """flags as double"""
        cdef vector[double] ww, cc, dd
        cdef double *pw = NULL
        cdef double *pd = NULL
        cdef double *pc = NULL
        if w is not None:
            ww = w; pw = ww.data()
        if c is not None:
            cc = c; pc = cc.data()
        if d is not None:
            dd = d; pd = dd.data()
        self.p.setBeamCD(<int> e.size(), e.data(), pw, pc, pd)
    def setSingleEnergyBeam(self, double e, double d=0.0): self.p.setSingleEnergyBeam(e, d)
    def get(self): return self.p.getBeamAsDoubleVectors()


cdef class CTable:
    cdef TransmissionTable *p
    def __cinit__(self):
        self.p = new TransmissionTable()
    def __dealloc__(self):
        del self.p
    def setName(self, string n): self.p.setName(n)
    def setComment(self, string n): self.p.setComment(n)
    def setMap(self, cmap[double, double] t, string n="", string c=""): self.p.setTransmissionTable(t, n, c)
    def setLists(self, vector[double] e, vector[double] t, string n="", string c=""): self.p.setTransmissionTable(e, t, n, c)
    def getTable(self): return self.p.getTransmissionTable()
    def get(self, double e): return self.p.getTransmission(e)
    def getV(self, vector[double] e): return self.p.getTransmission(e)
    def getName(self): return self.p.getName()
    def getComment(self): return self.p.getComment()

cdef vector[TransmissionTable] _tables(list ls) except *:
    cdef vector[TransmissionTable] v
    cdef CTable c
    for m in ls:
        c = m
        v.push_back(deref(c.p))
    return v

cdef list _latin(vector[string] v):
    return [(<bytes> x).decode("latin-1") for x in v]


cdef class CIni:
    cdef SimpleIni *p
    def __cinit__(self, name=None):
        cdef string n
        if name is None:
            self.p = new SimpleIni()
        else:
            n = name
            self.p = new SimpleIni(n)
    def __dealloc__(self):
        del self.p
    def readFileName(self, string n): self.p.readFileName(n)
    def getSections(self): return _latin(self.p.getSections())
    def getSubsections(self, bytes parent, cbool cs=True):
        cdef vector[string] d
        cdef string par = parent
        self.p.getSubsections(par, d, cs)
        return _latin(d)
    def readSection(self, bytes s, cbool cs=True):
        cdef string n = s
        cdef cmap[string, string] m = self.p.readSection(n, cs)
        out = {}
        for x in m:
            out[(<bytes> x.first).decode("latin-1")] = (<bytes> x.second).decode("latin-1")
        return out

def ini_single_d(string s, double d): return vfx_single_d(s, d)
def ini_single_i(string s, int d): return vfx_single_i(s, d)
def ini_multi_d(string s, double d, str sep=","): return vfx_multi_d(s, d, <char> ord(sep))
def ini_multi_i(string s, int d, str sep=","): return vfx_multi_i(s, d, <char> ord(sep))
def ini_multi_s(string s, string d, str sep=","): return vfx_multi_s(s, d, <char> ord(sep))


cdef class CSpec:
    cdef SimpleSpecfile *p
    def __cinit__(self, name=None):
        cdef string n
        if name is None:
            self.p = new SimpleSpecfile()
        else:
            n = name
            self.p = new SimpleSpecfile(n)
    def __dealloc__(self):
        del self.p
    def setFileName(self, string n): self.p.setFileName(n)
    def getNumberOfScans(self): return self.p.getNumberOfScans()
    def getScanLabels(self, int i): return _latin(self.p.getScanLabels(i))
    def getScanData(self, int i): return self.p.getScanData(i)


cdef class CEPDL97:
    cdef EPDL97 *p
    def __cinit__(self, string d):
        self.p = new EPDL97(d)
    def __dealloc__(self):
        del self.p
    def setDataDirectory(self, string d): self.p.setDataDirectory(d)
    def loadBindingEnergies(self, string f): self.p.loadBindingEnergies(f)
    def setBindingEnergies(self, int z, MSD m): self.p.setBindingEnergies(z, m)
    def getBindingEnergies(self, int z): return self.p.getBindingEnergies(z)
    def getMu(self, int z, double e): return self.p.getMassAttenuationCoefficients(z, e)
    def getMuV(self, int z, vector[double] e): return self.p.getMassAttenuationCoefficients(z, e)
    def getMuTable(self, int z): return self.p.getMassAttenuationCoefficients(z)
    def getWeights(self, int z, double e): return self.p.getPhotoelectricWeights(z, e)
    def getWeightsV(self, int z, vector[double] e): return self.p.getPhotoelectricWeights(z, e)


class CMath:
    @staticmethod
    def E1(double x): return Math.E1(x)
    @staticmethod
    def En(int n, double x): return Math.En(n, x)
    @staticmethod
    def deBoerD(double x): return Math.deBoerD(x)
    @staticmethod
    def deBoerL0(double a, double b, double c, double d, double e): return Math.deBoerL0(a, b, c, d, e)
    @staticmethod
    def deBoerX(double a, double b, double c, double d, double e, double f, double g): return Math.deBoerX(a, b, c, d, e, f, g)
    @staticmethod
    def deBoerV(double a, double b, double c, double d, double e, double f, double g): return Math.deBoerV(a, b, c, d, e, f, g)
    @staticmethod
    def AS_5_1_53(double x): return Math.AS_5_1_53(x)
    @staticmethod
    def AS_5_1_56(double x): return Math.AS_5_1_56(x)
    @staticmethod
    def getFWHM(double a, double b, double c, double d): return Math.getFWHM(a, b, c, d)
    @staticmethod
    def erf(double x): return Math.erf(x)
    @staticmethod
    def erfc(double x): return Math.erfc(x)
    @staticmethod
    def isNumber(double x): return Math.isNumber(x)
    @staticmethod
    def isFiniteNumber(double x): return Math.isFiniteNumber(x)


cdef class CXRF:
    cdef XRF *p
    def __cinit__(self, name=None):
        cdef string n
        if name is None:
            self.p = new XRF()
        else:
            n = name
            self.p = new XRF(n)
    def __dealloc__(self):
        del self.p
    def readConfigurationFromFile(self, string f): self.p.readConfigurationFromFile(f)
    def setBeamO(self, CBeam b): self.p.setBeam(deref(b.p))
    def setBeam(self, vector[double] e, vector[double] w, vector[int] c=(), vector[double] d=()): self.p.setBeam(e, w, c, d)
    def setSingleEnergyBeam(self, double e, double d=0.0): self.p.setSingleEnergyBeam(e, d)
    def setBeamFilters(self, list l): self.p.setBeamFilters(_layers(l))
    def setUserBeamFilters(self, list l): self.p.setUserBeamFilters(_tables(l))
    def setSample(self, list l, int ref=0): self.p.setSample(_layers(l), ref)
    def setSampleN(self, string n, double d=1.0, double t=1.0): self.p.setSampleN(n, d, t)
    def setSampleL(self, CLayer l): self.p.setSampleL(deref(l.p))
    def setAttenuators(self, list l): self.p.setAttenuators(_layers(l))
    def setUserAttenuators(self, list l): self.p.setUserAttenuators(_tables(l))
    def setDetector(self, CDetector d): self.p.setDetector(deref(d.p))
    def setGeometry(self, double a, double b, double c=-90.): self.p.setGeometry(a, b, c)
    def getGeometricEfficiency(self, int i=0): return self.p.getGeometricEfficiency(i)
    def fluo1(self, string el, CElements e, int layer=0, string fam="", int sec=0, int geo=1, int mf=0, double lim=0.0, CBeam beam=None):
        cdef CBeam b = beam if beam is not None else CBeam()
        return self.p.getMultilayerFluorescence(el, deref(e.p), layer, fam, sec, geo, mf, lim, deref(b.p))
    def fluo(self, vector[string] l, CElements e, int sec=0, int geo=1, int mf=0, double lim=0.0, CBeam beam=None):
        cdef CBeam b = beam if beam is not None else CBeam()
        return self.p.getMultilayerFluorescence(l, deref(e.p), sec, geo, mf, lim, deref(b.p))
    def fluoL(self, vector[string] l, CElements e, vector[int] layers, vector[string] fams, int sec=0, int geo=1, int mf=0, double lim=0.0, CBeam beam=None):
        cdef CBeam b = beam if beam is not None else CBeam()
        return self.p.getMultilayerFluorescence(l, deref(e.p), layers, fams, sec, geo, mf, lim, deref(b.p))
    def getEnergyThreshold(self, string n, string f, CElements e): return self.p.getEnergyThreshold(n, f, deref(e.p))
    def getBeam(self): return self.p.getBeam().getBeamAsDoubleVectors()
    def getBeamFilters(self): return _lay(self.p.getBeamFilters())
    def getSample(self): return _lay(self.p.getSample())
    def getAttenuators(self): return _lay(self.p.getAttenuators())
    def getUserBeamFilters(self): return _tab(self.p.getUserBeamFilters())
    def getUserAttenuators(self): return _tab(self.p.getUserAttenuators())
    def getDetector(self):
        cdef CDetector d = CDetector()
        del d.p
        d.p = new Detector(self.p.getDetector())
        return d
    def getAlphaIn(self): return self.p.getAlphaIn()
    def getAlphaOut(self): return self.p.getAlphaOut()
    def getScatteringAngle(self): return self.p.getScatteringAngle()
    def getReferenceLayer(self): return self.p.getReferenceLayer()
    def getMaterials(self):
        cdef vector[Material] v = self.p.getMaterials()
        out = []
        cdef size_t i
        for i in range(v.size()):
            out.append(_mat(v[i]))
        return out
    def getLayerComposition(self, CLayer l, CElements e): return self.p.getLayerComposition(deref(l.p), deref(e.p))
    def getLayerMu(self, CLayer l, double en, CElements e, MSD comp={}): return self.p.getLayerMassAttenuationCoefficients(deref(l.p), en, deref(e.p), comp)
    def getLayerMuV(self, CLayer l, vector[double] en, CElements e, MSD comp={}): return self.p.getLayerMassAttenuationCoefficients(deref(l.p), en, deref(e.p), comp)
    def getLayerTransmission(self, CLayer l, double en, CElements e, double a=90., MSD comp={}): return self.p.getLayerTransmission(deref(l.p), en, deref(e.p), a, comp)
    def getLayerTransmissionV(self, CLayer l, vector[double] en, CElements e, double a=90., MSD comp={}): return self.p.getLayerTransmission(deref(l.p), en, deref(e.p), a, comp)
    def getLayerPeakFamilies(self, CLayer l, double en, CElements e, MSD comp={}): return [tuple(x) for x in self.p.getLayerPeakFamilies(deref(l.p), en, deref(e.p), comp)]

cdef _lay(vector[Layer] v):
    out = []
    cdef size_t i
    for i in range(v.size()):
        out.append(_layer(v[i]))
    return out

cdef _tab(vector[TransmissionTable] v):
    out = []
    cdef size_t i
    for i in range(v.size()):
        t = v[i]
        out.append((t.getName(), t.getComment(), t.getTransmissionTable()))
    return out

def defaults(CElements e, CXRF x, CLayer l, CDetector d, CElement el, string name, string family, string request, double en, vector[double] es, MSD comp, MSD dist, int li):
    """[name, [what leaving optional arguments out gives, what giving their documented defaults gives]]"""
    return vfx_defaults(deref(e.p), deref(x.p), deref(l.p), deref(d.p), deref(el.p), name, family, request, en, es, comp, dist, li)

// Calculations of several threads on one set-up and one library, built with the thread sanitizer.
//
// Reads set-ups from the standard input, and for each one
//  - builds the set-up and a copy of the library, shared by the threads,
//  - starts the threads together: each goes through its own list of queries, and asks some of them again,
//  - afterwards, one after the other on another set-up and another copy of the library, asks the same,
// and tells whether every answer of the threads is exactly the one obtained alone.  A data race ends the process.
#include <atomic>
#include <cstdio>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include "fisx_elements.h"
#include "fisx_math.h"
#include "fisx_simpleini.h"
#include "fisx_simplespecfile.h"
#include "fisx_xrf.h"

using namespace fisx;
typedef std::map<std::string, double> MSD;

static std::istream & in = std::cin;
static std::string word() { std::string s; if (!(in >> s)) throw std::runtime_error("end of input"); return s == "-" ? "" : s; }
static double number() { return atof(word().c_str()); }
static int integer() { return atoi(word().c_str()); }
static std::vector<double> numbers() { int n = integer(); std::vector<double> v; while (n-- > 0) v.push_back(number()); return v; }
static std::vector<int> integers() { int n = integer(); std::vector<int> v; while (n-- > 0) v.push_back(integer()); return v; }
static std::vector<std::string> words() { int n = integer(); std::vector<std::string> v; while (n-- > 0) v.push_back(word()); return v; }
static MSD mapping() { int n = integer(); MSD m; while (n-- > 0) { std::string k = word(); m[k] = number(); } return m; }

struct LayerData { std::string name; bool own; MSD comp; double rho, t, f; };
static LayerData layer() { LayerData l; l.name = word(); l.own = integer(); l.comp = mapping(); l.rho = number(); l.t = number(); l.f = number(); return l; }
static std::vector<LayerData> layers() { int n = integer(); std::vector<LayerData> v; while (n-- > 0) v.push_back(layer()); return v; }
struct TableData { std::vector<double> e, t; };
static std::vector<TableData> tables() { int n = integer(); std::vector<TableData> v; while (n-- > 0) { TableData t; t.e = numbers(); t.t = numbers(); v.push_back(t); } return v; }

template <class T> static T made(const LayerData & l)
{
    T x(l.own ? "" : l.name, l.rho, l.t, l.f);
    if (l.own)
    {
        Material m("mat", 1.0, 1.0, "");
        m.setComposition(l.comp);
        x.setMaterial(m);
    }
    return x;
}
static std::vector<Layer> made(const std::vector<LayerData> & v) { std::vector<Layer> r; for (size_t i = 0; i < v.size(); i++) r.push_back(made<Layer>(v[i])); return r; }
static std::vector<TransmissionTable> made(const std::vector<TableData> & v)
{
    std::vector<TransmissionTable> r;
    for (size_t i = 0; i < v.size(); i++) { TransmissionTable t; t.setTransmissionTable(v[i].e, v[i].t); r.push_back(t); }
    return r;
}

struct Query
{
    std::string kind;
    std::vector<std::string> els, fams;
    std::vector<int> lays;
    std::vector<double> e, w;
    int a, b, c;
    double x;
    MSD comp;
};

struct Case
{
    std::vector<double> beame, beamw;
    std::vector<LayerData> filters, sample, attenuators, detector;
    std::vector<TableData> ufilters, uatt;
    std::vector<double> geo, det;
    int ref;
    std::vector<std::pair<std::string, MSD> > materials;
    std::vector<std::pair<std::string, std::vector<double> > > cached;
    int cascade, escape;
    std::vector<std::vector<Query> > threads;
    std::string config, ini, spec;
};

static Case read()
{
    Case c;
    int n;
    c.beame = numbers(); c.beamw = numbers();
    c.filters = layers(); c.sample = layers(); c.ref = integer(); c.attenuators = layers();
    c.ufilters = tables(); c.uatt = tables();
    c.geo = numbers();
    c.det = numbers(); c.detector = layers();
    for (n = integer(); n-- > 0; ) { std::string k = word(); c.materials.push_back(std::make_pair(k, mapping())); }
    for (n = integer(); n-- > 0; ) { std::string k = word(); c.cached.push_back(std::make_pair(k, numbers())); }
    c.cascade = integer(); c.escape = integer();
    c.ini = word(); c.spec = word();
    for (n = integer(); n-- > 0; )
    {
        c.threads.push_back(std::vector<Query>());
        for (int m = integer(); m-- > 0; )
        {
            Query q;
            q.kind = word(); q.els = words(); q.fams = words(); q.lays = integers(); q.e = numbers(); q.w = numbers();
            q.a = integer(); q.b = integer(); q.c = integer(); q.x = number(); q.comp = mapping();
            c.threads.back().push_back(q);
        }
    }
    return c;
}

static void prepare(const Case & c, Elements & lib)
{
    for (size_t i = 0; i < c.materials.size(); i++)
    {
        Material m(c.materials[i].first, 1.0, 1.0, "");
        m.setComposition(c.materials[i].second);
        lib.addMaterial(m, 0);
    }
    for (size_t i = 0; i < c.cached.size(); i++)
    {
        lib.fillCache(c.cached[i].first, c.cached[i].second);
        lib.setCacheEnabled(c.cached[i].first, 1);
        if (c.cascade) lib.setElementCascadeCacheEnabled(c.cached[i].first, 1);
    }
    lib.setEscapeCacheEnabled(c.escape);
}

static void prepare(const Case & c, XRF & xrf)
{
    if (c.beame.size()) xrf.setBeam(c.beame, c.beamw);
    xrf.setBeamFilters(made(c.filters));
    xrf.setUserBeamFilters(made(c.ufilters));
    xrf.setSample(made(c.sample), c.ref);
    xrf.setAttenuators(made(c.attenuators));
    xrf.setUserAttenuators(made(c.uatt));
    xrf.setGeometry(c.geo[0], c.geo[1], c.geo[2]);
    if (c.det.size())
    {
        Detector d("", 0.0, 0.0);
        if (c.detector.size()) d = made<Detector>(c.detector[0]);
        if (c.det[0] > 0) d.setDiameter(c.det[0]);
        if (c.det[1] > 0) d.setDistance(c.det[1]);
        if (c.det[2] > 0) d.setMinimumEscapePeakIntensity(c.det[2]);
        xrf.setDetector(d);
    }
}

template <class A, class B> static void put(std::ostringstream & o, const std::pair<A, B> & x);
template <class T> static void put(std::ostringstream & o, const std::vector<T> & v);
template <class K, class V> static void put(std::ostringstream & o, const std::map<K, V> & m);
static void put(std::ostringstream & o, const double & x) { char b[40]; snprintf(b, sizeof(b), "%.17g ", x); o << b; }
static void put(std::ostringstream & o, const int & x) { o << x << " "; }
static void put(std::ostringstream & o, const std::string & x) { o << x << " "; }
template <class A, class B> static void put(std::ostringstream & o, const std::pair<A, B> & x) { put(o, x.first); put(o, x.second); }
template <class T> static void put(std::ostringstream & o, const std::vector<T> & v) { o << "[ "; for (size_t i = 0; i < v.size(); i++) put(o, v[i]); o << "] "; }
template <class K, class V> static void put(std::ostringstream & o, const std::map<K, V> & m)
{
    o << "{ ";
    for (typename std::map<K, V>::const_iterator i = m.begin(); i != m.end(); ++i) { put(o, i->first); o << ": "; put(o, i->second); }
    o << "} ";
}

static std::string ask(const Case & c, const Query & q, XRF & xrf, const Elements & lib)
{
    std::ostringstream o;
    try
    {
        if (q.kind == "fluo" || q.kind == "list" || q.kind == "own")
        {
            Beam beam;
            if (q.e.size()) beam.setBeam(q.e, q.w);
            XRF mine;
            if (q.kind == "own") prepare(c, mine);
            XRF & x = q.kind == "own" ? mine : xrf;
            if (q.kind == "list")
            {
                std::vector<std::string> r;
                for (size_t i = 0; i < q.els.size(); i++)
                {
                    std::ostringstream s;
                    s << q.els[i] << " " << q.fams[i];
                    if (q.lays[i] >= 0) s << " " << q.lays[i];
                    r.push_back(s.str());
                }
                put(o, x.getMultilayerFluorescence(r, lib, q.a, q.b, q.c, q.x, beam));
            }
            else
                put(o, x.getMultilayerFluorescence(q.els, lib, q.lays, q.fams, q.a, q.b, q.c, q.x, beam));
        }
        else if (q.kind == "mu")
        {
            put(o, lib.getMassAttenuationCoefficients(q.comp, q.e, 0));
            for (size_t i = 0; i < q.els.size(); i++) put(o, lib.getMassAttenuationCoefficients(q.els[i], q.e));
        }
        else if (q.kind == "element")
        {
            for (size_t i = 0; i < q.els.size(); i++)
            {
                put(o, lib.getExcitationFactors(q.els[i], q.e));
                for (size_t j = 0; j < q.e.size(); j++) put(o, lib.getEmittedXRayLines(q.els[i], q.e[j]));
                put(o, lib.getInitialPhotoelectricVacancyDistribution(q.els[i], q.e[0]));
                put(o, lib.getPeakFamilies(q.els[i], q.e[0]));
                put(o, lib.getBindingEnergies(q.els[i]));
            }
        }
        else if (q.kind == "composition")
        {
            std::string f;
            for (size_t i = 0; i < q.els.size(); i++) { put(o, lib.getComposition(q.els[i])); f += "(" + q.els[i] + "0.5)2"; }
            for (size_t i = 0; i < c.materials.size(); i++) put(o, lib.getComposition(c.materials[i].first));
            put(o, lib.getComposition(f));
        }
        else if (q.kind == "escape")
        {
            for (size_t j = 0; j < q.e.size(); j++) put(o, lib.getEscape(q.comp, q.e[j], 0.01, 1e-7, 4, q.x, 0.0));
        }
        else if (q.kind == "layer")
        {
            for (size_t i = 0; i < c.sample.size(); i++)
            {
                const Layer l = made<Layer>(c.sample[i]);
                put(o, l.getTransmission(q.e, lib, q.x));
                put(o, xrf.getLayerTransmission(l, q.e, lib, q.x));
                put(o, xrf.getLayerComposition(l, lib));
            }
            for (size_t i = 0; i < c.sample.size(); i++) put(o, xrf.getGeometricEfficiency((int) i));
        }
        else if (q.kind == "table")
        {
            std::vector<TransmissionTable> t = made(c.uatt);
            for (size_t i = 0; i < t.size(); i++) put(o, t[i].getTransmission(q.e));
        }
        else if (q.kind == "math")
        {
            for (size_t i = 0; i < q.e.size(); i++)
            {
                put(o, Math::E1(q.e[i])); put(o, Math::En(2, q.e[i])); put(o, Math::deBoerD(q.e[i])); put(o, Math::erf(q.e[i]));
                put(o, Math::deBoerL0(q.e[i], q.x, 1.0 + q.x, 1.5, 0.1)); put(o, Math::deBoerX(q.e[i], q.x, 0.1, 0.2, 3.0, 4.0, 0.5));
            }
        }
        else if (q.kind == "ini" && c.ini.size())
        {
            SimpleIni s(c.ini);
            std::vector<std::string> v = s.getSections();
            for (size_t i = 0; i < v.size(); i++) { put(o, v[i]); put(o, s.readSection(v[i])); }
        }
        else if (q.kind == "spec" && c.spec.size())
        {
            SimpleSpecfile s(c.spec);
            for (int i = 0; i < s.getNumberOfScans() && i < 4; i++) { put(o, s.getScanLabels(i)); put(o, s.getScanData(i)); }
        }
    }
    catch (const std::exception & e)
    {
        o << "exception " << e.what();
    }
    return o.str();
}

int main(int argc, char ** argv)
{
    std::ios::sync_with_stdio(false);
    const Elements base(argv[1]);
    FILE * out = fdopen(atoi(argv[2]), "w");
    fprintf(out, "ready\n");
    fflush(out);
    while (1)
    {
        Case c;
        try { if (word() != "case") break; c = read(); }
        catch (const std::exception &) { break; }
        std::string message;
        size_t answers = 0, filled = 0;
        try
        {
            Elements lib(base), lib2(base);
            XRF xrf, xrf2;
            prepare(c, lib);
            prepare(c, xrf);
            size_t n = c.threads.size();
            std::vector<std::vector<std::string> > got(n);
            std::vector<std::thread> ts;
            std::atomic<size_t> here(0);
            for (size_t i = 0; i < n; i++)
            {
                ts.push_back(std::thread([&, i]() {
                    const std::vector<Query> & v = c.threads[i];
                    here++;
                    while (here.load() < n) {}
                    for (size_t k = 0; k < 2 * v.size(); k++) got[i].push_back(ask(c, v[k % v.size()], xrf, lib));
                }));
            }
            for (size_t i = 0; i < n; i++) ts[i].join();
            prepare(c, lib2);
            prepare(c, xrf2);
            for (size_t i = 0; i < n && message.empty(); i++)
            {
                const std::vector<Query> & v = c.threads[i];
                for (size_t k = 0; k < v.size() && message.empty(); k++)
                {
                    std::string want = ask(c, v[k], xrf2, lib2);
                    answers += 2;
                    if (want.size() > 20 && want.compare(0, 9, "exception")) filled += 1;
                    for (int r = 0; r < 2; r++)
                    {
                        const std::string & g = got[i][k + r * v.size()];
                        if (g != want)
                        {
                            size_t p = 0;
                            while (p < g.size() && p < want.size() && g[p] == want[p]) p++;
                            p = p > 40 ? p - 40 : 0;
                            std::ostringstream o;
                            o << "thread " << i << " query " << k << " " << v[k].kind << " gives ..." << g.substr(p, 120) << "... and alone ..." << want.substr(p, 120);
                            message = o.str();
                            break;
                        }
                    }
                }
            }
        }
        catch (const std::exception & e)
        {
            fprintf(out, "skip %s\n", e.what());
            fflush(out);
            continue;
        }
        for (size_t i = 0; i < message.size(); i++) if (message[i] == '\n') message[i] = ' ';
        if (message.size()) fprintf(out, "diff %s\n", message.c_str());
        else fprintf(out, "ok %zu %zu\n", answers, filled);
        fflush(out);
    }
    return 0;
}

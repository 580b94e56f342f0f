// any bytes as a specfile
#include "common.h"
#include "fisx_simplespecfile.h"

using namespace fisx;
static const char GOOD[] = "#F x\n\n#S 1 a\n#N 2\n#L a  b\n1 2\n3 4\n\n#S 2 b\n#L c\n5\n";

extern "C" int LLVMFuzzerTestOneInput(const uint8_t * data, size_t size)
{
    static ScratchFile f, g;
    static const std::string good = g.set(GOOD, sizeof(GOOD) - 1);
    SimpleSpecfile reused;
    try { SimpleSpecfile s(f.set(data, size)); } catch (const std::exception &) { return 0; }
    SimpleSpecfile s(f.path);
    int n = s.getNumberOfScans();
    EXPECT(n >= 0 && (size_t) n <= size, "number of scans");
    for (int i = -1; i <= n; i++)
    {
        if (i > 40 && i < n - 2) continue;
        bool ok = true, again = true;
        std::vector<std::string> l, l2;
        std::vector<std::vector<double> > d, d2;
        try { l = s.getScanLabels(i); } catch (const std::exception &) { ok = false; }
        try { l2 = s.getScanLabels(i); } catch (const std::exception &) { again = false; }
        EXPECT(ok == again && l == l2, "labels read twice");
        EXPECT(!(ok && (i < 0 || i >= n)), "labels of a scan that is not there");
        ok = again = true;
        try { d = s.getScanData(i); } catch (const std::exception &) { ok = false; }
        try { d2 = s.getScanData(i); } catch (const std::exception &) { again = false; }
        EXPECT(ok == again && d.size() == d2.size(), "data read twice");
        EXPECT(!(ok && (i < 0 || i >= n)), "data of a scan that is not there");
        for (size_t j = 0; j < d.size(); j++)
        {
            EXPECT(d[j].size() == d[0].size() && d[j].size() > 0, "ragged data");
            EXPECT(memcmp(&d[j][0], &d2[j][0], d[j].size() * sizeof(double)) == 0, "data read twice");
        }
    }
    // the object goes on working
    s.setFileName(good);
    EXPECT(s.getNumberOfScans() == 2, "scans of the good file");
    EXPECT(s.getScanLabels(0).size() == 2 && s.getScanLabels(0)[1] == "b", "labels of the good file");
    EXPECT(s.getScanData(0).size() == 2 && s.getScanData(0)[1][1] == 4.0, "data of the good file");
    EXPECT(s.getScanData(1).size() == 1 && s.getScanData(1)[0][0] == 5.0, "data of the good file");
    return 0;
}

ID='p10_centre_weight'
PROP='P10'
NEEDS='an even number (four or more) of distributed beads and a thickness different from the optimal one'
BREAKS='the distribution of the difference in thickness is symmetric; with the change the middle is rounded down, so for even bead counts one side takes more'
EDITS=[('src/BeadingStrategy/DistributedBeadingStrategy.cpp','        const double middle = static_cast<double>(bead_count - 1) / 2;','        const double middle = static_cast<double>((bead_count - 1) / 2);')]
DEMO='''#include "BeadingStrategy/DistributedBeadingStrategy.h"
#include <cstdio>
using namespace cura;
int main() {
    DistributedBeadingStrategy d(400, 100, AngleRadians(0.1), Ratio(0.5), Ratio(0.5), 2);
    for (int n = 3; n < 8; n++)
        for (int t = n * 400 - 150; t <= n * 400 + 150; t += 50) {
            auto b = d.compute(t, n);
            for (int i = 0; i < n; i++)
                if (b.bead_widths[i] != b.bead_widths[n - 1 - i]) { printf("%d beads of %d: not symmetric\\n", n, t); return 1; }
        }
    return 0;
}
'''

#include <array>
#include "symx.h"
#include "c10.h"
#include "c11.h"
int main(int argc, char **argv)
{
    try
    {
        loadprog(argv[1]); string m = argv[2];
        if (m == "c10") c10(argv[3], atoi(argv[4]), atoi(argv[5]), atoi(argv[6]), atoi(argv[7]));
        else if (m == "c11") c11();
        else return 2;
    }
    catch (Fail &e) { printf("FAIL %s\n", e.what()); return 1; }
    catch (Undec &e) { printf("UNDECIDED %s\n", e.what()); return 1; }
    string fs; for (auto &f : FNS) if (f.used) fs += (fs.size() ? "," : "") + f.name;
    printf("OK ob=%llu ins=%llu states=%llu runs=%llu funcs=%s%s\n", (unsigned long long) n_ob, (unsigned long long) n_ins, (unsigned long long) n_states, (unsigned long long) n_runs, fs.c_str(), g_extra.c_str());
    return 0;
}

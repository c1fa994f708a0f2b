// worst VARIANT < bounds: the largest number of bits the RLGR code of 4096 coefficients can take when |coefficient i| <= bound[i].
// Exact maximum over the control states (kp, krp, position) of the MS-RDPRFX encoder (the same transitions as rfxvc/rlgr.py, class Ghost),
// by backward dynamic programming: V(pos, kp, krp) = most bits that can follow.
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <deque>
#include <algorithm>
using namespace std;
static const int N = 4096, K = 81;
static int B[N];
static vector<int> V((size_t) (N + 1) * K * K), E, R;
static inline int &at(vector<int> &a, int p, int kp, int krp) { return a[((size_t) p * K + kp) * K + krp]; }
static inline int krnext(int krp, int vk) { return vk == 0 ? max(krp - 2, 0) : vk > 1 ? min(krp + vk, 80) : krp; }
static inline int bitlen(int v) { int n = 0; while (v) { n++; v >>= 1; } return n; }
// most bits of one GR code of a value 0..m, then on to V[p][kp][.]
static int gr(int m, int kr, int krp, int p, int kp)
{
    int best = -1;
    for (int vk = 0; vk <= m >> kr; vk++) best = max(best, vk + 1 + kr + at(V, p, kp, krnext(krp, vk)));
    return best;
}
int main(int argc, char **argv)
{
    int var = atoi(argv[1]);
    for (int i = 0; i < N; i++) if (scanf("%d", &B[i]) != 1 || B[i] < 1) return 2;
    E.resize(V.size()); R.resize(V.size());
    vector<deque<int>> win((size_t) K * K);
    for (int kp = 8; kp < K; kp++) for (int krp = 0; krp < K; krp++) at(R, N, kp, krp) = 1 + (kp >> 3);
    for (int p = N - 1; p >= 0; p--)
    {
        for (int kp = 0; kp < K; kp++) for (int krp = 0; krp < K; krp++)
        {
            int kr = krp >> 3, best = -1;
            if (kp < 8)
            {
                if (var == 1)
                {   // v = 2|x| or 2|x| - 1; zero raises kp, anything else lowers it
                    best = 1 + kr + at(V, p + 1, min(kp + 3, 80), krnext(krp, 0));
                    best = max(best, gr(2 * B[p], kr, krp, p + 1, max(kp - 3, 0)));
                }
                else
                {
                    int last = p + 1 == N, q = last ? N : p + 2, m1 = 2 * B[p], m2 = last ? 0 : 2 * B[p + 1];
                    best = 1 + kr + at(V, q, min(kp + 6, 80), krnext(krp, 0));                 // both zero: no remainder bits
                    for (int both = 0; both < 2; both++)
                    {
                        int m = both ? m1 + m2 : max(m1, m2), lo = both ? 2 : 1; if (both && (last || m2 == 0)) continue;
                        for (int vk = lo >> kr; vk <= m >> kr; vk++)
                        {
                            int v = min(m, ((vk + 1) << kr) - 1); if (v < lo) continue;
                            best = max(best, vk + 1 + kr + bitlen(v) + at(V, q, both ? max(kp - 6, 0) : kp, krnext(krp, vk)));
                        }
                    }
                }
                at(V, p, kp, krp) = best; continue;
            }
            int k = kp >> 3, n = 1 << k;
            // E: position p holds the non-zero value that ends a run
            at(E, p, kp, krp) = gr(B[p] - 1, kr, krp, p + 1, kp - 6);
            deque<int> &d = win[(size_t) kp * K + krp];
            while (!d.empty() && at(E, d.back(), kp, krp) <= at(E, p, kp, krp)) d.pop_back();
            d.push_back(p);
            while (d.front() >= p + n) d.pop_front();
            best = 1 + k + 1 + at(E, d.front(), kp, krp);                                     // fewer than 2^k zeros, then a value
            if (p + n <= N) best = max(best, 1 + at(R, p + n, min(kp + 4, 80), krp));         // 2^k zeros
            else best = max(best, 1 + k);                                                     // zeros to the end
            at(R, p, kp, krp) = best; at(V, p, kp, krp) = best;
        }
    }
    printf("%d\n", at(V, 0, 8, 8));
    return 0;
}

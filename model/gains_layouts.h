// The layouts of the gains tables and their channel counts (ITU-R BS.2051 and IAMF).
#ifndef VF_GAINS_LAYOUTS_H_
#define VF_GAINS_LAYOUTS_H_
struct Layout { const char* name; int channels; };
inline constexpr Layout kLayouts[] = {
    {"0+1+0", 1}, {"0+2+0", 2}, {"0+5+0", 6}, {"0+7+0", 8}, {"2+5+0", 8}, {"3.1.2", 6}, {"4+5+0", 10}, {"4+7+0", 12}, {"7.1.2", 10}, {"7.1.5.4", 17},
    {"9+10+3", 24}, {"9.1.6", 16}, {"A0", 1}, {"A1", 4}, {"A2", 9}, {"A3", 16}, {"A4", 25}, {"3+7+0", 12}, {"4+5+1", 11}, {"4+9+0", 14}};
inline constexpr int kNum = sizeof(kLayouts) / sizeof(kLayouts[0]);
#endif

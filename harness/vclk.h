#pragma once
#ifdef __cplusplus
extern "C" {
#endif
extern int vclk_on; extern long long vclk_now; extern int vclk_sleeps;
#ifdef __cplusplus
}
#endif

extern "C" {
__attribute__((weak)) void vmc_hb_fork(int) {}
__attribute__((weak)) void vmc_hb_join(int) {}
__attribute__((weak)) void vmc_hb_acquire(void*) {}
__attribute__((weak)) void vmc_hb_release(void*) {}
}

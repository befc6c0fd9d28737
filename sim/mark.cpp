// Linked before and after a scenario unit: its static data, and that of the code under test compiled into it, lie between.
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
extern "C" {
char CAT(detsim_data_, MARK)[64] __attribute__((aligned(64))) = {1};
char CAT(detsim_bss_, MARK)[64] __attribute__((aligned(64)));
}

// Initialisers run in link order: those of the scenario unit between these two.
extern "C" bool detsim_booting;
#define BOOT_begin true
#define BOOT_end false
__attribute__((constructor)) static void mark() { detsim_booting = CAT(BOOT_, MARK); }

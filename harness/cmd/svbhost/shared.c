//go:build ignore

// Runs svbmon from a shared library: shared FILE ARGUMENTS... The Go runtime
// in the library takes the arguments from the process.
#include <dlfcn.h>
#include <stdio.h>

int main(int argc, char **argv) {
	void *h = dlopen(argv[1], RTLD_NOW);
	void (*run)(void) = h ? (void (*)(void))dlsym(h, "SvbRun") : 0;
	if (!run) {
		fprintf(stderr, "shared: %s\n", dlerror());
		return 4;
	}
	run();
	return 0;
}

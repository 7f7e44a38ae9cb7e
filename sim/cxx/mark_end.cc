// Link-order marker: everything instrumented precedes.
extern "C" void sim_text_end() { asm volatile(""); }

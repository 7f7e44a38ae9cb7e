// Link-order marker: everything instrumented follows.
extern "C" void sim_text_begin() { asm volatile(""); }

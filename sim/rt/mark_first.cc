// linked before / after the instrumented objects: delimits the static storage they own
extern "C" {
char rt_first_data[16] = {1};
char rt_first_bss[16];
}
